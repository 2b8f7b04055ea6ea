from checks.funcs import C18
SYSTEMS = C18
ASSUMPTIONS = ['functions are tables or linear in an encoding the reference computes independently; float32 tolerance']
