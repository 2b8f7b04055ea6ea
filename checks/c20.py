from checks.funcs import C20
SYSTEMS = C20
ASSUMPTIONS = ['functions are tables or linear in an encoding the reference computes independently; float32 tolerance']
