from checks.seeds import C25
SYSTEMS = C25
ASSUMPTIONS = ['single-threaded programs']
