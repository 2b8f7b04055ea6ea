from checks.helpers import C27
SYSTEMS = C27
ASSUMPTIONS = ['float32 tolerance; alphabets stated per system']
