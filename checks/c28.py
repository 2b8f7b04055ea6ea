from checks.helpers import C28
SYSTEMS = C28
ASSUMPTIONS = ['float32 tolerance; alphabets stated per system']
