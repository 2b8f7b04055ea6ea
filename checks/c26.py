from checks.helpers import C26
SYSTEMS = C26
ASSUMPTIONS = ['float32 tolerance; alphabets stated per system']
