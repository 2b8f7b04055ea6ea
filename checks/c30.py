from checks.regs import C30
SYSTEMS = C30
ASSUMPTIONS = ['float32 tolerance; alphabets stated per system']
