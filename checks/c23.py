from checks.dists import C23
SYSTEMS = C23
ASSUMPTIONS = ['float32 tolerance; parameter grids stated per system']
