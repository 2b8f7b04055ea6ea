from checks.dists import C22
SYSTEMS = C22
ASSUMPTIONS = ['float32 tolerance; parameter grids stated per system', 'the sampling law is only bounded by frequencies (seven sigma) of one fixed batch per distribution']
