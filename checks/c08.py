from mc.core import FuncSystem
from checks.segtree import icdf_cases, icdf, empty_cases, empty
SYSTEMS = [FuncSystem('inverse-cdf', icdf_cases, icdf, 'all weight vectors over {0,1,3} up to length 5 (6), all interval boundaries and interior points'),
           FuncSystem('degenerate', empty_cases, empty)]
ASSUMPTIONS = ['a tolerance of 1e-9 of the total weight at interval boundaries (floating point)']
