from mc.core import FuncSystem
from checks.prio import Weights, grid_cases, grid
SYSTEMS = [FuncSystem('grid', grid_cases, grid, 'capacity x fill x alpha x beta x epsilon grid'), Weights()]
ASSUMPTIONS = ['uniform draws are dictated by the harness (numpy RandomState is owned)',
               'alpha is changed by more than 1% (smaller changes are documented no-ops)']
