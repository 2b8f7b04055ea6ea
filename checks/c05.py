from mc.core import FuncSystem
from checks.prio import Contents, long, long_cases
SYSTEMS = [Contents(), FuncSystem('long-lived-ids', long_cases, long, 'capacities up to 1000, up to 66000 additions, every (or, in the longest, every 137th) stale id')]
ASSUMPTIONS = ['capacity <= 4 (quick) / 5 (thorough) for all histories up to the stated depth; capacities up to 1000 for single long histories',
               'uniform draws are dictated by the harness (numpy RandomState is owned)']
