from mc.core import FuncSystem
from checks.connectfour import prefixes, snap, bad_cases, bad, distinct_cases, distinct
SYSTEMS = [FuncSystem('snapshot-restore', prefixes, snap, 'every position within 3 (5) moves and every prefix of 552 complete games, restored into a fresh and a used environment, all continuations by one move'),
           FuncSystem('distinct-ids', distinct_cases, distinct, 'all positions within 4 (6) moves'),
           FuncSystem('malformed-ids', bad_cases, bad)]
ASSUMPTIONS = ['the reference model in checks/c4model.py states the rules of Connect Four']
