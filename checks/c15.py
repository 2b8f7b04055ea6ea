from mc.core import FuncSystem
from checks.worker import Schedules, acc_cases, accessors, env_cases, envs
SYSTEMS = [Schedules(), FuncSystem('accessors', acc_cases, accessors, 'store = self / in-process / remote / two hops, every accessor'),
           FuncSystem('environments', env_cases, envs)]
ASSUMPTIONS = ['calls on the parameter store are atomic and arguments/results cross by serialization (what a ray actor guarantees)',
               'at most 3 learning steps are interleaved freely; after that the learner waits for the actors',
               'with several actors the global step count may lag behind (documented as not exactly thread-safe)']
