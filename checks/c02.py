from checks.tracing import MonteCarloBFS, MC_EP
SYSTEMS = [MonteCarloBFS(), MC_EP]
ASSUMPTIONS = ['rewards and discount factors range over the listed finite alphabets',
               'at most maxlen steps are pending in the tracer at any time']
