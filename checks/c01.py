from checks.tracing import NStepBFS, NSTEP_EP
SYSTEMS = [NStepBFS(), NSTEP_EP]
ASSUMPTIONS = ['rewards, discount factors and look-ahead n range over the listed finite alphabets',
               'at most maxlen steps are pending in the tracer at any time']
