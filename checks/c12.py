from checks.monitor import METRICS
SYSTEMS = METRICS
ASSUMPTIONS = ['the wrapped environment, the clock and the tensorboard writer are stand-ins owned by the harness']
