from checks.monitor import BOOK
SYSTEMS = BOOK
ASSUMPTIONS = ['the wrapped environment, the clock and the tensorboard writer are stand-ins owned by the harness']
