from checks.multileaf import system
from checks.models import C29
SYSTEMS = C29 + [system(['transition', 'reward'])]
ASSUMPTIONS = ['float32 tolerance; sampled predictions are only judged where the distribution is (numerically) a point mass or the mean enters linearly']
