from checks.multileaf import system
from checks.pg import C19
SYSTEMS = C19 + [system(['VanillaPG', 'PPOClip'])]
ASSUMPTIONS = ['tabular policies and q-functions; the reference loss is written from the documented formula and differentiated in closed form; tolerance 1e-4 (3e-3 where a sharply peaked policy is sampled)']
