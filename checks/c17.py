from checks.multileaf import system
from checks.td import C17
SYSTEMS = C17 + [system(['SimpleTD', 'QLearning', 'Sarsa', 'DoubleQLearning'])]
ASSUMPTIONS = ['tabular function approximators; tolerance 3e-5 (2e-4 for distributional losses) relative']
