from checks.td import C16
SYSTEMS = C16
ASSUMPTIONS = ['tabular function approximators; tolerance 3e-5 (2e-4 for distributional losses) relative']
