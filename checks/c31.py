from checks.episodes import C31
SYSTEMS = C31
ASSUMPTIONS = ['whether the first frame (before any step) is part of the gif is left open']
