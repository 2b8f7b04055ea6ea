from checks.episodes import C32
SYSTEMS = C32
ASSUMPTIONS = ['quadruped/escape is excluded because it needs an OpenGL context; rendering is recorded by a stand-in for Physics.render',
               'an episode that dm_control ends may be reported as terminated or as truncated']
