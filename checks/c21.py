from checks.policies import C21
SYSTEMS = C21
ASSUMPTIONS = ['sampled actions are enumerated over seeds; the sampling law itself is only bounded by frequencies (seven sigma) of one batch per distribution']
