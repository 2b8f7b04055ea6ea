from checks.saving import C24
SYSTEMS = C24
ASSUMPTIONS = ['a crash ends the process; the file system itself keeps what was written']
