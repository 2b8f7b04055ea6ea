from mc.core import FuncSystem
from checks.wrap import real_cases, reals, disc_cases, disc, badbins_cases, badbins, nest_cases, nested
SYSTEMS = [FuncSystem('reals', real_cases, reals, '10 boxes x 2 dtypes x grid of 14 action values per component'),
           FuncSystem('discrete', disc_cases, disc, '10 boxes x 2 dtypes x bins x every bin x 7 draws'),
           FuncSystem('arguments', badbins_cases, badbins), FuncSystem('nesting', nest_cases, nested)]
ASSUMPTIONS = ['the wrapped environment is a stand-in; uniform draws are dictated by the harness']
