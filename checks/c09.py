from mc.core import FuncSystem
from checks.connectfour import Rules, game_cases, play_game, pair_cases, play_cols
SYSTEMS = [Rules(),
           FuncSystem('line-coverage', game_cases, play_game,
                      'a legal game for each of the 69 lines x completing cell x player (426), their mirror images, 66 near-lines, 60 full-board draws; every prefix checked'),
           FuncSystem('two-columns', pair_cases, play_cols, 'all games confined to any two columns (thorough: any three, 10 moves)')]
ASSUMPTIONS = ['the reference model in checks/c4model.py states the rules of Connect Four']
