from mc.core import FuncSystem
from checks.wrap import Frames, Meta, bad_frames
SYSTEMS = [Frames(), Meta(),
           FuncSystem('bad-num-frames', lambda tier: iter([0, -1, 1.5, '2', None]), bad_frames)]
ASSUMPTIONS = ['the wrapped environment is a stand-in whose outcomes the harness dictates']
