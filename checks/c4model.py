"""Reference model of Connect Four (pure Python; no code shared with coax)."""
ROWS, COLS = 6, 7
LINES = []
for r in range(ROWS):
    for c in range(COLS):
        for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1)):
            cells = [(r + i * dr, c + i * dc) for i in range(4)]
            if all(0 <= y < ROWS and 0 <= x < COLS for y, x in cells):
                LINES.append(tuple(cells))
assert len(LINES) == 69


class Game:
    """cols[c] lists the owners (0 / 1: the first / second mover) from the bottom up"""

    def __init__(self):
        self.cols = [[] for _ in range(COLS)]
        self.mover = None      # who made the last move
        self.moves = []
        self.done = False
        self.reward = 0.0

    def copy(self):
        g = Game()
        g.cols = [list(c) for c in self.cols]
        g.mover, g.moves, g.done, g.reward = self.mover, list(self.moves), self.done, self.reward
        return g

    def available(self):
        return [c for c in range(COLS) if len(self.cols[c]) < ROWS]

    def cell(self, row, col):
        """row 0 is the top row"""
        h = ROWS - 1 - row
        return self.cols[col][h] if h < len(self.cols[col]) else None

    def wins(self, who):
        return [ln for ln in LINES if all(self.cell(r, c) == who for r, c in ln)]

    def play(self, a):
        assert not self.done and a in self.available()
        self.mover = 0 if self.mover is None else 1 - self.mover
        self.cols[a].append(self.mover)
        self.moves.append(a)
        if self.wins(self.mover):
            self.done, self.reward = True, 1.0
        elif not self.available():
            self.done, self.reward = True, 0.0
        else:
            self.done, self.reward = False, 0.0
        return self.reward, self.done

    def observation(self):
        """nested lists [7][7][2]; before any move both token layers are empty"""
        av = set(self.available())
        me, other = (0, 1) if self.mover is None else (self.mover, 1 - self.mover)
        obs = [[[int(c in av)] * 2 for c in range(COLS)]]
        for r in range(ROWS):
            obs.append([[int(self.cell(r, c) == me), int(self.cell(r, c) == other)]
                        for c in range(COLS)])
        return obs
