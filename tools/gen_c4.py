"""Generates checks/data/c4_games.json with the reference model only (see checks/c4model.py)."""
import json
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.c4model import Game, LINES, ROWS, COLS  # noqa

rnd = random.Random(20)


def attempt(target, last, who, win=True):
    """random legal game in which `who` completes `target` with `last`, nobody winning before"""
    g = Game()
    while not g.done:
        me = 0 if g.mover is None else 1 - g.mover
        good, ok = [], []
        for a in g.available():
            cell = (ROWS - 1 - len(g.cols[a]), a)
            n = g.copy()
            n.play(a)
            if cell in target and me != who:
                continue
            full = all(n.cell(*t) == who for t in target)
            if full:
                if cell == last and (win == n.done and (n.reward == 1.0) == win):
                    n2 = n
                    return ''.join(map(str, n2.moves))
                continue
            if cell == last:
                continue
            if n.done:
                continue
            ok.append(a)
            if cell in target:
                good.append(a)
        if not ok:
            return None
        a = rnd.choice(good) if good and rnd.random() < .7 else rnd.choice(ok)
        g.play(a)
    return None


def search(target, last, who, win=True, tries=4000):
    for _ in range(tries):
        m = attempt(target, last, who, win)
        if m:
            return m


def draw():
    while True:
        g = Game()
        while not g.done:
            ok = []
            for a in g.available():
                n = g.copy()
                n.play(a)
                if not (n.done and n.reward):
                    ok.append(a)
            if not ok:
                break
            g.play(rnd.choice(ok))
        if g.done:
            return ''.join(map(str, g.moves))


out = {'wins': [], 'near': [], 'draws': []}
missing = []
for ln in LINES:
    for who in (0, 1):
        lasts = [min(ln)] if ln[0][1] == ln[1][1] else ln
        for last in lasts:
            m = search(ln, last, who)
            if m is None:
                missing.append((ln, last, who))
            else:
                out['wins'].append(m)
# four tokens that look like a line when rows are concatenated, or with a gap: not a win
near = []
for r in range(ROWS):
    for c in range(COLS):
        for step in (1, COLS, COLS + 1, COLS - 1):
            idx = [r * COLS + c + i * step for i in range(4)]
            cells = tuple((i // COLS, i % COLS) for i in idx)
            if all(i < ROWS * COLS for i in idx) and cells not in LINES and cells[::-1] not in LINES:
                near.append(cells)
for cells in near:
    for who in (0, 1):
        m = search(cells, min(cells), who, win=False)
        if m:
            out['near'].append(m)
out['draws'] = [draw() for _ in range(60)]
print({k: len(v) for k, v in out.items()}, 'missing', missing)
json.dump(out, open('checks/data/c4_games.json', 'w'))
