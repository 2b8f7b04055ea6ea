"""Connect Four: rules (C09) and snapshot / restore (C10)."""
import copy
import itertools
import json
import os

import numpy as np

from mc.core import BFS, FuncSystem, check
from mc.util import snapshot, expect_raises
from checks.c4model import Game, COLS
from coax.envs import ConnectFourEnv
from coax._base.errors import UnavailableActionError, EpisodeDoneError

with open(os.path.join(os.path.dirname(__file__), 'data', 'c4_games.json')) as f:
    GAMES = json.load(f)


def agree(env, g, obs=None):
    """everything observable without moving"""
    want = np.array(g.observation())
    for what, s in (('env.state', env.state),) + ((('returned observation', obs),) if obs is not None else ()):
        check(np.array_equal(np.asarray(s), want), '%s after %s is\n%s\nexpected\n%s', what,
              g.moves, np.asarray(s)[..., 0] - 2 * np.asarray(s)[..., 1], want[..., 0] - 2 * want[..., 1])
        check(env.observation_space.contains(np.asarray(s, dtype=env.observation_space.dtype)),
              '%s outside the observation space', what)
    check(sorted(int(a) for a in env.available_actions) == g.available(),
          'available actions after %s: %s, expected %s', g.moves, list(env.available_actions), g.available())
    mask = np.asarray(env.available_actions_mask)
    check(mask.dtype == bool and [i for i in range(COLS) if mask[i]] == g.available() and mask.shape == (COLS,),
          'mask after %s: %s', g.moves, mask)
    check(bool(env.done) == g.done, 'done after %s: %s', g.moves, env.done)


def refusals(env, g):
    """illegal moves are refused and change nothing"""
    before = (np.array(env.state), env.state_id)
    if g.done:
        for a in range(COLS):
            expect_raises(f'move {a} after the end of {g.moves}', EpisodeDoneError, lambda: env.step(a))
    else:
        for a in (-1, COLS, 0.5, None, 'x'):
            expect_raises(f'invalid move {a!r}', ValueError, lambda: env.step(a))
        for a in set(range(COLS)) - set(g.available()):
            expect_raises(f'full column {a} after {g.moves}', UnavailableActionError, lambda: env.step(a))
    check(np.array_equal(before[0], env.state) and before[1] == env.state_id,
          'a refused move changed the board after %s', g.moves)


def move(env, g, a, as_np=False):
    out = env.step(np.int64(a) if as_np else a)
    check(len(out) == 4, 'step returned %d values', len(out))
    s, r, done, info = out
    want_r, want_d = g.play(a)
    check(r == want_r and bool(done) == want_d, 'moves %s: reward %s done %s, expected %s %s',
          g.moves, r, done, want_r, want_d)
    check(info['state_id'] == env.state_id, 'state id in info')
    agree(env, g, s)
    return s


def fresh():
    env = ConnectFourEnv()
    env.reset()
    return env, Game()


class Rules(BFS):
    name = 'all-games'
    split = 7
    bound = 'every position reachable within the stated number of moves, all 7 moves + reset from each'

    def configs(self, tier):
        yield {'depth': 5 if tier == 'quick' else 7}

    def depth(self, cfg, tier):
        return cfg['depth']

    def build(self, cfg):
        return fresh()

    def clone(self, env, g):
        return copy.deepcopy(env), g.copy()

    def ops(self, cfg, tier, g):
        return [a for a in range(COLS)] + (['reset'] if len(g.moves) in (1, 3) else [])

    def apply(self, env, g, op):
        if op == 'reset':
            s = env.reset()
            g.__init__()
            agree(env, g, s)
        elif g.done or op not in g.available():
            refusals(env, g)
        else:
            kept = np.array(env.state)
            handed = env.state
            move(env, g, op, as_np=len(g.moves) % 2 == 1)
            check(np.array_equal(kept, handed), 'an observation handed out earlier changed')

    def invariant(self, env, g, hist):
        agree(env, g)
        refusals(env, g)

    def canon(self, env, g):
        return snapshot((env, tuple(map(tuple, g.cols)), g.done))


def game_cases(tier):
    for kind in ('wins', 'near', 'draws'):
        for m in GAMES[kind]:
            yield [kind, m]
            if kind != 'near':
                yield [kind, ''.join(str(6 - int(c)) for c in m)]


def play_game(case, st):
    kind, moves = case
    env, g = fresh()
    for a in map(int, moves):
        move(env, g, a)
        refusals(env, g)
        st.states += 1
        st.transitions += 1
    st.traces += 1
    st.outcome((kind, moves))
    check(g.done == (kind != 'near'), 'harness: stored game')
    if g.done:   # the next episode starts afresh
        s = env.reset()
        agree(env, Game(), s)
    st.sample(case)


def pair_cases(tier):
    """all games on a pair of columns: fills columns completely"""
    for c in itertools.combinations(range(COLS), 2):
        yield ['pair', list(c)]
    if tier == 'thorough':
        for c in itertools.combinations(range(COLS), 3):
            yield ['triple', list(c)]


def play_cols(case, st):
    cols = case[1]
    seen = set()
    todo = [fresh()]
    while todo:
        env, g = todo.pop()
        if g.done or len(g.moves) > (14 if case[0] == 'pair' else 9):
            continue
        for a in cols:
            e2, g2 = copy.deepcopy(env), g.copy()
            st.transitions += 1
            if a in g2.available():
                move(e2, g2, a)
                k = (tuple(map(tuple, g2.cols)))
                if k in seen:
                    continue
                seen.add(k)
                st.states += 1
                refusals(e2, g2)
                todo.append((e2, g2))
            else:
                refusals(e2, g2)
    st.traces += len(seen)
    st.outcome(tuple(sorted(seen))[:50])


# ---------------------------------------------------------------- C10

def prefixes(tier):
    yield []
    for d in range(1, 4 if tier == 'quick' else 6):
        for m in itertools.product(range(COLS), repeat=d):
            yield list(m)
    for kind in ('wins', 'near', 'draws'):
        for m in GAMES[kind]:
            yield ['game', m]


def used_env(n):
    """an env with an unrelated history"""
    env = ConnectFourEnv()
    env.reset()
    for a in GAMES['wins'][n % len(GAMES['wins'])] if n % 3 else '3344':
        env.step(int(a))
    return env


def roundtrip(env, g, st, n, full=True):
    sid = env.state_id
    check(isinstance(sid, str), 'state id is a string')
    for tgt in (ConnectFourEnv(), used_env(n)):
        tgt.set_state(sid)
        agree(tgt, g)
        check(tgt.state_id == sid, 'the id of the restored state differs: %s %s', tgt.state_id, sid)
        refusals(tgt, g)
        if full:
            for a in range(COLS):
                t2, g2, e2 = copy.deepcopy(tgt), g.copy(), copy.deepcopy(env)
                if g.done or a not in g.available():
                    continue
                move(t2, g2, a)
                e2.step(a)
                check(t2.state_id == e2.state_id, 'restored and original game diverge after %s', g2.moves)
                st.transitions += 1
    agree(env, g)


def snap(case, st):
    game = bool(case) and case[0] == 'game'
    moves = case[1] if game else case
    env, g = fresh()
    ids = {}
    if not game:
        for a in moves:
            if g.done or a not in g.available():
                return
            move(env, g, a)
        roundtrip(env, g, st, len(moves) + sum(moves))
        st.states += 1
    else:
        for i, a in enumerate(map(int, moves)):
            move(env, g, a)
            roundtrip(env, g, st, i, full=(i >= len(moves) - 2 or i % 9 == 0))
            check(env.state_id not in ids, 'two positions of one game share an id')
            ids[env.state_id] = i
            st.states += 1
        # continue the rest of the game from a snapshot taken half way
        h = len(moves) // 2
        e1, g1 = fresh()
        for a in map(int, moves[:h]):
            move(e1, g1, a)
        e2 = used_env(h)
        e2.set_state(e1.state_id)
        for a in map(int, moves[h:]):
            move(e2, g1, a)
        # rewind the finished env to the snapshot and replay once more
        e2.set_state(e1.state_id)
        e3, g3 = fresh()
        for a in map(int, moves[:h]):
            move(e3, g3, a)
        for a in map(int, moves[h:]):
            move(e2, g3, a)
        s = e2.reset()
        agree(e2, Game(), s)
    st.traces += 1
    st.outcome(tuple(moves))
    st.sample(case, 4)


def bad_cases(tier):
    out = [p + '0' + '7' + '0' * 17 for p in '03456789f']
    out += ['1' + d + '7' + '0' * 17 for d in '23456789f']
    out += ['10' + a + '0' * 17 for a in '89abcdef']
    # a board part beyond 3 ** 42 - 1, not a number, or missing
    for p, d, a in (('1', '0', '3'), ('2', '0', '3'), ('1', '1', '6'), ('2', '1', '0')):
        out += [p + d + a + '{:017x}'.format(n) for n in (3 ** 42, 3 ** 42 + 1, 16 ** 17 - 1)]
        out += [p + d + a + b for b in ('', 'x' * 17, '0' * 16 + 'g', '-' + '0' * 15 + '1')]
    out += ['', '1', '10', 'x07' + '0' * 17, '1x7' + '0' * 17, '10x' + '0' * 17]
    for moves in ('', '3', '30', '0101010', '0123456', '00000', '01010112'):
        for i in out:
            yield [moves, i]


def bad(case, st):
    moves, sid = case
    env, g = fresh()
    for a in map(int, moves):
        move(env, g, a)
    expect_raises(f'restoring the malformed id {sid}', Exception, lambda: env.set_state(sid))
    agree(env, g)
    refusals(env, g)
    st.outcome((moves, env.state_id))
    for a in ([] if g.done else list(g.available())):
        e2, g2 = copy.deepcopy(env), g.copy()
        move(e2, g2, a)
        st.transitions += 1
    st.states += 1
    st.transitions += 1
    st.traces += 1
    st.outcome(tuple(case))


def distinct_cases(tier):
    yield 4 if tier == 'quick' else 6


def distinct(depth, st):
    """different positions have different ids"""
    seen = {}
    frontier = [fresh()]
    for _ in range(depth):
        nxt = []
        for env, g in frontier:
            for a in g.available():
                if g.done:
                    continue
                e2, g2 = copy.deepcopy(env), g.copy()
                e2.step(a)
                g2.play(a)
                st.transitions += 1
                k = (tuple(map(tuple, g2.cols)), g2.mover)
                old = seen.setdefault(e2.state_id, k)
                check(old == k, 'positions %s and %s share the id %s', old, k, e2.state_id)
                if (k, a) not in seen:
                    seen[k, a] = 1
                    nxt.append((e2, g2))
                    st.states += 1
        frontier = nxt
    st.traces += len(seen)
    st.outcome(len(seen))
