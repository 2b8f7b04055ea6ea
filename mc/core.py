"""Small explicit-state / exhaustive-enumeration kernel shared by all checks.

Every check is a module ``checks.<id>`` that defines ``SYSTEMS``: a list of `System` objects.
A *system* closes a part of coax with a finite driver.  It enumerates *cases* (JSON-able values:
an operation sequence, a configuration, a schedule ...), runs each case against the real code in
/repo and compares with a boring reference model.  `Violation` (or any exception that escapes the
code under test) is a counterexample; the case is written out and can be replayed on its own with
``./run <id> --replay FILE``.
"""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for the current case."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.samples = []
        self.per_system = collections.OrderedDict()
        self.caps = []

    def outcome(self, obj):
        if len(self.outcomes) < 5_000_000:
            self.outcomes.add(hash(obj))

    def sample(self, obj, limit=12):
        if len(self.samples) < limit:
            self.samples.append(obj)


class System:
    """One closed driver.

    cases(tier) yields JSON-able cases, simplest first.
    run(case, st) executes one on the real code; raises Violation on disagreement.
        It adds to st.states / st.transitions (and calls st.outcome) itself.
    """
    name = '?'
    bound = ''

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, st):
        raise NotImplementedError


class FuncSystem(System):
    def __init__(self, name, cases, run, bound=''):
        self.name, self._cases, self._run, self.bound = name, cases, run, bound

    def cases(self, tier):
        return self._cases(tier)

    def run(self, case, st):
        return self._run(case, st)


def system(name, cases, bound=''):
    def deco(f):
        return FuncSystem(name, cases, f, bound)
    return deco


class BFS(System):
    """Breadth-first search over the real transition function.

    Sub-classes give: configs(tier), build(config), ops(config, tier), apply(obj, op, model),
    canon(obj, model), invariant(obj, model), depth(config, tier), clone(obj).

    A *state* is the pair (real object, reference model); states are merged only when the canonical
    form of both agree, where the canonical form contains everything observable through the API.
    A single case is [config, [op, ...]], so a counterexample replays without the search.
    """

    def configs(self, tier):
        raise NotImplementedError

    def cases(self, tier):
        for c in self.configs(tier):
            for i in range(self.split):
                yield ['bfs', c, i]

    # number of independent searches a configuration is split into (by first operation), so that
    # they can run in different processes; distinct states are then counted per search
    split = 1

    # -- to be provided
    def build(self, config):
        """-> (real, model)"""
        raise NotImplementedError

    def ops(self, config, tier, model):
        raise NotImplementedError

    def apply(self, real, model, op):
        raise NotImplementedError

    def invariant(self, real, model, hist):
        pass

    def canon(self, real, model):
        raise NotImplementedError

    def depth(self, config, tier):
        raise NotImplementedError

    def clone(self, real, model):
        import copy
        return copy.deepcopy((real, model))

    def run(self, case, st):
        if case[0] == 'trace':
            return self._run_trace(case[1], case[2], st)
        config = case[1]
        tier = st.tier
        real, model = self.build(config)
        hist = ()
        self._guard(config, hist, lambda: self.invariant(real, model, hist))
        seen = {self.canon(real, model)}
        frontier = collections.deque([(real, model, hist)])
        st.states += 1
        maxd = self.depth(config, tier)
        while frontier:
            real, model, hist = frontier.popleft()
            if len(hist) >= maxd:
                continue
            for no, op in enumerate(self.ops(config, tier, model)):
                if not hist and no % self.split != case[2]:
                    continue
                h2 = hist + (op,)

                def go():
                    r2, m2 = self.clone(real, model)
                    self.apply(r2, m2, op)
                    self.invariant(r2, m2, h2)
                    return r2, m2, self.canon(r2, m2)
                r2, m2, k = self._guard(config, h2, go)
                st.transitions += 1
                st.traces += 1
                st.outcome(k)
                if k not in seen:
                    seen.add(k)
                    st.states += 1
                    frontier.append((r2, m2, h2))
                    st.sample({'system': self.name, 'config': config, 'trace': list(h2)}, 6)

    def _guard(self, config, hist, fn):
        try:
            return fn()
        except CaseViolation:
            raise
        except Exception as e:
            raise CaseViolation(['trace', config, list(hist)], describe(e)) from e

    def _run_trace(self, config, ops, st):
        real, model = self.build(config)
        self.invariant(real, model, ())
        done = ()
        for op in ops:
            op = _tuplify(op)
            done += (op,)
            self.apply(real, model, op)
            self.invariant(real, model, done)


def _tuplify(x):
    return tuple(_tuplify(i) for i in x) if isinstance(x, list) else x


class CaseViolation(Violation):
    """Violation that knows the minimal replayable case (when finer than the enumerated one)."""

    def __init__(self, case, msg):
        super().__init__(msg)
        self.case = case


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = f" at {fr.filename}:{fr.lineno}"
            break
    return f"unexpected {type(e).__name__}: {e}{where}"


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def known_findings(prop):
    """Entries of /verif/known_findings.jsonl: {"property", "kind": "known"|"fixed", "match", ...}."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d)
    return out
