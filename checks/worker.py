"""C15: distributed actors / learner sharing one parameter store, under every schedule.

`ray` is replaced by a stub whose remote calls are executed by a controlled scheduler: every call on the
store is one atomic event (that is what a ray actor guarantees), arguments and results cross by
serialization, and *which* worker's call comes next is chosen by the explorer.  Real threads run the real
loops of the real Worker; the exploration is a depth-first search over all schedules with merging of
states (store contents, everything each worker has seen so far).
"""
import itertools
import sys
import threading
import time
import types

import cloudpickle
import numpy as np

# ---------------------------------------------------------------- the ray stub

_ray = types.ModuleType('ray')
_actor = types.ModuleType('ray.actor')


class Ref:
    def __init__(self, value):
        self.value = value


class ActorHandle:
    def __init__(self, target):
        object.__setattr__(self, '_target', target)

    def __getattr__(self, name):
        m = getattr(self._target, name)   # AttributeError for unknown methods, as in ray

        class Method:
            def remote(self_, *a, **k):
                a, k = cloudpickle.loads(cloudpickle.dumps((a, k)))
                out = call(m, name, a, k)
                return Ref(cloudpickle.dumps(out))
        return Method()


def _get(ref, *a, **k):
    if isinstance(ref, (list, tuple)):
        return [_get(r) for r in ref]
    if not isinstance(ref, Ref):
        raise TypeError(f'ray.get of {type(ref)}')
    return cloudpickle.loads(ref.value)


_ray.get = _get
_ray.actor = _actor
_actor.ActorHandle = ActorHandle
_ray.__path__ = []
sys.modules['ray'] = _ray
sys.modules['ray.actor'] = _actor

import gymnasium                                            # noqa: E402
import coax                                                 # noqa: E402
from coax.experience_replay import SimpleReplayBuffer, PrioritizedReplayBuffer  # noqa: E402
from coax.reward_tracing import NStep                       # noqa: E402
from mc.core import System, FuncSystem, check, Violation, CaseViolation, describe   # noqa: E402
from mc.util import snapshot, expect_raises, expect_close   # noqa: E402

_real_sleep = time.sleep
_local = threading.local()


def _sleep(secs):
    th = getattr(_local, 'th', None)
    if th is None:
        return _real_sleep(secs)
    th.sched.sleep(th, secs)


time.sleep = _sleep


def call(fn, name, a, k):
    """an atomic event on the store"""
    th = getattr(_local, 'th', None)
    if th is None:
        return fn(*a, **k)
    return th.sched.event(th, fn, name, a, k)


class Stop(BaseException):
    pass


class Thread:
    def __init__(self, sched, no, fn):
        self.sched, self.no, self.fn = sched, no, fn
        self.go, self.history, self.done, self.error = threading.Semaphore(0), [], False, None
        self.pending, self.asleep_at, self.nap = None, None, False
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        _local.th = self
        self.go.acquire()
        try:
            if not self.sched.stopping:
                self.fn()
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.sched.back.release()


class Sched:
    """cooperative execution of the workers; `pick` decides who performs the next event"""

    def __init__(self, fns, world):
        self.back = threading.Semaphore(0)
        self.world = world
        self.stopping = False
        self.version = 0            # number of store events so far
        self.threads = [Thread(self, i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            t.thread.start()

    # called from worker threads
    def park(self, th, pending):
        th.pending = pending
        self.back.release()
        th.go.acquire()
        if self.stopping:
            raise Stop()

    def event(self, th, fn, name, a, k):
        self.park(th, name)
        before = self.world.before(th.no, name, a, k)
        out = fn(*a, **k)
        if name not in ('buffer_len', 'get_state', 'pull_metrics', 'pull_getattr'):
            self.version += 1
        self.world.after(th.no, name, a, k, out, before)
        th.history.append((name, digest(a), digest(k), digest(out)))
        return out

    def sleep(self, th, secs):
        check(0 < secs <= 30, 'waits %s seconds between two looks at the buffer', secs)
        # forget the unsuccessful look at the buffer: the worker is back where it was before it
        if th.history and th.history[-1][0] == 'buffer_len':
            th.history.pop()
        th.asleep_at = self.version
        self.park(th, 'sleep')
        th.asleep_at = None

    # called from the explorer
    def start(self):
        for t in self.threads:
            self.resume(t)

    def resume(self, t):
        t.go.release()
        self.back.acquire()
        if t.error is not None:
            raise t.error

    def enabled(self):
        return [t.no for t in self.threads if not t.done
                and (t.asleep_at is None or t.asleep_at != self.version)]

    def key(self):
        return (self.world.key(), tuple((tuple(t.history), t.done, t.pending,
                                         t.asleep_at is not None and t.asleep_at == self.version)
                                        for t in self.threads))

    def stop(self):
        self.stopping = True
        for t in self.threads:
            if not t.done:
                t.go.release()
        for t in self.threads:
            t.thread.join()


def digest(x):
    if isinstance(x, dict):
        return tuple(sorted((k, digest(v)) for k, v in x.items() if 'throughput' not in str(k)))
    if isinstance(x, (tuple, list)):
        return tuple(digest(v) for v in x)
    if isinstance(x, np.ndarray) or hasattr(x, 'dtype'):
        return np.asarray(x).tobytes()
    if hasattr(x, 'Rn'):
        return tuple(digest(np.asarray(v)) for v in (x.S, x.A, x.Rn, x.In))
    return repr(x)


# ---------------------------------------------------------------- the closed system

GAMMA = 0.5


class Env(gymnasium.Env):
    """episodes of dictated lengths; observation = unique id of the step"""
    observation_space = gymnasium.spaces.Discrete(10 ** 6)
    action_space = gymnasium.spaces.Discrete(10 ** 6)
    spec = None

    def __init__(self, base, lengths, rewards):
        self.spec = types.SimpleNamespace(max_episode_steps=5, reward_threshold=None, id='Toy-v0')
        self.base, self.lengths, self.rewards = base, lengths, rewards
        self.ep, self.i, self.left, self.log = 0, 0, 0, []

    def reset(self, **kw):
        self.left = self.lengths[self.ep % len(self.lengths)]
        self.ep += 1
        self.i += 1
        self.cur = self.base + self.i
        return self.cur, {}

    def step(self, a):
        r = float(self.rewards[len(self.log) % len(self.rewards)])
        self.left -= 1
        end = self.left == 0
        self.log.append((self.cur, a, r, end, self.ep))
        self.i += 1
        self.cur = self.base + self.i
        return self.cur, r, end and self.ep % 2 == 1, end and self.ep % 2 == 0, {}


class Toy(coax.Worker):
    def __init__(self, env, store=None, buffer=None, warmup=None, name=None):
        self.params = {'v': 0, 'trail': ()}
        self.learned = []
        self.tag = 7
        super().__init__(env=env, param_store=store, pi=self._pi, tracer=NStep(n=1, gamma=GAMMA),
                         buffer=buffer, buffer_warmup=warmup, name=name)

    def _pi(self, s, return_logp=False):
        a = self.params['v']
        return (a, -0.25) if return_logp else a

    def get_state(self):
        return self.params

    def set_state(self, state):
        self.params = state

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        self.tracer.add(s, a, r, done, logp, w)
        while self.tracer:
            self.buffer_add(self.tracer.pop(), Adv=np.array([r]))

    def learn(self, transition_batch):
        self.learned.append((self.params['v'], np.asarray(transition_batch.S).tolist()))
        self.params = {'v': self.params['v'] + 1, 'trail': self.params['trail'] + (len(self.learned),)}
        if hasattr(self, 'update_prio'):
            self.buffer_update(transition_batch.idx, np.full(len(transition_batch.idx), 2.0))
        return {'loss': float(self.params['v'])}


class LocalStore(Toy):
    """an in-process store; its calls become events of the scheduler"""
    def _ev(name):   # noqa: N805
        def f(self, *a, **k):
            return call(lambda *a, **k: getattr(super(LocalStore, self), name)(*a, **k), name, a, k)
        return f
    for _n in ('buffer_len', 'buffer_add', 'buffer_update', 'buffer_sample', 'get_state', 'set_state',
               'pull_metrics', 'push_metrics', 'pull_getattr', 'push_setattr'):
        locals()[_n] = _ev(_n)
    del _ev, _n

    def buffer_sample(self, *a, **k):
        # the inner buffer_len of the base class must not become a separate event
        def fn(*a, **k):
            th, _local.th = getattr(_local, 'th', None), None
            try:
                return Toy.buffer_sample(self, *a, **k)
            finally:
                _local.th = th
        return call(fn, 'buffer_sample', a, k)


def quiet(f):
    import logging
    logging.disable(logging.CRITICAL)
    try:
        return f()
    finally:
        logging.disable(logging.NOTSET)


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        buf = (PrioritizedReplayBuffer(64, alpha=1.0, beta=0.5, random_seed=3) if cfg['buffer'] == 'prio'
               else SimpleReplayBuffer(64, random_seed=3))
        cls = LocalStore if cfg['mode'] == 'local' else Toy
        self.store = cls(monitored(Env(0, [1], [0.])), buffer=buf, warmup=cfg.get('store_warmup'), name='store')
        ref = self.store if cfg['mode'] == 'local' else ActorHandle(self.store)
        self.actors, self.fns = [], []
        for i, lengths in enumerate(cfg['actors']):
            w = Toy(monitored(Env(1000 * (i + 1), lengths, cfg['rewards'])), store=ref, name=f'actor{i}')
            self.actors.append(w)
            self.fns.append(lambda w=w: w.rollout_loop(cfg['max'], reward_threshold=cfg.get('threshold')))
        self.learner = None
        if cfg['learner']:
            self.learner = Toy(monitored(Env(9000, [1], [0.])), store=ref, warmup=cfg['warmup'], name='learner')
            if cfg['buffer'] == 'prio':
                self.learner.update_prio = True
            self.fns.append(lambda: self.learner.learn_loop(cfg['max'], batch_size=cfg['batch']))
        self.n_actors = len(self.actors)
        self.adds, self.pulled, self.seenT, self.pushes, self.order = [], {}, {}, 0, []
        self.base = self.Tsum()
        self.Tmin = {}    # per actor: the least global step count since its last transition was stored

    def Tsum(self):
        return sum(len(a.env.unwrapped.log) for a in self.actors)

    def worker(self, no):
        return self.actors[no] if no < self.n_actors else self.learner

    def before(self, no, name, a, k):
        if name == 'buffer_sample':
            have, need = len(self.store.buffer), max(self.cfg['warmup'] or 0, self.cfg['batch'])
            check(have >= need, 'sampled when the buffer held %s of the %s transitions required', have, need)
        return self.store.env.T

    def after(self, no, name, a, k, out, before):
        w = self.worker(no)
        if name == 'buffer_add':
            self.Tmin[no] = before
        if name == 'get_state':
            check(out == self.store.params, 'pulled state')
            self.pulled.setdefault(no, []).append(out['v'])
        elif name == 'buffer_add':
            check(no < self.n_actors, 'the learner added to the buffer')
            self.adds.append(int(np.asarray(a[0].S)[0]) if a else int(np.asarray(k['transition_batch'].S)[0]))
        elif name == 'set_state':
            check(no == self.n_actors, 'an actor overwrote the shared state')
            self.pushes += 1
            check(self.store.params['v'] == self.pushes and self.store.params['trail'] == tuple(range(1, self.pushes + 1)),
                  'update %s of the learner left version %s (an update was lost)', self.pushes, self.store.params)
        elif name == 'push_setattr':
            name_, value = (tuple(a) + tuple(k.values()))[:2]
            check(name_ == 'env.T' and self.store.env.T == value, 'shared attribute %s', name_)
            check(value <= self.Tsum() + 0, 'global step count %s exceeds the %s steps taken', value, self.Tsum())
            if self.n_actors == 1:
                check(value == self.Tsum(), 'global step count %s after %s steps', value, self.Tsum())
            else:
                check(value == self.seenT[no] + w.env.t, 'global step count')
                # an update may be lost only if another actor's bookkeeping overlaps with this one's
                check(value >= self.Tmin[no] + w.env.t, 'actor %s, having played %s steps, set the global step count to %s, which had '
                      'been at least %s ever since these steps', no, w.env.t, value, self.Tmin[no])
            self.seenT[no] = value
            for i in self.Tmin:
                self.Tmin[i] = min(self.Tmin[i], value)
        elif name == 'pull_getattr':
            check(out == self.store.env.T, 'pulled %s = %s', a, out)
            self.seenT[no] = out
        elif name == 'buffer_sample':
            ids = np.asarray(out.S).tolist()
            check(len(ids) == self.cfg['batch'] and set(ids) <= set(self.adds), 'sampled %s from %s', ids, self.adds)
        # transitions arrive exactly once and intact
        check(len(self.store.buffer) == len(self.adds), 'buffer holds %s after %s additions', len(self.store.buffer), len(self.adds))

    def key(self):
        s = self.store
        return snapshot((s.buffer, s.params, s.env.T, self.Tmin if self.n_actors > 1 else None, {k: v for k, v in s.env.get_metrics().items() if 'throughput' not in k}))

    def finish(self, starved):
        cfg = self.cfg
        for i, w in enumerate(self.actors):
            log = w.env.unwrapped.log
            eps = log[-1][-1] if log else 0
            check(len(self.pulled.get(i, [])) == eps, 'actor %s pulled the shared state %s times for %s episodes',
                  i, len(self.pulled.get(i, [])), eps)
            for s, a, r, end, ep in log:
                check(a == self.pulled[i][ep - 1], 'episode %s of actor %s acted with version %s, pulled %s',
                      ep, i, a, self.pulled[i][ep - 1])
            thr = cfg.get('threshold')
            check(self.seenT[i] >= cfg['max'] or (thr is not None and w.env.avg_G >= thr),
                  'actor %s stopped at T=%s', i, self.seenT[i])
            if self.n_actors == 1 and thr is None:
                n, want = 0, 0
                while n < cfg['max']:
                    n += cfg['actors'][0][want % len(cfg['actors'][0])]
                    want += 1
                check(eps == want, 'the actor ran %s episodes, expected %s', eps, want)
                check(self.store.env.T == n, 'global T=%s', self.store.env.T)
            if eps:
                m = w.env.get_metrics()
                check(m.get('episode/T_global') == self.seenT[i] and 'throughput/rollout_loop' in m,
                      'actor metrics %s, T=%s', m, self.seenT[i])
        # every step exactly once, in the order of arrival, each intact
        want = sorted(s for w in self.actors for s, *_ in w.env.unwrapped.log)
        check(sorted(self.adds) == want, 'transitions %s, expected %s', sorted(self.adds), want)
        got = self.store.buffer.sample(len(want)) if cfg['buffer'] != 'prio' else None
        if got is not None:
            rows = {s: (a, r, end) for w in self.actors for s, a, r, end, _ in w.env.unwrapped.log}
            check(sorted(np.asarray(got.S).tolist()) == want, 'stored %s', got.S)
            for i, s in enumerate(np.asarray(got.S).tolist()):
                a, r, end = rows[s]
                check(int(got.A[i]) == a and float(got.Rn[i]) == r and float(got.In[i]) == (0.0 if end else GAMMA)
                      and (end or int(got.S_next[i]) == s + 1) and abs(float(got.logP[i]) + .25) < 1e-6,
                      'transition %s was stored as A=%s Rn=%s In=%s', rows[s], got.A[i], got.Rn[i], got.In[i])
        if self.learner is not None:
            check(len(self.learner.learned) - self.pushes in ((0, 1) if starved else (0,)), 'a learning step was not pushed')
            if not starved:
                check(self.seenT[self.n_actors] >= cfg['max'], 'the learner stopped at T=%s', self.seenT[self.n_actors])
                m = self.store.env.get_metrics()
                if self.pushes:
                    want = sum(range(1, self.pushes + 1)) / self.pushes
                    check(abs(m['loss'] - want) < 1e-6, 'metrics of the learner at the store: %s, expected %s', m, want)
                    check('throughput/learn_loop' in m, 'learner throughput')


def monitored(env):
    return coax.wrappers.TrainMonitor(env, level=50, log_all_metrics=True)


class Schedules(System):
    name = 'schedules'
    bound = 'all schedules of the listed actor/learner configurations (store calls are atomic events; no preemption bound)'

    def configs(self, tier):
        base = dict(rewards=[1.0, 2.0, 4.0], buffer='simple', learner=False, warmup=None, batch=1, mode='ray', max=3, actors=[[2, 1]])

        def mk(**k):
            return dict(base, **k)
        out = []
        for mode in ('ray', 'local'):
            out += [mk(mode=mode), mk(mode=mode, max=4, actors=[[1]]), mk(mode=mode, max=10, actors=[[1, 2]], threshold=2.5),
                    mk(mode=mode, learner=True, max=2, actors=[[1]], warmup=1),
                    mk(mode=mode, learner=True, max=2, actors=[[2]], warmup=2),
                    mk(mode=mode, learner=True, max=2, actors=[[1, 1]], warmup=0, batch=2),
                    mk(mode=mode, learner=True, max=2, actors=[[1, 1]], warmup=1, batch=2),
                    mk(mode=mode, actors=[[1], [2]], max=2),
                    mk(mode=mode, actors=[[1], [1]], max=2)]
        out.append(mk(learner=True, max=2, actors=[[1]], warmup=1, buffer='prio'))
        out.append(mk(learner=True, max=1, actors=[[1]], warmup=5))     # the learner can never start
        if tier != 'quick':
            out += [mk(learner=True, max=3, actors=[[1, 2]], warmup=2, mode=m) for m in ('ray', 'local')]
            out += [mk(learner=True, max=1, actors=[[1], [1]], warmup=2, mode=m) for m in ('ray', 'local')]
            out += [mk(actors=[[1], [1]], max=3), mk(actors=[[1], [1], [1]], max=1), mk(actors=[[2], [1]], max=3)]
        return out

    def cases(self, tier):
        for c in self.configs(tier):
            yield ['explore', c]

    def run(self, case, st):
        if case[0] == 'schedule':
            return self._one(dict(case[1]), list(case[2]), None, st)
        cfg = case[1]
        seen, todo = set(), [[]]
        while todo:
            prefix = todo.pop()
            todo += self._one(cfg, prefix, seen, st)

    def _one(self, cfg, prefix, seen, st):
        """run prefix, then first-enabled until a known state; -> unexplored alternatives"""
        cap = 3 if cfg['learner'] else None   # learning steps explored (the learner may run ahead for ever)
        world = World(cfg)
        sched = Sched(world.fns, world)
        taken, alts, last = [], [], None
        try:
            try:
                sched.start()
                while True:
                    if world.learner is not None and last is None and all(t.done for t in sched.threads[:world.n_actors]):
                        last = world.pushes
                    # a learner that has begun a round may finish it (and push its result), but not begin another
                    check(last is None or world.pushes <= last + 1, 'the learner goes on after %s of %s steps', world.store.env.T, cfg['max'])
                    en = sched.enabled()
                    starved = False
                    if world.learner is not None and world.pushes >= cap:
                        # bound: let the others finish first
                        en2 = [e for e in en if e != world.n_actors]
                        en = en2 or en
                    if not en:
                        if all(t.done for t in sched.threads):
                            break
                        starved = True
                        alive = [t.no for t in sched.threads if not t.done]
                        check(alive == [world.n_actors] and
                              len(world.store.buffer) < max(cfg['warmup'] or 0, cfg['batch']),
                              'workers %s are blocked for ever', alive)
                        break
                    if len(taken) < len(prefix):
                        no = prefix[len(taken)]
                    else:
                        if seen is not None:
                            k = sched.key()
                            if k in seen:
                                return alts
                            seen.add(k)
                            st.states += 1
                        for other in en[1:]:
                            alts.append(taken + [other])
                        no = en[0]
                    taken.append(no)
                    st.transitions += 1
                    sched.resume(sched.threads[no])
                world.finish(starved)
                st.traces += 1
                st.outcome((repr(cfg), tuple(taken)))
                st.sample({'config': cfg, 'schedule': taken}, 3)
                return alts
            finally:
                sched.stop()
        except Exception as e:
            raise CaseViolation(['schedule', cfg, taken], describe(e)) from e


# ---------------------------------------------------------------- accessors (sequential)

def acc_cases(tier):
    for mode in ('self', 'ray', 'local', 'chain', 'chain2'):
        for what in ('loop', 'budget', 'get', 'default', 'missing', 'nested', 'set', 'buffer', 'prio', 'state', 'metrics', 'wait'):
            yield [mode, what]


def accessors(case, st):
    mode, what = case
    buf = (PrioritizedReplayBuffer(8, alpha=1.0, random_seed=0) if what == 'prio' else SimpleReplayBuffer(8, random_seed=0))
    store = Toy(monitored(Env(0, [1], [0.])), buffer=buf, warmup=1)
    if mode == 'self':
        w = store
    elif mode == 'ray':
        w = Toy(monitored(Env(1, [1], [0.])), store=ActorHandle(store))
    elif mode == 'local':
        w = Toy(monitored(Env(1, [1], [0.])), store=store)
    elif mode == 'chain':
        w = Toy(monitored(Env(1, [1], [0.])), store=ActorHandle(Toy(monitored(Env(1, [1], [0.])), store=store)))
    else:
        w = Toy(monitored(Env(1, [1], [0.])), store=Toy(monitored(Env(1, [1], [0.])), store=ActorHandle(store)))
    if w is not store:
        w.tag, w.env.T = 'mine', 999
    st.states += 1
    st.transitions += 1
    st.traces += 1
    st.outcome(tuple(case))
    if what == 'get':
        check(w.pull_getattr('tag') == 7, 'tag %s', w.pull_getattr('tag'))
        store.env.T = 12
        check(w.pull_getattr('env.T') == 12, 'env.T')
    elif what == 'default':
        check(w.pull_getattr('nope', 5) == 5 and w.pull_getattr('env.nope', None) is None
              and w.pull_getattr('tag', 5) == 7, 'default value')
    elif what == 'missing':
        expect_raises('missing attribute', AttributeError, lambda: w.pull_getattr('nope'))
        expect_raises('missing attribute', AttributeError, lambda: w.pull_getattr('env.nope'))
    elif what == 'nested':
        w.push_setattr('env.unwrapped.base', 77)
        check(store.env.unwrapped.base == 77, 'nested attribute')
        check(w.pull_getattr('env.unwrapped.base') == 77, 'nested attribute')
    elif what == 'set':
        w.push_setattr('tag', 8)
        check(store.tag == 8, 'set attribute')
        w.push_setattr('brand_new', [1])
        check(store.brand_new == [1], 'new attribute')
        if w is not store:
            check(w.tag == 'mine' and not hasattr(w, 'brand_new'), 'the attribute was set on the wrong worker')
    elif what in ('buffer', 'prio'):
        from coax.reward_tracing import TransitionBatch
        for i in range(3):
            check(w.buffer_len() == i == len(store.buffer), 'buffer_len')
            tb = TransitionBatch.from_single(s=i, a=1, logp=-.5, r=float(i), done=False, gamma=.9, s_next=i + 1)
            w.buffer_add(tb, np.array([1.0 + i])) if what == 'prio' else w.buffer_add(tb)
        out = w.buffer_sample(2)
        check(out.batch_size == 2 and set(np.asarray(out.S).tolist()) <= {0, 1, 2}, 'sample')
        check(w.buffer_sample(batch_size=3).batch_size == 3, 'sample')
        if what == 'prio':
            # all the mass on one item
            w.buffer_update(np.array([0, 1, 2]), np.array([0.0, 1e9, 0.0]))
            check(set(np.asarray(w.buffer_sample(3).S).tolist()) == {1}, 'priorities were not updated')
    elif what == 'state':
        if w is store:
            expect_raises('pull on the store itself', AssertionError, w.pull_state)
            expect_raises('push on the store itself', AssertionError, w.push_state)
            return
        if mode.startswith('chain'):   # only one hop for parameters
            return
        store.params = {'v': 3, 'trail': ()}
        w.pull_state()
        check(w.params == {'v': 3, 'trail': ()}, 'pulled %s', w.params)
        w.params = {'v': 4, 'trail': (1,)}
        check(store.params['v'] == 3, 'store changed without a push')
        w.push_state()
        check(store.params == {'v': 4, 'trail': (1,)}, 'pushed %s', store.params)
    elif what == 'loop':
        # the learner builds upon whatever is in the store at the time, also if somebody else has changed it meanwhile
        if mode not in ('ray', 'local'):
            return
        from coax.reward_tracing import TransitionBatch
        store.buffer.add(TransitionBatch.from_single(s=1, a=1, logp=-.5, r=1.0, done=False, gamma=.9, s_next=2))
        store.params = {'v': 10, 'trail': ()}
        log = []

        def learn(transition_batch):
            log.append(w.params['v'])
            w.params = {'v': w.params['v'] + 1, 'trail': ()}
            store.params = {'v': 1000 + len(log), 'trail': ()}
            if len(log) == 4:
                store.env.T = 5
            return {'loss': 0.}

        def boundary(name, *args, orig=store.pull_getattr, **kw):   # asked at the end of every round
            if len(log) > len(seen):
                seen.append(store.params['v'])
                store.params = {'v': 20 * len(log), 'trail': ()}
            return orig(name, *args, **kw)
        seen = []
        w.learn, store.pull_getattr, store.env.T = learn, boundary, 0
        w.learn_loop(5, batch_size=1)
        check(log == [10, 20, 40, 60] and seen == [11, 21, 41, 61], 'learned from versions %s and left versions %s', log, seen)
    elif what == 'budget':
        # the loops run while the number of steps taken so far is below the budget, and only then
        if mode not in ('ray', 'local'):
            return
        from coax.reward_tracing import TransitionBatch
        store.buffer.add(TransitionBatch.from_single(s=1, a=1, logp=-.5, r=1.0, done=False, gamma=.9, s_next=2))
        rounds = []

        def once(kind, fn):
            def f(*args):
                rounds.append(kind)
                check(len(rounds) <= 1, '%s goes on although the budget of %s is used up', kind, budget)
                return fn(*args)
            return f

        def learn(batch):
            store.env.T = budget
            return {'loss': 0.}
        w.learn, w.rollout = once('learn_loop', learn), once('rollout_loop', w.rollout)
        for budget, left in itertools.product((1, 5, 12), (2, 1, 0, -1)):
            for kind in ('learn_loop', 'rollout_loop'):
                if kind == 'rollout_loop' and left == 2:       # its episodes have one step
                    continue
                rounds.clear()
                store.env.T = budget - left
                w.learn_loop(budget, batch_size=1) if kind == 'learn_loop' else w.rollout_loop(budget)
                check(len(rounds) == (left > 0), '%s with %s of %s steps taken did %s rounds', kind, budget - left, budget, len(rounds))
                check(store.env.T == (budget if left >= 0 else budget + 1), '%s: env.T is %s', kind, store.env.T)
                st.transitions += 1
    elif what == 'metrics':
        w.push_metrics({'a': 1.0})
        w.push_metrics({'a': 3.0, 'b': 5.0})
        check(w.pull_metrics() == {'a': 2.0, 'b': 5.0} == store.env.get_metrics(), 'metrics %s', w.pull_metrics())
        w.pull_metrics()['a'] = 100.
        check(store.env.get_metrics() == {'a': 2.0, 'b': 5.0}, 'changing pulled metrics changed the store')
    elif what == 'wait':
        # the wait for the warm-up: any number of unsuccessful looks, then data arrives
        from coax.reward_tracing import TransitionBatch
        for warm, bs in itertools.product((None, 1, 3), (1, 2)):
            for looks in (0, 1, 2, 20):
                store.buffer.clear()
                w.buffer_warmup = warm
                if mode.startswith('chain'):
                    return
                need = max(warm or 0, bs, store.buffer_warmup if w is not store else 0)
                slept = []

                def nap(secs):
                    check(0 < secs <= 30, 'waits %s s', secs)
                    slept.append(secs)
                    if len(slept) > looks:
                        for i in range(1 if looks == 2 else need):   # at once, or one by one
                            store.buffer.add(TransitionBatch.from_single(s=i, a=1, logp=-.5, r=1.0, done=False, gamma=.9, s_next=i + 1))
                old, time.sleep = time.sleep, nap
                try:
                    out = w.buffer_sample(bs)
                finally:
                    time.sleep = old
                check(out.batch_size == bs and len(slept) == looks + (need if looks == 2 else 1), 'slept %s times for %s', len(slept), looks)
                st.transitions += looks


def env_cases(tier):
    return iter(['env', 'callable', 'str', 'bad', 'nospec', 'wrapped'])


def envs(case, st):
    e = Env(0, [1], [0.])
    mk = lambda env: Toy(env, buffer=SimpleReplayBuffer(4))   # noqa: E731
    st.states += 1
    st.transitions += 1
    st.traces += 1
    if case == 'env':
        w = mk(e)
        check(isinstance(w.env, coax.wrappers.TrainMonitor) and w.env.unwrapped is e, 'env')
    elif case == 'callable':
        check(isinstance(mk(lambda: e).env, coax.wrappers.TrainMonitor), 'env')
    elif case == 'str':
        check(mk('CartPole-v1').env.unwrapped.spec.id == 'CartPole-v1', 'env')
    elif case == 'wrapped':
        m = monitored(e)
        check(mk(m).env is m, 'a monitored env is used as is')
    elif case == 'bad':
        expect_raises('env=5', TypeError, lambda: mk(5))
    else:
        e.spec = None
        expect_raises('env without step limit', ValueError, lambda: mk(e))


import logging  # noqa: E402
logging.disable(logging.WARNING)
