"""Crash-point explorer for coax.utils.dump, run as a process of its own (no jax arrays, so forking is safe).

argv: scratch directory, scenario.  Forks one child per crash point; the parent inspects what is on disk afterwards.
Prints a JSON summary; exits 1 with a message on the first bad crash point.
"""
import json
import os
import resource
import signal
import sys

scratch, scenario, repo = sys.argv[1:4]
sys.path.insert(0, repo)
import warnings  # noqa: E402
warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
import coax  # noqa: E402

OLD = {'step': 1, 'w': np.arange(40.), 'name': 'old'}
NEW = {'step': 2, 'w': np.arange(60.)[::-1] * .37, 'name': 'new', 'more': list(range(30))}


class Unpicklable:
    def __reduce__(self):
        raise RuntimeError('cannot be pickled')


def same(a, b):
    return isinstance(a, dict) and a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in b)


def fail(msg):
    print('BAD ' + msg)
    sys.exit(1)


def child(fn):
    pid = os.fork()
    if pid == 0:
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            fn()
            os._exit(0)
        except BaseException:
            os._exit(7)
    _, status = os.waitpid(pid, 0)
    return status


def prepare(d, exists, sub):
    os.makedirs(d)
    path = os.path.join(d, 'a', 'b', 'x.pkl.lz4') if sub else os.path.join(d, 'x.pkl.lz4')
    if exists:
        coax.utils.dump(OLD, path)
    return path


def inspect(path, exists, where, finished):
    """after the crash: the old object, or the new one, never anything else"""
    outcome = 'absent'
    if os.path.exists(path):
        try:
            got = coax.utils.load(path)
        except Exception as e:
            fail('%s: the file cannot be loaded any more (%s: %s)%s' % (where, type(e).__name__, e, '; the checkpoint that was there before is lost' if exists else ''))
        if same(got, NEW):
            outcome = 'new'
        elif exists and same(got, OLD):
            outcome = 'old'
        else:
            fail('%s: the file now holds %r' % (where, got))
    elif exists:
        fail('%s: the checkpoint that was there before is gone' % where)
    if finished and outcome != 'new':
        fail('%s: saving finished without an error but the file is %s' % (where, outcome))
    # whatever the crash left behind must not be in the way of the next save
    coax.utils.dump(NEW, path)
    if not same(coax.utils.load(path), NEW):
        fail('%s: saving again gives something else' % where)
    return outcome


def tracer(n):
    count = [0]

    def local(frame, event, arg):
        if event in ('line', 'return'):
            count[0] += 1
            if count[0] == n:
                os._exit(9)
        return local

    def top(frame, event, arg):
        count[0] += 1
        if count[0] == n:
            os._exit(9)
        return local
    return top


def main():
    kind, exists, sub = scenario.split('-')
    exists, sub = exists == 'over', sub == 'sub'
    outcomes = {'absent': 0, 'old': 0, 'new': 0}
    points = 0
    if kind == 'line':
        n = 0
        while True:
            n += 1
            d = os.path.join(scratch, f'l{n}')
            path = prepare(d, exists, sub)

            def run():
                sys.settrace(tracer(n))
                coax.utils.dump(NEW, path)
                sys.settrace(None)
            status = child(run)
            finished = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0
            if not finished and not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 9):
                fail(f'line {n}: child ended with {status}')
            outcomes[inspect(path, exists, f'crash at event {n} of saving', finished)] += 1
            points += 1
            if finished:
                break
    elif kind in ('kill', 'full'):
        size = None
        k = 0
        while True:
            d = os.path.join(scratch, f'b{k}')
            path = prepare(d, exists, sub)

            def run():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == 'kill' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                coax.utils.dump(NEW, path)
            status = child(run)
            finished = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0
            what = 'process killed' if kind == 'kill' else 'disk full'
            outcomes[inspect(path, exists, f'{what} after {k} bytes were written', finished)] += 1
            points += 1
            if finished:
                break
            k += 1
            if k > 20000:
                fail('saving does not come to an end')
    elif kind == 'unpicklable':
        for k, bad in enumerate([Unpicklable(), {'w': np.zeros(1000), 'x': Unpicklable()}, [NEW, Unpicklable()]]):
            path = prepare(os.path.join(scratch, f'u{k}'), exists, sub)
            try:
                coax.utils.dump(bad, path)
            except RuntimeError:
                pass
            else:
                fail('saving an object that cannot be pickled was not refused')
            outcomes[inspect(path, exists, 'an object that cannot be pickled was saved', False)] += 1
            points += 1
    print(json.dumps(dict(points=points, outcomes=outcomes)))


main()
