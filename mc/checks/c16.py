"""C16 Results do not depend on what was called before."""
import os
import pickle
import signal
import time
from itertools import product

from mc import ops

ID = 'C16'
RULE = ('every sequence of up to 2 (3) operations from an alphabet of 31 (thorough: all pairs of about 180) closed read-only operations (writing, reading, '
        'rejected and failing calls included) on shared tracks, notes, readers and writers, each in a process forked '
        'from a pristine one; each operation repeated 150 and 10500 (70000) times and followed by every operation; each of about 180 operations '
        'alternating with all of them; all rotations of the whole alphabet, forwards and backwards; 15 families of operations over thousands of distinct values, in ascending and in '
        'descending order, and every operation afterwards. Oracle: the digest of each '
        'operation executed alone in a pristine process, and the shared objects unchanged. A state is a distinct '
        '(operation, digest).')
ASSUMPTIONS = ['state kept outside of the process (files, environment) is not observed']

_alone = {}
CROWD = {'quick': (9000,), 'thorough': (9000, 33000, 70000)}


def in_child(fn):
    """Result of fn in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)       # a call which hangs ends the process
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                try:
                    value = (True, fn())
                except BaseException as e:
                    value = (False, f'{type(e).__name__}: {e}')
                pickle.dump(value, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return False, 'the process ended'
    return pickle.loads(data)


def alone(name):
    def fn():
        s = ops.Shared()
        return ops.MORE[name](s), s.digest()
    return in_child(fn)


def prepare(tier):
    for name in ops.MORE:
        _alone[name] = alone(name)


def cases(tier):
    names = list(ops.OPS)
    for a in ops.MORE:
        yield (a,)
    for a in ops.MORE:
        yield ('all', a)
    for a, b in product(names, repeat=2):
        yield a, b
    for a in names:
        yield ('*', a, 150)
        yield ('*', a, 10500 if tier == 'quick' else 70000)
    for i in range(len(ops.MORE)):
        yield ('rotation', i)
        yield ('reverse', i)
    for name in ops.CROWDS:
        for n in (140, 1100) + CROWD[tier]:
            yield ('crowd', name, n)
    if tier == 'thorough':
        for a, b in product(ops.MORE, repeat=2):
            yield a, b
    if tier == 'quick':
        some = [n for n in names if n in ops.CORE or n in ('write bad', 'read torn', 'read running', 'read prefixed', 'compare',
                                                           'fresh track', 'chord', 'defaults', 'randomize', 'derive')]
    else:
        some = names
    for seq in product(some, repeat=3):
        yield seq


def crowd(name, n, ctx):
    fn = ops.CROWDS[name]

    def up():
        s = ops.Shared()
        values = [fn(s, i) for i in range(n)]
        for other, want in _alone.items():
            got = ops.MORE[other](s)
            if got != want[1][0]:
                return f'{other} gives {got!r} afterwards, alone it gives {want[1][0]!r}'
        for i in list(range(min(n, 40))) + list(range(40, n, 17)):
            again = fn(s, i)
            if again != values[i]:
                return f'number {i} gives {values[i]!r} at first and {again!r} later'
        return [hash(repr(v)) for v in values]

    def down():
        s = ops.Shared()
        return [hash(repr(fn(s, i))) for i in reversed(range(n))][::-1]

    (ok, first), (ok2, second) = in_child(up), in_child(down)
    ctx.step(2 * n + len(_alone))
    ctx.state((name, n))
    ctx.outcome('crowd')
    if not ok or not ok2 or isinstance(first, str):
        return f'{first}; {second if not ok2 else ""}'
    if first != second:
        i = [a == b for a, b in zip(first, second)].index(False)
        return f'number {i} of {n} gives different results in ascending and in descending order'
    return None


def run_case(case, ctx):
    sequence = case
    if case[0] == 'crowd':
        return crowd(case[1], case[2], ctx)
    if case[0] == '*':
        sequence = (case[1],) * case[2] + tuple(ops.OPS)
    elif case[0] == 'all':
        # every operation directly after this one, and this one directly after every other
        sequence = sum(((case[1], b) for b in ops.MORE), ())
    elif case[0] in ('rotation', 'reverse'):
        names = list(ops.MORE)
        sequence = tuple(names[case[1]:] + names[:case[1]])[::-1 if case[0] == 'reverse' else 1]
    elif len(case) == 1:
        # alone: also checks that the baseline itself is sound
        ok, value = _alone[case[0]]
        if not ok:
            return f'{case[0]} fails: {value}'
        again = alone(case[0])
        if again != (ok, value):
            return f'{case[0]} gives {value[0]!r} and {again[1]!r} in two fresh processes'

    def history():
        s = ops.Shared()
        before = s.digest() if len(sequence) == 3 else None
        start, repeated, late = time.monotonic(), case[2] if case[0] == '*' else 0, False
        for i, name in enumerate(sequence):
            late = late or i % 256 == 255 and time.monotonic() - start > 60
            if late and i < repeated:
                continue        # a slow machine: fewer repetitions
            got = ops.MORE[name](s)
            want = _alone[name][1][0]
            if got != want:
                return i, f'{name} gives {got!r} after {sequence[:i][-5:]}, alone it gives {want!r}'
        after = s.digest()
        want = _alone[sequence[0]][1][1]
        if after != want or before is not None and before != want:
            return len(sequence), f'shared objects are {after!r}, must be {want!r}'
        return None

    ok, result = in_child(history)
    ctx.step(len(sequence))
    for name in sequence[:3]:
        ctx.state((name, repr(_alone[name][1])))
    ctx.outcome(f'length {len(case)}')
    if not ok:
        return f'history fails: {result}'
    return None if result is None else f'step {result[0]}: {result[1]}'
