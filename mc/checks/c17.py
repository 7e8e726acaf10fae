"""C17 Concurrent use of shared objects for reading gives sequential results."""
import gc
from itertools import product

from mc import ops, sched
from mc.checks.c16 import in_child

ID = 'C17'
RULE = ('two real threads (three for some) run one operation each on shared tracks, readers, writers and notes under a '
        'controlled scheduler, with scheduling points at function entries, statements and reads and calls inside expressions. 30 operations: every ordered '
        'pair x every placement of one preemption at every function entry, and at every expression for the core pairs, each operation with itself, '
        'with writing and with iterating (thorough: all pairs). 18 short operations: every ordered pair x every placement of one preemption at every '
        'expression, and of two and three at the finest level whose number of placements fits; and in a process forked before anything was executed, with one '
        'preemption (first use). Oracle: both results equal those of the operations executed alone, shared objects unchanged. A state is a '
        'distinct point reached (pair, steps of both threads at each switch).')
ASSUMPTIONS = ['threads which only read; concurrent additions to one track are not promised',
               'switches happen in the code of melodia: inside C functions only where they call back']

TWO = {'call': 2000, 'line': 3000, 'expr': 2500}
_steps = {}
_alone = {}
NAMES = [n for n in ops.OPS if n != 'randomize']      # the random menu of the harness is not shared between threads
SMALL = list(ops.SMALL)
SETS = {'all': (ops.OPS, ops.Shared), 'small': (ops.SMALL, ops.Small)}


def prepare(tier):
    def measure(kind, name, level):
        def fn():
            table, shared = SETS[kind]
            s = shared()
            run = sched.Run([lambda: table[name](s)], (), level)
            result = run.go()[0]
            return run.steps[0], result, s.digest()
        return in_child(fn)
    for kind, names in (('all', NAMES), ('small', SMALL)):
        for name in names:
            for level in sched.LEVELS:
                ok, value = measure(kind, name, level)
                if ok:
                    _steps[kind, name, level], _alone[kind, name], _alone[kind, 'shared'] = value
                else:
                    _steps[kind, name, level], _alone[kind, name] = 0, ('failed', value)


def one(a, b, level, kind='all'):
    """One preemption: a runs i points, then b to completion, then a."""
    for i in range(1, _steps[kind, a, level]):
        yield kind, level, (a, b), ((0, i), (1, None))


def two(a, b, level, kind='all'):
    """Two preemptions: a runs i points, b runs j points, a to completion, then b."""
    for i in range(1, _steps[kind, a, level]):
        for j in range(1, _steps[kind, b, level]):
            yield kind, level, (a, b), ((0, i), (1, j), (0, None))


def back(a, b, level, kind='all'):
    """Two preemptions of a: a runs i points, b j points, a k points, b to completion, then a."""
    for i in range(1, _steps[kind, a, level]):
        for j in range(1, _steps[kind, b, level]):
            for k in range(1, _steps[kind, a, level] - i):
                yield kind, level, (a, b), ((0, i), (1, j), (0, k), (1, None))


def cases(tier):
    quick = tier == 'quick'
    # first of all, while nothing was executed in this process: whatever is prepared at first use
    for a in SMALL:
        for case in one(a, a, 'line' if quick else 'expr', 'small'):
            yield ('fresh',) + case
    for a, b in product(SMALL, repeat=2):
        if a != b:
            for case in one(a, b, 'call' if quick else 'line', 'small'):
                yield ('fresh',) + case
    for a in NAMES:
        for case in one(a, a, 'call' if quick else 'line'):
            yield ('fresh',) + case

    for a in NAMES:
        yield 'all', 'call', (a, a), ()
    for a, b in product(NAMES, repeat=2):
        yield from one(a, b, 'call')
    for a, b in product(SMALL, repeat=2):
        yield from one(a, b, 'expr', 'small')
    for a, b in product(ops.CORE, repeat=2):
        yield from one(a, b, 'expr')
    for a in NAMES:
        if a not in ops.CORE:
            yield from one(a, a, 'expr')
            yield from one(a, 'write', 'expr')
            yield from one('iterate', a, 'expr')
    for a, b in product(SMALL, repeat=2):
        # two preemptions, at the finest level which fits
        best = None
        for level in sched.LEVELS:
            size = _steps['small', a, level] * _steps['small', b, level]
            if size <= (TWO[level] if quick else 10 * TWO[level]) or a == b and size <= 4 * TWO[level]:
                best = level
        if best:
            yield from two(a, b, best, 'small')
        best = None
        for level in sched.LEVELS:
            size = _steps['small', a, level] ** 2 * _steps['small', b, level] // 2
            if size <= (4000 if quick else 100000):
                best = level
        if best:
            yield from back(a, b, best, 'small')
    yield from two('iterate', 'iterate', 'call')
    yield from two('iterate', 'write', 'call')
    for a in ('write', 'read', 'iterate', 'repr'):
        for i, j in product(range(1, _steps['all', 'iterate', 'call'], 3), range(1, _steps['all', a, 'call'], 5)):
            yield 'all', 'call', ('iterate', a, 'write other'), ((0, i), (1, j), (2, None), (0, None))
    if not quick:
        yield from two('read', 'read two', 'call')
        for a, b in product(NAMES, repeat=2):
            yield from one(a, b, 'expr')
        for a, b in product(ops.CORE, repeat=2):
            yield from two(a, b, 'call')
        yield from two('iterate', 'iterate', 'expr')


def explore(kind, level, names, schedule):
    """(message, steps, trail, switches) of one schedule."""
    table, shared = SETS[kind]
    s = shared()
    run = sched.Run([lambda name=name: table[name](s) for name in names], schedule, level)
    results = run.go()
    message = None
    for name, got in zip(names, results):
        if got != _alone[kind, name]:
            message = f'{name} of {names} under {schedule} at each {level} gives {got!r}, alone {_alone[kind, name]!r}'
            break
    else:
        if s.digest() != _alone[kind, 'shared']:
            message = f'after {names} under {schedule} shared objects are {s.digest()!r}, must be {_alone[kind, "shared"]!r}'
    return message, sum(run.steps), tuple(run.trail), run.switches


def run_case(case, ctx):
    fresh = case[0] == 'fresh'
    kind, level, names, schedule = case[1:] if fresh else case
    for name in names:
        if _alone[kind, name][0] != 'value':
            return f'{name} alone: {_alone[kind, name]}'
    gc.disable()
    try:
        if fresh:
            ok, value = in_child(lambda: explore(kind, level, names, schedule))
            if not ok:
                return f'{names} under {schedule} at each {level}, at first use: {value}'
        else:
            value = explore(kind, level, names, schedule)
    finally:
        gc.enable()
    message, steps, trail, switches = value
    ctx.step(steps)
    ctx.state((fresh, kind, names, level, trail))
    ctx.outcome(f'{len(names)} threads, {switches} switches' + (', first use' if fresh else ''))
    return message
