"""C04 Notes are valid, immutable values with a total order."""
from fractions import Fraction
from itertools import permutations, product

from mc.real import Note, Signature, Tone, mk_note, raises, see_note, frac

ID = 'C04'
RULE = ('every ordered pair of notes of a domain (pitch x duration in several representations x velocity) under the '
        'six comparisons, also with shared tones and durations; every permutation of up to 5 notes sorted; every constructor call over argument forms and '
        'boundary velocities; every sequence of derivations (transposed, with_duration, with_velocity) up to depth D, '
        'including rejected ones. Oracle: triples (pitch, rational, velocity). A state is a distinct triple.')
ASSUMPTIONS = ['velocities are compared as the floats they were given as']

PITCHES = (-13, -1, 0, 1, 60, 127)
DURATIONS = ((0, 1), (0, 8), (1, 4), (2, 8), (16, 64), (1, 8), (3, 8), (1, 1), (1, 16), (3, 2), (255, 256),
             (1, 8192), (1, 16384), (2 ** 60 + 1, 2 ** 62), (2 ** 60, 2 ** 62), (1, 2 ** 80), (2 ** 70, 1), (2 ** 70 + 1, 1))
VELOCITIES = (0.0, 0.1, 0.75, 1.0, 1e-9, 0.1 + 2 ** -56)
DOMAIN = list(product(PITCHES, DURATIONS, VELOCITIES))
GOOD_V = ('0.0', '-0.0', '1.0', '0', '1', '0.75', '5e-324', '1/127', '126/127', '1.0-2**-53', '0.5')
BAD_V = ('-5e-324', '-0.001', '-1.0', '1.0+2**-52', '1.0000001', '1.1', '2', '-1', '127', '100', 'float("nan")',
         'float("inf")', '-float("inf")')
TONES = ('57', '"A4"', 'Tone(57)', '0', '"C"', '-12', '"C-1"', '"Bb3"', 'Tone(-200)', '128')
BAD_TONES = ('"re"', '""', '"H4"', '1.5', 'None', '[57]', '(57,)', 'b"A4"', 'Signature(1, 4)')
LENGTHS = ('(1, 4)', '[3, 8]', 'Signature(2, 8)', '(0, 1)', 'Signature(0, 16)', '(255, 1)', '(1, 1024)', 'iter((5, 4))', '(2**64+1, 2**64)')
BAD_LENGTHS = ('(1, 3)', '(-1, 4)', '(1, 0)', '(1, -4)', '(1,)', '(1, 2, 4)', '4', '0.25', 'None', '"1/4"', '()')


def cases(tier):
    yield 'default',
    for t in TONES + BAD_TONES:
        for d in LENGTHS + BAD_LENGTHS:
            yield 'new', t, d
    for i in range(len(DOMAIN)):
        yield 'row', i
    ops = [('t', s) for s in (-12, 0, 1, 7)] + [('d', d) for d in ((0, 1), (2, 8), (3, 2))] \
        + [('v', v) for v in (0.0, 0.3, 1.0, 1 / 3)] + [('own d',), ('own v',)] + [('bad d', (1, 3)), ('bad v', 1.5), ('bad v', -0.25)]
    for text in BAD_LENGTHS + ('[]', '0', '""', 'False', '{}'):
        yield 'bad with', text
    for depth in range(1, 4 if tier == 'quick' else 5):
        for seq in product(ops, repeat=depth):
            yield 'derive', seq
    for i in range(len(DOMAIN)):
        yield 'vary', i
    small = [(0, (1, 4), 0.5), (0, (1, 8), 0.5), (0, (3, 16), 0.5), (0, (1, 4), 0.4), (-1, (4, 1), 1.0), (1, (0, 2), 0.0)]
    for n in range(2, 5 if tier == 'quick' else 6):
        for notes in permutations(small, n):
            yield 'sort', notes


def spec(x):
    return Note(*x)


def run_case(case, ctx):
    kind = case[0]
    if kind == 'default':
        n = Note(57)
        ctx.step()
        if see_note(n) != (57, Fraction(1, 4), 0.75):
            return f'Note(57) is {n!r}'
        for name in ('tone', 'duration', 'velocity'):
            for value in (Tone(1), Signature(1, 2), 0.5):
                error, _ = raises(setattr, n, name, value)
                if error is None or see_note(n) != (57, Fraction(1, 4), 0.75):
                    return f'{name} of a note can be assigned'
        for obj, name in ((Tone(57), 'pitch'), (Tone(57), 'octave'), (Signature(3, 4), 'nominator'),
                          (Signature(3, 4), 'denominator')):
            error, _ = raises(setattr, obj, name, 8)
            if error is None:
                return f'{name} of {obj!r} can be assigned'
        return None
    if kind == 'new':
        ns = {'Tone': Tone, 'Signature': Signature}
        ok_t, ok_d = case[1] in TONES, case[2] in LENGTHS
        for v in GOOD_V + BAD_V:
            ok = ok_t and ok_d and v in GOOD_V
            tone, length, velocity = eval(case[1], ns), eval(case[2], ns), eval(v)
            error, n = raises(Note, tone, length, velocity)
            error2, n2 = raises(Note, tone=eval(case[1], ns), velocity=eval(v), duration=eval(case[2], ns))
            ctx.step(2)
            if not ok:
                ctx.outcome('rejected')
                if not isinstance(error, (ValueError, TypeError)) or not isinstance(error2, (ValueError, TypeError)):
                    return f'Note({case[1]}, {case[2]}, {v}) must be rejected, got {error!r} {n!r} / {error2!r} {n2!r}'
                if ok_t and ok_d and type(error) is not ValueError:
                    return f'Note({case[1]}, {case[2]}, {v}): {error!r} instead of ValueError'
                continue
            ctx.outcome('accepted')
            if error is not None or error2 is not None:
                return f'Note({case[1]}, {case[2]}, {v}) -> {error or error2!r}'
            pitch = {'57': 57, '"A4"': 57, 'Tone(57)': 57, '0': 0, '"C"': 0, '-12': -12, '"C-1"': -12, '"Bb3"': 46,
                     'Tone(-200)': -200, '128': 128}[case[1]]
            numbers = length if isinstance(length, (tuple, list)) else \
                (length.nominator, length.denominator) if isinstance(length, Signature) else (5, 4)
            for x in (n, n2):
                got = (x.tone.pitch, x.duration.nominator, x.duration.denominator, x.velocity)
                if got != (pitch, numbers[0], numbers[1], velocity):
                    return f'Note({case[1]}, {case[2]}, {v}) has {got}'
            ctx.state((pitch, tuple(numbers), velocity))
        return None
    if kind == 'row':
        x = DOMAIN[case[1]]
        a, p = spec(x), (x[0], Fraction(*x[1]), x[2])
        ctx.state(p)
        for y in DOMAIN:
            b, q = spec(y), (y[0], Fraction(*y[1]), y[2])
            got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
            want = (p == q, p != q, p < q, p <= q, p > q, p >= q)
            ctx.step(6)
            if got != want:
                return f'{x} ? {y}: (==, !=, <, <=, >, >=) is {got}, must be {want}'
            if x[0] == y[0] or x[1] == y[1]:
                # notes which share their tone, their duration or both, as derived ones do
                for tone, duration in product({x[0] == y[0], False}, {x[1] == y[1], False}):
                    b = Note(a.tone if tone else y[0], a.duration if duration else y[1], y[2])
                    got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
                    ctx.step(6)
                    if got != want:
                        return f'{x} ? {y}: (==, !=, <, <=, >, >=) is {got}, must be {want} (shared tone: {tone}, duration: {duration})'
        if (a == a, a != a, a < a, a <= a, a > a, a >= a) != (True, False, False, True, False, True):
            return f'{x} compared with itself is wrong'
        if see_note(a) != p:
            return f'comparison changed {x} to {a!r}'
        ctx.outcome('row')
        return None
    if kind == 'sort':
        want = sorted((x[0], Fraction(*x[1]), x[2]) for x in case[1])
        for parts in (None, {}):
            got = [see_note(n) for n in sorted(mk_note(x, parts) for x in case[1])]
            ctx.step()
            if got != want:
                return f'sorted({case[1]}) is {got}'
        ctx.outcome('sorted')
        return None
    if kind == 'bad with':
        for x in ((57, (6, 8), 0.6), (0, (0, 1), 0.0)):
            n = spec(x)
            for fn in (n.with_duration, lambda d: n.with_duration(duration=d), lambda d: Note(57, d), lambda d: Note(57, duration=d, velocity=0.0)):
                error, m = raises(fn, eval(case[1]))
                ctx.step()
                if not isinstance(error, (ValueError, TypeError)):
                    return f'duration {case[1]} is accepted: {error!r} {m!r}'
            for v in BAD_V:
                error, m = raises(n.with_velocity, eval(v))
                if type(error) is not ValueError:
                    return f'velocity {v} is accepted: {error!r} {m!r}'
            if see_note(n) != (x[0], Fraction(*x[1]), x[2]):
                return f'{x} became {n!r}'
        ctx.outcome('rejected')
        return None
    if kind == 'vary':
        # each component replaced by each value of the domain, the others kept as they are
        x = DOMAIN[case[1]]
        n = spec(x)
        whole = lambda m: (m.tone.pitch, (m.duration.nominator, m.duration.denominator), m.velocity)
        for make, want in [(lambda d=d: n.with_duration(d), (x[0], d, x[2])) for d in DURATIONS] + \
                [(lambda d=d: n.with_duration(Signature(*d)), (x[0], d, x[2])) for d in DURATIONS] + \
                [(lambda v=v: n.with_velocity(v), (x[0], x[1], v)) for v in VELOCITIES] + \
                [(lambda s=s: n.transposed(s), (x[0] + s, x[1], x[2])) for s in PITCHES]:
            m = make()
            ctx.step()
            if type(m) is not Note or whole(m) != want or whole(n) != x:
                return f'{x} became {whole(m)} and {whole(n)}, must be {want} and unchanged'
            p, q = see_note(n), (want[0], Fraction(*want[1]), want[2])
            got = (n == m, n != m, n < m, n <= m, n > m, n >= m)
            if got != (p == q, p != q, p < q, p <= q, p > q, p >= q):
                return f'{x} ? {want}, derived from it: (==, !=, <, <=, >, >=) is {got}'
        ctx.outcome('varied')
        return None
    n, state = Note('A4', (6, 8), 0.6), (57, (6, 8), 0.6)
    for op, *arg in case[1]:
        want, arg = state, arg[0] if arg else None
        if op == 't':
            nxt, want = n.transposed(arg), (state[0] + arg, state[1], state[2])
        elif op == 'd':
            nxt, want = n.with_duration(arg), (state[0], arg, state[2])
        elif op == 'own d':
            nxt = n.with_duration(n.duration)
        elif op == 'own v':
            nxt = n.with_velocity(n.velocity)
        elif op == 'v':
            nxt, want = n.with_velocity(arg), (state[0], state[1], arg)
        else:
            error, _ = raises(n.with_duration if op == 'bad d' else n.with_velocity, arg)
            if type(error) is not ValueError:
                return f'{op} {arg} must raise ValueError, got {error!r}'
            nxt = n
        ctx.step()
        got = [(x.tone.pitch, (x.duration.nominator, x.duration.denominator), x.velocity) for x in (n, nxt)]
        if got != [state, want] or type(nxt) is not Note:
            return f'{op} {arg} on {state}: receiver and result are {got}, must be {[state, want]}'
        n, state = nxt, want
        ctx.state((state[0], frac(n.duration), state[2]))
    ctx.outcome('derived')
    return None
