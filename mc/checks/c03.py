"""C03 Pitch arithmetic: transposition, order, frequency."""
import math
from itertools import product

from mc.real import Note, Tone, raises, see_note, frac

ID = 'C03'
RULE = ('every sequence of transpositions up to depth D from every start pitch of a small set, on tones and on notes; '
        'every ordered pair of pitches of a range under all six comparisons; every pitch of a range x tuning bases '
        'for the frequency. Oracle: integer arithmetic on pitches, equal temperament around A4 = 57. A state is a '
        'distinct pitch reached.')
ASSUMPTIONS = ['frequencies are compared with a relative tolerance of 1e-12 (1e-9 beyond 50 octaves)']

STEPS = (-24, -13, -12, -7, -1, 0, 1, 5, 12, 25, 127)
FAR = tuple(s * 12 * (2 ** k + e) for k in (10, 31, 53, 60, 64) for e in (-1, 0, 1) for s in (1, -1))
WIDE = sorted(set(range(-40, 140)) | {s * (2 ** k + e) for k in (8, 15, 16, 31, 32, 53, 63, 64) for e in (-1, 0, 1)
                                     for s in (1, -1)})
BASES = (440.0, 432.0, 415.3, 1.0, 880.0, 440, 442.5, 27.5, 1e-3, 1e6, 256.0, 1, 1e-12, 1e12)
LENGTHS = ((3, 8), (6, 16), (0, 1), (0, 8), (2 ** 70 + 1, 2 ** 60))
VELOCITIES = (0.0, 1.0, 0.3, 5e-324, 1 / 3)


def cases(tier):
    for p in WIDE:
        yield 'row', p
    for p in range(-600, 601):
        yield 'freq', p
    for p in list(range(-11000, -600, 7 if tier == 'quick' else 1)) + list(range(601, 11000, 7 if tier == 'quick' else 1)):
        yield 'freq', p
    for p in WIDE:
        yield 'note', p, 2
    for start in (0, 57, -1, 127, -13):
        for depth in range(1, 4 if tier == 'quick' else 5):
            for seq in product(STEPS, repeat=depth):
                yield 'trans', start, seq
    for bad in ('1.0', '57.0', '"C4"', 'None', '(1,)', '1+2j'):
        yield 'bad', bad


def run_case(case, ctx):
    kind = case[0]
    if kind == 'row':
        a = Tone(case[1])
        ctx.state(case[1])
        for q in WIDE:
            b, p = Tone(q + 10 ** 6 - 10 ** 6), case[1]      # an int object of its own
            got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
            want = (p == q, p != q, p < q, p <= q, p > q, p >= q)
            ctx.step(7)
            if got != want:
                return f'Tone({p}) ? Tone({q}): (==, !=, <, <=, >, >=) is {got}, must be {want}'
            if q == 0:
                for s in FAR:
                    t = a.transposed(s)
                    ctx.step(2)
                    if t.pitch != p + s or t.transposed(-s).pitch != p:
                        return f'Tone({p}).transposed({s}) is {t!r}, and back {t.transposed(-s)!r}'
            t = a.transposed(q)
            if type(t) is not Tone or t.pitch != p + q or a.pitch != p:
                return f'Tone({p}).transposed({q}) is {t!r}, receiver {a!r}'
        if (a == a, a != a, a < a, a <= a, a > a, a >= a) != (True, False, False, True, False, True):
            return f'{a!r} compared with itself is wrong'
        if a.octave != case[1] // 12:
            return f'Tone({case[1]}).octave is {a.octave}'
        ctx.outcome('row')
        return None
    if kind == 'freq':
        p = case[1]
        close = 1e-12 if abs(p) <= 600 else 1e-9
        f = Tone(p).to_frequency()
        want = 440.0 * math.pow(2.0, (p - 57) / 12)
        if not math.isclose(f, want, rel_tol=close):
            return f'Tone({p}).to_frequency() is {f}, must be {want}'
        for base in BASES:
            g = Tone(p).to_frequency(base)
            if not math.isclose(g, base * math.pow(2.0, (p - 57) / 12), rel_tol=close):
                return f'Tone({p}).to_frequency({base}) is {g}'
            if not math.isclose(Tone(p + 12).to_frequency(base=base), 2 * g, rel_tol=close):
                return f'an octave above Tone({p}) is not twice the frequency for base {base}'
            if not Tone(p + 1).to_frequency(base) > g:
                return f'frequency does not grow from {p} to {p + 1}'
        if Tone(p).to_frequency(0.0) != 0 or (p == 57 and any(Tone(p).to_frequency(b) != b for b in BASES)):
            return f'Tone({p}) in a tuning with base 0 or A4 itself is wrong'
        ctx.step(3 * len(BASES) + 1)
        ctx.outcome('frequency')
        return None
    if kind == 'bad':
        error, t = raises(Tone, eval(case[1]))
        ctx.step()
        ctx.outcome('rejected')
        return None if type(error) is ValueError else f'Tone({case[1]}) -> {error!r} {t!r}'
    if kind == 'note':
        p, k = case[1], case[2]
        for (n, d), v in product(LENGTHS, VELOCITIES):
            for s in STEPS + FAR:
                note = Note(p, (n, d), v)
                for _ in range(k):
                    out = note.transposed(s)
                    ctx.step()
                    got = (out.tone.pitch, out.duration.nominator, out.duration.denominator, out.velocity)
                    if type(out) is not Note or got != (p + s, n, d, v):
                        return f'Note({p}, ({n}, {d}), {v}).transposed({s}) is {out!r}'
                    if (note.tone.pitch, note.duration.nominator, note.duration.denominator, note.velocity) != (p, n, d, v):
                        return f'transposing changed Note({p}, ({n}, {d}), {v}) to {note!r}'
        ctx.outcome('note')
        return None
    start, seq = case[1], case[2]
    tone, note, pitch = Tone(start), Note(start, (3, 8), 0.3), start
    for s in seq:
        t2, n2 = tone.transposed(s), note.transposed(s)
        ctx.step(2)
        if type(t2) is not Tone or t2.pitch != pitch + s or tone.pitch != pitch:
            return f'Tone({pitch}).transposed({s}) is {t2!r}'
        if see_note(n2) != (pitch + s, frac(note.duration), 0.3) or see_note(note)[0] != pitch:
            return f'note with pitch {pitch} transposed by {s} is {n2!r}'
        tone, note, pitch = t2, n2, pitch + s
        ctx.state(pitch)
    if (note.duration.nominator, note.duration.denominator) != (3, 8):
        return f'transposition changed the duration to {note.duration!r}'
    if tone.transposed(-sum(seq)).pitch != start or tone.pitch != start + sum(seq):
        return f'transposition by {seq} and back from {start}'
    ctx.outcome('transposed')
    return None
