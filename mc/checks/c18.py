"""C18 The representation of a value rebuilds it."""
from fractions import Fraction
from itertools import combinations_with_replacement, product

from mc.real import Note, Signature, Tone, Track, build, frac, ref_items, ref_note, see, see_note
from melodia.music import chord

ID = 'C18'
RULE = ('every tone, signature and note of boundary-rich domains, and every track of up to K items over a colliding domain x time '
        'signatures x read or unread, plus long tracks: repr() is evaluated with the four classes in scope and compared '
        'with the original, twice. Oracle: the values the object was built from. A state is a distinct value.')
ASSUMPTIONS = ['a float is compared with the float Python reads back, which is exact']

NAMESPACE = {'Tone': Tone, 'Signature': Signature, 'Note': Note, 'Track': Track}
INTS = sorted(set(range(-300, 301)) | {s * (2 ** k + e) for k in (15, 16, 31, 32, 53, 63, 64) for e in (-1, 0, 1) for s in (1, -1)})
NUMS = sorted(set(range(0, 70)) | {2 ** k + e for k in (7, 8, 10, 16, 31, 32, 63, 64) for e in (-1, 0, 1)})
DENS = [2 ** k for k in list(range(0, 17)) + [24, 31, 32, 53, 63, 64, 200]]
VELS = [0.0, 1.0, 0.75, 0.1, 1 / 3, 1 / 127, 126 / 127, 5e-324, 1 - 2 ** -53, 1e-7, 0.3, 0.1 + 0.2, 1e-17, 0.123456789012345678]
ITEMS = (((0, 1), (0, (1, 4), 0.5)), ((1, 4), (-7, (2, 8), 0.1)), ((4, 16), (-7, (1, 8), 1 / 3)), ((1, 1), (60, (0, 1), 0.0)), ((3, 8), (60, (0, 1), 0.0)),
         ((3, 128), (200, (9, 2), 1.0)))
SIGNATURES = ((4, 4), (6, 8), (0, 1), (17, 16), (255, 256))


def LARGE(case):
    return case[0] == 'long' and case[1] > 4000


def cases(tier):
    for p in INTS:
        yield 'tone', p
    for d in DENS:
        yield 'signature', d
    for p in (0, 57, -1, -13, 127, 2 ** 33):
        for d in DENS:
            yield 'note', p, d
    for p in INTS:
        yield 'pitch', p
    for d in DENS:
        yield 'time', d
    for start in range(0, 1000, 100):
        yield 'level', start
    for k in range(0, 4 if tier == 'quick' else 5):
        for content in combinations_with_replacement(ITEMS, k):
            for signature in SIGNATURES:
                yield 'track', signature, content
                yield 'track', signature, tuple(reversed(content))
    for k in (31, 32, 53, 54, 63, 64, 70, 100):
        for e in (-1, 0, 1):
            for d in (1, 4, 2 ** 20, 2 ** 60, 2 ** 101):
                content = (((2 ** k + e, d), (1, (1, 4), 0.5)), ((2 ** k + e + 1, d), (2, (2 ** k + e, d), 0.25)))
                yield 'track', (4, 4), content
                yield 'track', (2 ** k + e, d), content[::-1]
    for n in range(0, 80 if tier == 'quick' else 400):
        yield 'long', n
    for n in (127, 128, 129, 255, 256, 257, 500, 501, 1000, 1001, 1024, 2049, 5000, 20000) + (() if tier == 'quick' else (70000,)):
        yield 'long', n


def text(x):
    a, b = repr(x), repr(x)
    assert a == b and type(a) is str, f'repr changes from {a} to {b}'
    return eval(a, dict(NAMESPACE))


def track_case(signature, content, ctx):
    for read in (False, True):
        track = build(content, signature)
        if read:
            list(track)
        back = text(track)
        ctx.step()
        want = ref_items(content)
        if type(back) is not Track or see(back) != want or see(track) != want:
            return f'{repr(track)[:1000]} rebuilds {str(see(back))[:1000]}, must be {str(want)[:1000]}'
        if (back.signature.nominator, back.signature.denominator) != tuple(signature):
            return f'time signature {signature} became {back.signature}'
        if frac(back.length) != max([p + n[1] for p, n in want], default=0) or not back == track:
            return f'{repr(track)[:1000]} rebuilds a different track'
    ctx.state((tuple(want), signature))
    return None


def run_case(case, ctx):
    kind = case[0]
    ctx.outcome(kind)
    if kind == 'tone':
        back = text(Tone(case[1]))
        ctx.step()
        ctx.state(case[1])
        return None if type(back) is Tone and back.pitch == case[1] else f'{Tone(case[1])!r} rebuilds {back!r}'
    if kind == 'signature':
        for n in NUMS:
            s = Signature(n, case[1])
            back = text(s)
            ctx.step()
            ctx.state((n, case[1]))
            if type(back) is not Signature or (back.nominator, back.denominator) != (n, case[1]):
                return f'Signature({n}, {case[1]}) rebuilds {back!r}'
        return None
    if kind == 'note':
        for n, v in product((0, 1, 3, 7, 2 ** 20 + 1), VELS):
            x = Note(case[1], (n, case[2]), v)
            back = text(x)
            ctx.step()
            ctx.state((case[1], n, case[2], v))
            if see_note(back) != (case[1], Fraction(n, case[2]), v) or back.duration.denominator != case[2] or not back == x:
                return f'Note({case[1]}, ({n}, {case[2]}), {v}) rebuilds {back!r}'
        got = text(chord.dom11(Note(case[1], (1, case[2]), 0.3)))
        want = tuple(ref_note((case[1] + s, (1, case[2]), 0.3)) for s in (0, 4, 7, 10, 14, 17))
        return None if tuple(see_note(n) for n in got) == want else f'chord rebuilds {got!r}'
    if kind in ('pitch', 'time', 'level'):
        values = {'pitch': lambda: [((0, 1), (case[1], (k, 4), v)) for k, v in ((1, 0.75), (0, 0.0), (3, 1), (1, 1e-5), (2, 0), (5, 64 / 127))],
                  'time': lambda: [((n, case[1]), (0, (1, 4), 0.75)) for n in NUMS] + [((0, 1), (0, (n, case[1]), 0.75)) for n in NUMS],
                  'level': lambda: [((1, 4), (0, (1, 4), v)) for k in range(case[1], case[1] + 100)
                                    for v in (k / 1000, k / 999, min(k, 127) / 127, 10.0 ** -k if k < 320 else 2.0 ** -k, 1 - 10.0 ** -(k % 17))]}[kind]()
        for where, spec in values:
            message = track_case((4, 4), [(where, spec)], ctx) or kind == 'time' and track_case(where, [((1, 4), spec)], ctx)
            if message:
                return message
        return None
    if kind == 'track':
        return track_case(case[1], case[2], ctx)
    content = [(((k * 11) % 37, 2 ** (k % 7)), (k % 128 - 24, (k % 6, 2 ** (k % 4)), VELS[k % len(VELS)])) for k in range(case[1])]
    return track_case((7, 8), content, ctx)
