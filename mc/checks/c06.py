"""C06 Tracks are equal exactly when signature and content are."""
from fractions import Fraction
from itertools import combinations_with_replacement

from mc.real import Signature, Track, mk_note, ref_items, ref_note

ID = 'C06'
RULE = ('every ordered pair of tracks over all multisets of up to K items (two representations of equal positions and '
        'durations, two insertion orders, read or unread) x time signatures, also made of the same note objects; every pair (track of n notes, the same '
        'track with one note dropped, doubled, moved or altered at index i), n up to N. Oracle: equality of sorted '
        'lists of rationals and of signatures. A trace is one track against all others; a state is a distinct content.')
ASSUMPTIONS = ['tracks with equal but differently written time signatures (2/4, 4/8) are equal, as signatures are']

ITEMS = (((0, 1), (0, (1, 4), 0.5)), ((1, 4), (0, (1, 4), 0.5)), ((1, 4), (0, (1, 4), 0.75)), ((1, 4), (1, (1, 8), 0.5)),
         ((3, 8), (0, (1, 4), 0.5)), ((0, 1), (0, (3, 8), 0.5)), ((2 ** 62 + 1, 2 ** 64), (0, (1, 4), 0.5)))
SIGNATURES = ((4, 4), (3, 4), (8, 8), (0, 1))


def rewrite(item):
    (n, d), (p, (a, b), v) = item
    return (n * 4, d * 4), (p, (a * 2, b * 2), v)


def variants(content):
    yield content, False
    yield tuple(reversed([rewrite(x) for x in content])), True


def tracks(tier):
    for k in range(0, 4 if tier == 'quick' else 5):
        for content in combinations_with_replacement(ITEMS, k):
            for signature in SIGNATURES if k < 3 else SIGNATURES[:2]:
                for c, read in variants(content):
                    yield signature, c, read


def make(desc, pool=None):
    """The track; equal notes of all tracks made with one pool are one object, and equal tones and durations, too."""
    signature, content, read = desc
    t = Track(signature)
    for where, spec in content:
        t.add(mk_note(spec) if pool is None else pool.setdefault(ref_note(spec), mk_note(spec, pool)), where)
    if read:
        list(t)
    return t


def value(desc):
    return Fraction(*desc[0]), ref_items(desc[1])


_all = {}


def prepare(tier):
    _all[tier] = [(d, value(d)) for d in tracks(tier)]
    _all['current'] = _all[tier]


def cases(tier):
    for i in range(len(_all[tier])):
        yield 'row', _all[tier][i][0]
    top = 40 if tier == 'quick' else 120
    for n in range(1, top):
        for i in range(n):
            yield 'edit', n, i
    for n in (255, 256, 257, 300, 1000, 1025, 4097):
        for i in (0, 1, n // 2, n - 2, n - 1):
            yield 'edit', n, i
    for i in (0, 33333, 69999):
        yield 'edit', 70000, i


def LARGE(case):
    return case[0] == 'edit' and case[1] > 4000


def equal(a, b):
    return (a == b, b == a, not (a != b), not (b != a))


def run_case(case, ctx):
    if case[0] == 'row':
        desc = case[1]
        v = value(desc)
        ctx.state((v[0], tuple(v[1])))
        a = make(desc)
        pool = {}
        shared, notes = make(desc, pool), {n for _, n in v[1]}
        if equal(a, a) != (True,) * 4:
            return f'{desc} is not equal to itself'
        for other, w in _all['current']:
            want = v == w
            b = make(other)
            got = equal(a, b)
            ctx.step(4)
            ctx.outcome('equal' if want else 'different')
            if got != (want,) * 4:
                return f'{desc} == {other}: {got}, must be {want}'
            if len(v[1]) == len(w[1]) and notes.issuperset(n for _, n in w[1]):
                # tracks of the same note objects
                got = equal(shared, make(other, pool))
                ctx.step(4)
                if got != (want,) * 4:
                    return f'{desc} == {other}: {got}, must be {want} (tracks of the same note objects)'
        return None
    _, n, i = case
    base = [((k, 8), (k % 7, (1 + k % 3, 8), 0.5)) for k in range(n)]
    edits = {
        'same': base,
        'dropped': base[:i] + base[i + 1:],
        'doubled': base[:i + 1] + base[i:],
        'moved': base[:i] + [((2 * i + 1, 16), base[i][1])] + base[i + 1:],
        'pitch': base[:i] + [(base[i][0], (base[i][1][0] + 7,) + base[i][1][1:])] + base[i + 1:],
        'duration': base[:i] + [(base[i][0], (base[i][1][0], (5, 32), 0.5))] + base[i + 1:],
        'moved a little': base[:i] + [((i * 2 ** 57 + 1, 2 ** 60), base[i][1])] + base[i + 1:],
        'a little longer': base[:i] + [(base[i][0], (base[i][1][0], (base[i][1][1][0] * 2 ** 57 + 1, 2 ** 60), 0.5))] + base[i + 1:],
        'a little louder': base[:i] + [(base[i][0], base[i][1][:2] + (0.5 + 2 ** -53,))] + base[i + 1:],
        'velocities exchanged': base[:i] + [(base[i][0], base[i][1][:2] + (0.25,))] + base[i + 1:],
        'velocity': base[:i] + [(base[i][0], base[i][1][:2] + (0.51,))] + base[i + 1:],
    }
    a = make(((4, 4), base, False))
    pool = {}
    shared = make(((4, 4), base, False), pool)
    for name, content in edits.items():
        if n > 10000 and name not in ('same', 'dropped', 'moved', 'a little louder'):
            continue
        b = make(((4, 4), content, False))
        got = equal(a, b)
        ctx.step(4)
        if got != (name == 'same',) * 4:
            return f'track of {n} notes against the same with note {i} {name}: {got}'
        if n < 300:
            got = equal(shared, make(((4, 4), content, False), pool))
            ctx.step(4)
            if got != (name == 'same',) * 4:
                return f'track of {n} notes against the same with note {i} {name}, made of the same note objects: {got}'
        ctx.state((n, i, name))
    if a == Track(Signature(5, 4), [(m, p) for p, m in a]):
        return 'tracks with different time signatures are equal'
    ctx.outcome('edited')
    return None
