"""C05 A track holds exactly the notes added, in order, for every history of additions."""
from fractions import Fraction
from itertools import product

from mc import model
from mc.real import Note, Signature, Tone, Track, build, frac, mk_note, ref_note, see

ID = 'C05'
RULE = ('every history of add / chord add / append / iterate operations up to depth D over an alphabet with colliding '
        'positions in several representations; every history of up to depth 5 (7) over a reduced alphabet; every '
        'group of up to 5 (6) notes added at once, the same object, equal or different ones; every length 0..N of parametric long histories (ascending, descending, zigzag, growing denominators, one position, '
        'append only). Oracle: a sorted list of (rational position, note). Length and count are compared after every '
        'operation, the content at the end and at each iterate operation. A state is a distinct multiset of items.')
ASSUMPTIONS = ['notes with equal position, pitch, duration and velocity are interchangeable']

NOTES = ((0, (1, 4), 0.5), (0, (2, 8), 0.75), (1, (3, 16), 0.5), (1, (0, 1), 0.5), (-1, (1, 1), 0.25), (0, (1, 32), 0.5))
WHERES = (None, (0, 1), (1, 4), (2, 8), (3, 16), (1, 1), (5, 64), (0, 16))
CHORDS = (((0, (1, 4), 0.5), (-3, (1, 2), 0.5)), ((1, (1, 2), 0.5), (0, (1, 4), 0.5), (0, (1, 4), 0.5)), ())

FULL = [('add', w, n) for w in WHERES for n in NOTES] \
    + [('chord', w, c) for w in (None, (1, 4), (3, 16)) for c in CHORDS] + [('iter',), ('peek',)]
SMALL = [('add', None, (0, (1, 4), 0.5)), ('add', None, (1, (3, 16), 0.5)), ('add', (0, 1), (0, (1, 4), 0.5)),
         ('add', (0, 1), (-1, (1, 1), 0.25)), ('add', (1, 4), (0, (1, 32), 0.5)), ('add', (4, 16), (0, (0, 1), 0.5)),
         ('add', (1, 64), (5, (1, 4), 0.5)), ('chord', None, CHORDS[1]), ('chord', (1, 8), CHORDS[0]), ('iter',), ('peek',)]
TINY = [SMALL[0], SMALL[3], SMALL[4], SMALL[6], SMALL[7], SMALL[9]]
FINE = [('add', None, (0, (1, 4), 0.5)), ('add', None, (1, (1, 4096), 0.5)), ('add', (3, 1024), (2, (3, 1), 0.5)),
        ('add', (1, 2 ** 20), (1, (1, 2 ** 33), 0.5)), ('add', (9, 1), (3, (0, 1), 0.5)), ('chord', None, CHORDS[0]), ('iter',)]

PATTERNS = {
    'ascending': lambda i, n: ('add', (i, 16), (i % 5, (1, 4), 0.5)),
    'descending': lambda i, n: ('add', (n - i, 16), (i % 5, (1, 4), 0.5)),
    'zigzag': lambda i, n: ('add', ((i * 37) % 101, 32), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'denominators up': lambda i, n: ('add', (i * 3 + 1, 2 ** (i % 40)), (i % 3, (1, 2 ** (i % 7)), 0.5)),
    'denominators down': lambda i, n: ('add', (i * 5 + 1, 2 ** (39 - i % 40)), (i % 3, (3, 2 ** (i % 9)), 0.5)),
    'one position': lambda i, n: ('add', (7, 8), ((i * 5) % 11, (1 + (i * 3) % 5, 16), ((i * 7) % 9) / 8)),
    'identical': lambda i, n: ('add', (1, 2), (60, (1, 4), 0.75)),
    'append': lambda i, n: ('add', None, (i % 12, (1 + i % 3, 2 ** (i % 6)), 0.5)),
    'append and insert': lambda i, n: ('add', None if i % 3 else (i, 2 ** (i % 8)), (i % 4, (i % 5, 4), 0.5)),
    'chords': lambda i, n: ('chord', None if i % 2 else (n - i, 4), CHORDS[i % 2]),
    'with reads': lambda i, n: ('iter',) if i % 4 == 3 else ('add', ((i * 29) % 64, 2 ** (i % 5)), (i % 7, (1, 4), 0.5)),
    'append among fine positions': lambda i, n: ('add', None if i % 2 else ((i * 5) % 13, 2 ** (10 + i % 7)), (i % 4, (i % 5, 2 ** (i % 13)), 0.5)),
    'append after long notes': lambda i, n: ('add', (i, 4096) if i % 3 == 0 else None, (i % 4, (7 if i % 5 == 0 else 1, 2 ** (i % 5)), 0.5)),
    'append and read': lambda i, n: (('iter',), ('add', None, (i % 3, (1, 2 ** (i % 9)), 0.5)), ('add', (i % 5, 2 ** (i % 15)), (i % 4, (i % 7, 8), 0.25)), ('chord', None, CHORDS[i % 3]))[i % 4],
    'equal but for velocity': lambda i, n: ('add', (3, 8), (5, (1, 4), ((i * 11) % 17) / 17)),
    'equal but for duration': lambda i, n: ('add', (3, 8), (5, ((i * 11) % 17, 2 ** (i % 7)), 0.5)),
    'finer and finer': lambda i, n: ('add', ((i * 37) % 101, 2 ** (i // 8)), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'one fine at the end': lambda i, n: ('add', ((i * 37) % 101, 32 if i < n - 1 else 4096), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'read before one fine at the end': lambda i, n: ('iter',) if i == n - 2 else ('add', ((i * 37) % 101, 32 if i < n - 1 else 4096), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'read before one coarse at the end': lambda i, n: ('iter',) if i == n - 2 else ('add', ((i * 37) % 101, 32) if i < n - 1 else (0, 1), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'append at the end': lambda i, n: ('add', ((i * 37) % 101, 32 << i % 3) if i < n - 2 else None, ((i * 7) % 12, (i % 4, 8 << i % 7), 0.5)),
    'chord at the end': lambda i, n: ('chord', (5, 512), CHORDS[1]) if i == n - 1 else ('add', ((i * 37) % 101, 32), ((i * 7) % 12, (i % 4, 8), 0.5)),
    'big numbers': lambda i, n: ('add', (2 ** 70 + (i * 13) % 31, 2 ** (60 + i % 8)), (i % 3, (2 ** 40 + i, 2 ** 38), 0.5)),
}

BIG = ('ascending', 'descending', 'zigzag', 'one position', 'identical', 'append', 'append and insert', 'chords', 'equal but for velocity',
       'equal but for duration', 'one fine at the end', 'append at the end', 'chord at the end')


def LARGE(case):
    return case[0] in ('long', 'many at once') and case[-1] > 4000


def cases(tier):
    quick = tier == 'quick'
    yield 'new', ()
    for seq in product(FULL, repeat=1):
        yield 'hist', seq
    for seq in product(FULL, repeat=2):
        yield 'hist', seq
    for depth in range(3, 6 if quick else 7):
        for seq in product(SMALL, repeat=depth) if depth < (5 if quick else 6) else product(TINY, repeat=depth):
            yield 'hist', seq
    if not quick:
        for seq in product(TINY, repeat=7):
            yield 'hist', seq
    for seq in product(FULL[::2] if quick else FULL, repeat=3):
        yield 'hist', seq
    for depth in range(2, 5 if quick else 7):
        for seq in product(FINE, repeat=depth):
            yield 'hist', seq
    items = [(w, n) for w in ((0, 1), (1, 4), (3, 16), None) for n in NOTES[:3]]
    for depth in range(0, 4):
        for seq in product(items, repeat=depth):
            yield 'content', seq
    for n in range(0, 140 if quick else 400):
        for name in PATTERNS:
            yield 'long', name, n
    for n in range(0, 6 if quick else 7):
        for seq in product(range(3), repeat=n):
            yield 'at once', seq
    for n in (300, 1000, 4097, 70000):
        yield 'many at once', n
    for n in (4097, 70000) if quick else (4097, 70000, 200000):
        for name in BIG:
            yield 'long', name, n
    for n in (255, 256, 257, 511, 513, 1000, 1025) if quick else (511, 513, 1000, 1025, 2047, 2049, 4097, 10000):
        for name in PATTERNS:
            yield 'long', name, n


def where_forms(where, i, parts=None):
    """The same position as a tuple, a Signature or a list; one Signature for equal positions and durations if parts are given."""
    if where is None:
        return None
    return (where, Signature(*where) if parts is None else parts.setdefault(tuple(where), Signature(*where)), list(where))[i % 3]


def play(ops, ctx, read_each=True):
    track, ref = Track((3, 4)), model.RefTrack()
    length, shared = Fraction(0), {}
    parts = {} if len(ops) % 2 else None
    for i, op in enumerate(ops):
        ctx.step()
        if op[0] == 'iter':
            if see(track) != ref.sorted():
                return track, ref, f'after {i} operations the track iterates as {see(track)}, must be {ref.sorted()}'
            continue
        if op[0] == 'peek':
            # two iterators side by side, one of them abandoned half-way
            want = ref.sorted()
            x, y = iter(track), iter(track)
            got = [frac(item[0]) for item in (next(x, None), next(x, None), next(y, None)) if item is not None]
            if got != [p for p, _ in want[:2] + want[:1]] or len(list(y)) != max(len(want) - 1, 0):
                return track, ref, f'two iterators side by side after {i} operations: {got}, must begin like {want[:2]}'
            continue
        where = None if op[1] is None else Fraction(*op[1])
        position = length if where is None else where
        specs = [op[2]] if op[0] == 'add' else list(op[2])
        # fresh objects for equal notes, or one and the same; tones and durations of their own, or shared ones
        notes = [mk_note(s, parts) if len(ops) % 3 == 1 else shared.setdefault(repr(s), mk_note(s, parts)) for s in specs]
        if op[0] == 'add':
            track.add(notes[0], where_forms(op[1], i, parts)) if i % 2 else track.add(notes[0], where=where_forms(op[1], i, parts))
        else:
            track.add((notes, tuple(notes), iter(notes))[i % 3], where_forms(op[1], i, parts))
        for s in specs:
            ref.items.append((position, ref_note(s)))
            length = max(length, position + Fraction(*s[1]))
        if frac(track.length) != length:
            return track, ref, f'length after operation {i} is {track.length}, must be {length}'
        if len(track) != len(ref.items):
            return track, ref, f'len after operation {i} is {len(track)}, must be {len(ref.items)}'
    return track, ref, None


def final(track, ref):
    want = ref.sorted()
    for attempt in (1, 2):
        got = see(track)
        if got != want:
            return f'content is {got[:20]}, must be {want[:20]} (reading {attempt})'
    if len(want) < 12:
        inner = [(frac(p), len(list(track))) for p, _ in track]
        if inner != [(p, len(want)) for p, _ in want]:
            return f'nested iteration gives {inner}'
    if len(track) != len(want) or frac(track.length) != ref.length:
        return f'len {len(track)}, length {track.length} after reading; must be {len(want)}, {ref.length}'
    if (track.signature.nominator, track.signature.denominator) != (3, 4):
        return f'time signature became {track.signature}'
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'new':
        for arg, want in (((3, 8), (3, 8)), (Signature(6, 16), (6, 16)), ([5, 4], (5, 4))):
            t = Track(arg)
            if (t.signature.nominator, t.signature.denominator) != want or len(t) or list(t) or frac(t.length) != 0:
                return f'Track({arg}) is {t!r}'
        t = Track()
        ctx.step(4)
        if (t.signature.nominator, t.signature.denominator) != (4, 4) or list(t):
            return f'Track() is {t!r}'
        a, b = Track(), Track()
        a.add(Note(Tone(1)))
        return f'two tracks share content: {b!r}' if list(b) or len(b) else None
    if kind == 'many at once':
        specs = [((i * 5) % 97, (1 + i % 3, 8), (i * 7 % 11) / 11) for i in range(case[1])]
        shared = {s: mk_note(s) for s in specs}
        for i, make in enumerate((list, tuple, iter, lambda x: (n for n in x))):
            track, ref = Track((3, 4)), model.RefTrack()
            for where in ((5, 2), None, (1, 64)):
                track.add(make([shared[s] if i % 2 else mk_note(s) for s in specs]), where)
                ref.add([ref_note(s) for s in specs], None if where is None else Fraction(*where))
                ctx.step()
            message = final(track, ref)
            if message:
                return message
        ctx.state(case)
        ctx.outcome('many at once')
        return None
    if kind == 'at once':
        # every group of notes: the same object several times, equal objects, different ones; before and after others
        specs = [NOTES[k * 2] for k in case[1]]
        one = [mk_note(n) for n in NOTES[::2]]
        for before, where in product((None, (0, 1), (1, 4), (1, 64)), repeat=2):
            for i, make in enumerate((list, tuple, iter, lambda x: (n for n in x))):
                for shared in (True, False):
                    track, ref = Track((3, 4)), model.RefTrack()
                    if before is not None:
                        track.add(one[0] if shared else mk_note(NOTES[0]), before)
                        ref.add([ref_note(NOTES[0])], Fraction(*before))
                    for again in range(2 if len(specs) < 4 else 1):
                        track.add(make([one[k] if shared else mk_note(n) for k, n in zip(case[1], specs)]), where_forms(where, i))
                        ref.add([ref_note(n) for n in specs], None if where is None else Fraction(*where))
                    ctx.step()
                    message = final(track, ref)
                    if message:
                        return message
        ctx.state(case)
        ctx.outcome(f'{len(specs)} at once')
        return None
    if kind == 'content':
        ref = model.RefTrack()
        for w, s in case[1]:
            ref.add([ref_note(s)], None if w is None else Fraction(*w))
        for i, make in enumerate((list, tuple, iter)):
            one = {repr(s): mk_note(s) for _, s in case[1]}
            content = make([(one[repr(s)] if i == 1 else mk_note(s), where_forms(w, i)) for w, s in case[1]])
            track = Track((3, 4), content) if i else Track(signature=(3, 4), content=content)
            ctx.step()
            message = final(track, ref)
            if message:
                return message
        ctx.outcome(f'content of {len(ref.items)}')
        return None
    ops = case[1] if kind == 'hist' else [PATTERNS[case[1]](i, case[2]) for i in range(case[2])]
    track, ref, message = play(ops, ctx)
    if message is None:
        message = final(track, ref)
    if kind == 'hist':
        ctx.state(tuple(ref.sorted()))
        ctx.outcome(f'{len(ref.items)} notes, {len(set(ref.items))} distinct')
        if message is None and ref.items and len(ops) <= 2:
            # the same content reached by direct insertion
            direct = build([((p.numerator, p.denominator), (n[0], (n[1].numerator, n[1].denominator), n[2]))
                            for p, n in reversed(ref.items)])
            if see(direct) != see(track):
                message = f'insertion order changes the content: {see(direct)} / {see(track)}'
    else:
        ctx.state((case[1], case[2]))
        ctx.outcome('long ' + case[1])
    return message
