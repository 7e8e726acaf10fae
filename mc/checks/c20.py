"""C20 The readable text of a value says what the value is."""
from decimal import ROUND_HALF_EVEN, Decimal
from itertools import product

from mc import model
from mc.real import Note, Signature, Tone, Track, mk_note, see, see_note

ID = 'C20'
RULE = ('str() and format() of every tone, signature and note of boundary-rich domains, and of a track after every history of up to D '
        'operations (additions of one or several notes, appends, reads, rejected additions) and for every number of notes up to N. '
        'Oracle: the text composed from the values the object was built from. A state is a distinct text.')
ASSUMPTIONS = ['the texts are those the classes document in their current form: name and octave, n/d, velocity rounded to three decimals']

PITCHES = sorted(set(range(-300, 301)) | {s * (2 ** k + e) for k in (15, 31, 53, 64) for e in (-1, 0, 1) for s in (1, -1)})
NUMS = sorted(set(range(0, 70)) | {2 ** k + e for k in (7, 8, 10, 16, 31, 32, 53, 64) for e in (-1, 0, 1)})
DENS = [2 ** k for k in list(range(0, 17)) + [24, 31, 32, 53, 63, 64, 200]]
VELS = [k / 127 for k in range(128)] + [k / 2000 for k in range(2001)] + [5e-324, 1 - 2 ** -53, 1e-7, 0.1 + 0.2, 0.9995, 0.99949999, 0.0005, 0.0015]
DURATIONS = ((1, 4), (2, 8), (0, 1), (0, 16), (3, 2), (2 ** 60 + 1, 2 ** 40))
OPS = ('one', 'again', 'append', 'chord', 'empty chord', 'read', 'text', 'bad', 'fine')
SIGNATURES = ((4, 4), (6, 8), (0, 1), (2, 8), (17, 16), (255, 256), (2 ** 40, 2 ** 50))


def LARGE(case):
    return case[0] == 'count' and case[1] > 4000


def cases(tier):
    for start in range(0, len(PITCHES), 20):
        yield 'tones', start
    for d in DENS:
        yield 'signature', d
    for p in (0, 1, 57, -1, -13, 127, 2 ** 33):
        for duration in DURATIONS:
            yield 'note', p, duration
    for depth in range(0, 4 if tier == 'quick' else 6):
        for seq in product(OPS, repeat=depth):
            yield 'track', seq
    for n in range(0, 300 if tier == 'quick' else 3000, 1):
        yield 'count', n
    for n in (999, 1000, 1001, 1024, 4097, 10000, 70000):
        yield 'count', n


def name(pitch):
    return model.notation(pitch)


def same(x, want, ctx):
    ctx.step()
    ctx.state(want)
    for got in (str(x), format(x), f'{x}', '%s' % (x,), str(x)):
        if got != want or type(got) is not str:
            return f'text is {got!r}, must be {want!r}'
    return None


def thousandths(v):
    return str(Decimal(v).quantize(Decimal('0.001'), rounding=ROUND_HALF_EVEN))


def run_case(case, ctx):
    kind = case[0]
    ctx.outcome(kind)
    if kind == 'tones':
        for p in PITCHES[case[1]:case[1] + 20]:
            message = same(Tone(p), name(p), ctx)
            if message:
                return f'pitch {p}: {message}'
        return None
    if kind == 'signature':
        for n in NUMS:
            message = same(Signature(n, case[1]), f'{n}/{case[1]}', ctx)
            if message:
                return message
        return None
    if kind == 'note':
        _, p, (n, d) = case
        for v in VELS:
            note = Note(p, (n, d), v)
            before = see_note(note)
            message = same(note, f'Note {n}/{d} {name(p)} ({thousandths(v)})', ctx)
            if message is None and (see_note(note) != before or note.duration.denominator != d):
                message = f'the note became {note!r}'
            if message:
                return f'Note({p}, {(n, d)}, {v}): {message}'
        return None
    if kind == 'count':
        n = case[1]
        track = Track((3, 8))
        notes = [Note(k, (1, 8), 0.5) for k in range(9)]
        for k in range(n):
            track.add(notes[k % 9] if n % 2 else Note(k % 9, (1, 8), 0.5), ((k * 5) % 17, 2 ** (k % 5)) if k % 3 else None)
        return same(track, f'Track 3/8 with {n} notes', ctx)
    for n, d in SIGNATURES:
        track, count = Track((n, d)), 0
        first = mk_note((36, (1, 4), 0.5))
        for k, op in enumerate(case[1]):
            if op in ('one', 'again', 'fine'):
                where = {'one': (k, 4), 'again': (1, 4), 'fine': (3, 1024)}[op]
                track.add(first if op == 'again' else mk_note((36, (1, 4), 0.5)), where)
                count += 1
            elif op == 'append':
                track.add(mk_note((37, (1, 8), 0.5)))
                count += 1
            elif op == 'chord':
                track.add([mk_note((x, (1, 4), 0.5)) for x in (36, 40, 36)], (1, 2))
                count += 3
            elif op == 'empty chord':
                track.add([], (7, 1))
            elif op == 'read':
                list(track)
            elif op == 'text':
                message = same(track, f'Track {n}/{d} with {count} notes', ctx)
                if message:
                    return f'after {case[1][:k]}: {message}'
            else:
                try:
                    track.add(5, (1, 4))
                except Exception:
                    pass
        message = same(track, f'Track {n}/{d} with {count} notes', ctx)
        if message is None and (len(see(track)) != count or (track.signature.nominator, track.signature.denominator) != (n, d)):
            message = f'afterwards the track is {track!r}'
        if message:
            return f'after {case[1]}: {message}'
    return None
