"""C11 Reading a single-track MIDI file yields exactly the notes its events describe."""
import io
from fractions import Fraction
from itertools import product

from mc import model
from mc.real import MIDIReader, Tone, Track, frac, midi, raises, see

ID = 'C11'
RULE = ('every event sequence up to depth D over an alphabet of note on/off on two channels and two keys, note on with '
        'velocity zero, every other channel message, text, tempo, system exclusive and escape events, time signatures '
        'with and without channel prefix, x delta times, encoded with and without running status, read with and '
        'without channel selection; sweeps over every status byte, key, velocity, delta boundary, meta body length, '
        'division, chunk order, alien chunks, chunk sizes across 2^8, 2^16, 2^24. Oracle: a direct interpretation of the event list. A state is a distinct (interpreter state after the '
        'sequence).')
ASSUMPTIONS = ['format 0 files', 'times are compared exactly when they are multiples of 1/16384, otherwise within that grid',
               'a time signature without channel prefix comes before any with a prefix; a prefix holds until the next channel '
               'event, and what it means afterwards is left open']

A, B = 60, 61
EVENTS = [('on', 0, A, 100), ('off', 0, A), ('on0', 0, A), ('on', 0, B, 1), ('off', 0, B), ('on', 1, A, 127), ('off', 1, A),
          ('on0', 1, A), ('cc', 0), ('pc', 0), ('bend', 1), ('press', 0), ('touch', 1), ('text', b'\x00\xff\x2f\x00'),
          ('sysex', b'\x01\x90\x3c\x40\xf7'), ('esc', b'\xf7\x80\x3c'), ('tempo',), ('ts', 3, 2), ('pts', 0, 7, 3),
          ('pts', 1, 5, 4), ('text', b''), ('on', 0, A, 33), ('off', 0, A, 127), ('off', 1, A, 0), ('pre', 0), ('pre', 1)]
CORE = [EVENTS[i] for i in (0, 1, 2, 3, 4, 5, 6, 8, 9, 13, 14, 17)]
NOTES = [EVENTS[i] for i in (0, 1, 2, 5, 6, 21, 3, 9)]
NAMES = [b'mtrk', b'MTRK', b'MTrK', b'mthd', b'MTHD', b'MThD', b'    ', b'\x00\x00\x00\x00', b'\xff\xff\xff\xff', b'MTr\x00', b'TrkM', b'RIFF',
         b'XFIH', b'MTr ', b' MTr', b'MTh ', b'MTkr', b'Trk ', b'\x00MTr', b'MTem']


def cases(tier):
    quick = tier == 'quick'
    for depth in range(0, 3):
        for seq in product(EVENTS, repeat=depth):
            for deltas in product((0, 96, 200), repeat=depth):
                yield 'seq', tuple(zip(deltas, seq))
    for status in range(0x80, 0xf0):
        yield 'status', status
    for pitch in range(128):
        yield 'key', pitch
        yield 'velocity', pitch
        yield 'prefix', pitch
        yield 'prefix', pitch + 128
    for kind in (0xa, 0xb, 0xc, 0xd, 0xe):
        for number in range(128):
            yield 'between', kind, number
    for k in list(range(0, 10)) + [16, 64, 126]:
        yield 'among', k
    for n in range(1, 17):
        yield 'twins', n
    for dd in range(256):
        yield 'signature', dd
    for n in range(1, 12):
        yield 'trailing', n
    for name in NAMES:
        yield 'name', name
    for start in range(0, 1024, 64):
        yield 'delta', start, 64
    for k in (11, 14, 16, 21, 24, 28):
        yield 'delta', 2 ** k - 32, 64 if k < 28 else 32
    for n in list(range(1, 40)) + [2 ** 10, 2 ** 14, 40000]:
        yield 'late', n
    for start in range(0, 300, 20):
        yield 'padded', start
    for which in model.PRODUCTS + ('overlap', 'channels'):
        for channel in range(16) if which in ('levels', 'channels') or not quick else (0, 9):
            yield 'product', which, channel
    for type_ in range(128):
        yield 'metas', type_
    for start in range(0, 512, 64):
        yield 'meta', start, 64
    for k in (13, 14, 15, 16, 17):
        yield 'meta', 2 ** k - 4, 8
    for k in (21, 24, 25) if quick else (21, 24, 25, 26):
        yield 'chunk', 2 ** k - 16
        yield 'chunk', 2 ** k
        yield 'chunk', 2 ** k + 9
    for start in range(1, 32768, 128):
        yield 'division', start
    for order in product(('head', 'long head', 'track', 'alien', 'empty alien'), repeat=3):
        yield 'order', order
    for order in product(('head', 'track', 'alien', 'empty alien'), repeat=4):
        yield 'order', order
    for n in list(range(0, 64)) + [100, 128, 129, 256, 1000]:
        yield 'many', n
    for seq in product(EVENTS, repeat=3):
        yield 'seq', tuple(zip((5, 96, 48), seq))
        if not quick:
            for deltas in product((0, 128), repeat=3):
                yield 'seq', tuple(zip(deltas, seq))
    for seq in product(NOTES if quick else CORE, repeat=4):
        yield 'seq', tuple(zip((0, 1, 300, 0), seq))
    for seq in product(NOTES[:6], repeat=5 if quick else 6):
        yield 'seq', tuple(zip((0, 24, 0, 48, 1, 7), seq))
    for seq in product([('pre', 0), ('pre', 1), ('ts', 3, 2), ('ts', 9, 4), EVENTS[13], ('pts', 1, 7, 3)], repeat=4):
        yield 'seq', tuple((0, s) for s in seq) + ((0, EVENTS[0]), (1, EVENTS[1]), (0, EVENTS[5]), (4, EVENTS[6]))
    for sigs in product([('ts', 3, 2), ('ts', 255, 0), ('pts', 0, 7, 3), ('pts', 1, 1, 5), ('pts', 15, 9, 1), ('pts', 1, 2, 1)], repeat=3):
        yield 'seq', tuple((0, s) for s in sigs) + ((0, EVENTS[0]), (1, EVENTS[1]), (0, EVENTS[5]), (4, EVENTS[6]))


def LARGE(case):
    return case[0] == 'product'


_STATUS = {'on': 0x90, 'on0': 0x90, 'off': 0x80, 'cc': 0xb0, 'pc': 0xc0, 'bend': 0xe0, 'press': 0xd0, 'touch': 0xa0}


def encode(seq, running):
    out, last = b'', None
    for delta, ev in seq:
        out += model.var_len(delta)
        kind = ev[0]
        if kind in _STATUS:
            status = _STATUS[kind] | ev[1]
            payload = {'on': lambda: bytes([ev[2], ev[3]]), 'on0': lambda: bytes([ev[2], 0]),
                       'off': lambda: bytes([ev[2], ev[3] if len(ev) > 3 else 64]), 'cc': lambda: b'\x40\x7f', 'pc': lambda: b'\x05',
                       'bend': lambda: b'\x00\x40', 'press': lambda: b'\x7f', 'touch': lambda: b'\x3c\x10'}[kind]()
            out += payload if running and last == status else bytes([status]) + payload
            last = status
            continue
        last = None
        if kind == 'text':
            out += b'\xff\x01' + model.var_len(len(ev[1])) + ev[1]
        elif kind == 'sysex':
            out += b'\xf0' + model.var_len(len(ev[1])) + ev[1]
        elif kind == 'esc':
            out += b'\xf7' + model.var_len(len(ev[1])) + ev[1]
        elif kind == 'tempo':
            out += b'\xff\x51\x03\x07\xa1\x20'
        elif kind == 'ts':
            out += b'\xff\x58\x04' + bytes([ev[1], ev[2], 24, 8])
        elif kind == 'pts':
            out += b'\xff\x20\x01' + bytes([ev[1]]) + b'\x00\xff\x58\x04' + bytes([ev[2], ev[3], 24, 8])
        elif kind == 'pre':
            out += b'\xff\x20\x01' + bytes([ev[1]])
        elif kind == 'raw':
            out += ev[1]
    return out


def interpret(seq):
    """Per channel: notes [(start, length, key, velocity)] in pulses, and time signatures. None if out of scope."""
    now, notes, open_, signatures, seen, prefixed = 0, {}, {}, {}, set(), None
    for delta, ev in seq:
        now += delta
        kind = ev[0]
        if kind in _STATUS and prefixed is not None:
            prefixed = 'unclear'
        if kind == 'on':
            seen.add(ev[1])
            open_.setdefault((ev[1], ev[2]), (now, ev[3]))
        elif kind in ('off', 'on0'):
            seen.add(ev[1])
            if (ev[1], ev[2]) in open_:
                start, velocity = open_.pop((ev[1], ev[2]))
                notes.setdefault(ev[1], []).append((start, now - start, ev[2], velocity))
        elif kind == 'ts':
            if prefixed == 'unclear':
                return None
            signatures[prefixed] = Fraction(ev[1], 2 ** ev[2])
        elif kind == 'pre':
            prefixed = ev[1]
        elif kind == 'pts':
            prefixed = ev[1]
            signatures[ev[1]] = Fraction(ev[2], 2 ** ev[3])
    return notes, open_, signatures, seen


def compare(name, track, notes, division, middle=36):
    """Times within the reader's grid; exact when they lie on it."""
    if type(track) is not Track:
        return f'{name} returned {track!r}'
    got = sorted(see(track), key=lambda x: (x[1][0], x[0], x[1][1], x[1][2]))
    want = sorted(((Fraction(s, 4 * division), (k - 60 + middle, Fraction(n, 4 * division), v / 127))
                   for s, n, k, v in notes), key=lambda x: (x[1][0], x[0], x[1][1], x[1][2]))
    text = f'{name} gives {got[:10]}, must be {want[:10]}'
    if len(got) != len(want) or len(track) != len(want):
        return text
    for (p, n), (q, m) in zip(got, want):
        if n[0] != m[0] or abs(n[2] - m[2]) > 1e-12:
            return text
        for x, y in ((p, q), (n[1], m[1])):
            if abs(x - y) >= Fraction(1, 16384) or x != y and (y * 16384).denominator == 1:
                return text
    order = see(track)
    if order != sorted(order):
        return f'{name} is not in order: {order[:10]}'
    return None


def check(seq, ctx, division=96, channels=(0, 1, 2)):
    meaning = interpret(seq)
    if meaning is None:
        ctx.outcome('out of scope')
        return None
    notes, open_, signatures, seen = meaning
    ctx.state((tuple(sorted((c, tuple(n)) for c, n in notes.items())), tuple(sorted(open_.items())),
               tuple(sorted((str(k), v) for k, v in signatures.items()))))
    everything = [x for n in notes.values() for x in n]

    def signature(c):
        return signatures.get(c, signatures.get(None, Fraction(4, 4)))

    plain, packed = encode(seq, False), encode(seq, True)
    for body in (plain,) if plain == packed else (plain, packed):
        data = model.smf(body + model.END, division)
        track = midi.loads(data)
        ctx.step()
        message = compare('loads', track, everything, division)
        if message is None and frac(track.signature) != max(signature(c) for c in (seen or {0})):
            message = f'time signature is {track.signature} with {signatures}, channels {sorted(seen)}'
        for c in channels:
            if message is not None:
                break
            error, part = raises(midi.loads, data, c)
            ctx.step()
            if c in notes:
                message = repr(error) if error else compare(f'channel {c}', part, notes[c], division)
                if message is None and frac(part.signature) != signature(c):
                    message = f'time signature of channel {c} is {part.signature} with {signatures}'
            elif seen and c not in seen and type(error) is not ValueError:
                message = f'channel {c} has no events, but reading it gives {error!r} {part!r}'
        if message:
            return f'{message}; file {data[:400].hex()}'
    ctx.outcome(f'{len(everything)} notes, {len(open_)} unfinished, {len(notes)} channels')
    return None


NOTE = ((0, ('on', 0, A, 100)), (96, ('off', 0, A)))


def run_case(case, ctx):
    kind = case[0]
    if kind == 'seq':
        return check(case[1], ctx)
    if kind == 'status':
        status = case[1]
        size = 1 if status >> 4 in (12, 13) else 2
        if status >> 4 in (8, 9):
            c = status & 15
            for v in (1, 64, 127):
                message = check(((3, ('on', c, A, v)), (48, ('off', c, A)), (0, ('on', c, B, v)), (7, ('on0', c, B))), ctx,
                                channels=range(16))
                if message:
                    return message
            return None
        for payload in (b'\x00' * size, b'\x7f' * size, b'\x3c' * size):
            # a complete foreign message before, inside and after a note, also repeated with running status
            raw = (12, ('raw', bytes([status]) + payload))
            again = (5, ('raw', payload))
            for seq in ((raw,) + NOTE, NOTE[:1] + (raw,) + NOTE[1:], NOTE + (raw,), (raw, again, again) + NOTE):
                ticks = 12 if seq[0] is raw else 0
                if len(seq) == 5:
                    ticks = 22
                inside = 12 if seq[1] is raw else 0
                body = encode(seq, False)
                track = midi.loads(model.smf(body + model.END))
                ctx.step()
                message = compare(f'status {status:#x}', track, [(ticks, 96 + inside, A, 100)], 96)
                if message:
                    return message
        ctx.outcome('skipped status')
        return None
    if kind == 'key':
        for v in (1, 2, 63, 64, 126, 127):
            message = check(((1, ('on', 0, case[1], v)), (95, ('off', 0, case[1]))), ctx)
            if message:
                return message
        for c in (0, 9, 15):
            k, other = case[1], (case[1] + 12) % 128
            for seq in (((0, ('on', c, k, 5)), (3, ('on', c, k, 7)), (4, ('off', c, k)), (5, ('off', c, k)), (1, ('on', c, k, 1)), (0, ('on0', c, k))),
                        ((0, ('off', c, k)), (0, ('on', c, other, 9)), (2, ('on', c, k, 7)), (2, ('on0', c, other)), (2, ('on', c, other, 3)), (7, ('on0', c, k))),
                        ((0, ('on', c, k, 5)), (1, ('on', 15 - c, k, 6)), (1, ('on0', c, k)), (1, ('on', c, k, 8)), (1, ('off', 15 - c, k)), (1, ('off', c, k)))):
                message = check(seq, ctx, channels=range(16))
                if message:
                    return message
        for middle in (36, 48, 'C4', 0, Tone(60), 'C3', 'Bb-2', 'Cb4', 'B#2', -300, 1000):
            m = middle.pitch if isinstance(middle, Tone) else \
                model.parse_notation(middle) if isinstance(middle, str) else middle
            data = model.smf(encode(((1, ('on', 0, case[1], 9)), (95, ('off', 0, case[1]))), False) + model.END)
            for track in (MIDIReader(middle_c=middle).loads(data), MIDIReader(middle).load(io.BytesIO(data), 0)):
                message = compare(f'middle c {middle}', track, [(1, 95, case[1], 9)], 96, m)
                ctx.step()
                if message:
                    return message
        return None
    if kind == 'prefix':
        # a time signature for any channel number, also one that does not exist, is not one for the others
        own = ((0, ('on', case[1], B, 9)), (1, ('off', case[1], B))) if case[1] < 16 else ()
        for seq in ((('ts', 3, 2), ('pts', case[1], 7, 3)), (('pts', case[1], 7, 3),), (('ts', 3, 2), ('pts', case[1], 7, 3), ('pts', 1, 5, 4))):
            message = check(tuple((0, x) for x in seq) + ((0, EVENTS[0]), (1, EVENTS[1]), (0, EVENTS[5]), (4, EVENTS[6]), (1, ('on', 15, A, 3)), (1, ('off', 15, A))) + own,
                            ctx, channels=range(16))
            if message:
                return message
        return None
    if kind == 'between':
        # every message of two data bytes (or one) while two keys sound, on their channel and on another one
        _, status, number = case
        values = [None] if status in (0xc, 0xd) else range(128)
        for channel in (0, 5):
            for value in values:
                raw = bytes([status << 4 | channel, number] if value is None else [status << 4 | channel, number, value])
                for where in ('inside', 'before') if value in (None, 0, 1, 64, 127) else ('inside',):
                    parts = [encode(((0, ('on', 0, A, 100)), (0, ('on', 0, B, 50))), False), b'\x05' + raw,
                             encode(((6, ('off', 0, B)), (7, ('on', 0, B, 1)), (0, ('off', 0, A)), (9, ('off', 0, B))), False)]
                    if where == 'before':
                        parts[:2] = b'\x00' + raw, parts[0]
                    late = 5 if where == 'inside' else 0
                    data = model.smf(b''.join(parts) + model.END)
                    for track in (midi.loads(data), midi.loads(data, 0)):
                        ctx.step()
                        message = compare(f'message {raw.hex()} {where}', track, [(0, late + 13, A, 100), (0, late + 6, B, 50), (late + 13, 9, B, 1)], 96)
                        if message:
                            return message
        return None
    if kind == 'among':
        # short lives of one key while k other keys sound
        others = [x for x in range(128) if x != A][:case[1]]
        alphabet = (('on', 0, A, 100), ('off', 0, A), ('on0', 0, A), ('on', 0, A, 33))
        for seq in product(alphabet, repeat=3):
            for deltas in ((0, 0, 0), (0, 5, 0), (5, 0, 7)):
                for tail in ((), tuple((1, ('off', 0, x)) for x in others)):
                    message = check(tuple((0, ('on', 0, x, 1 + x % 127)) for x in others) + tuple(zip(deltas, seq)) + tail, ctx, channels=(0,))
                    if message:
                        return message
        return None
    if kind == 'twins':
        # the same note on several channels, and several times on one
        for start, length in ((0, 0), (0, 96), (17, 5)):
            on = [(0, ('on', c, A, 100)) for c in range(case[1])]
            off = [(0, ('off', c, A)) for c in range(case[1])]
            on[0], off[0] = (start, on[0][1]), (length, off[0][1])
            for seq in (on + off, on + off + [(d if k else 0, e) for k, (d, e) in enumerate(on + off)],
                        [(0, e) for _ in range(case[1]) for e in (('on', 0, A, 100), ('off', 0, A))],
                        on + [(0, ('on', c, B, 100)) for c in range(case[1])] + off + [(0, ('on0', c, B)) for c in range(case[1])]):
                message = check(tuple(seq), ctx, channels=range(16))
                if message:
                    return message
        return None
    if kind == 'trailing':
        # whatever follows the end of track event in its chunk is not part of the track: refused or ignored
        more = encode(((5, ('on', 0, B, 7)), (3, ('off', 0, B)), (0, ('ts', 5, 3))), False)
        for rest in (bytes(case[1]), more[:case[1]], more * case[1], (more + model.END) * case[1], b'\x00\xff\x2f\x00' * case[1], b'\x90' * case[1]):
            data = model.smf(encode(((0, ('ts', 3, 2)),) + NOTE, False) + model.END + rest)
            error, track = raises(midi.loads, data)
            ctx.step()
            if error is None:
                message = compare(f'file {data.hex()}', track, [(0, 96, A, 100)], 96)
                if message is None and frac(track.signature) != Fraction(3, 4):
                    message = f'file {data.hex()}: time signature is {track.signature}'
                if message:
                    return message
            elif not isinstance(error, midi.MIDIParsingError):
                return f'file {data.hex()}: {error!r}'
        ctx.outcome('data after the end')
        return None
    if kind == 'signature':
        some = range(256) if case[1] in (0, 1, 2, 3, 7, 8, 30, 64, 255) else (0, 1, 2, 3, 4, 7, 8, 12, 127, 128, 255)
        for nn in range(256):
            for seq in (((0, ('ts', nn, case[1])),) + NOTE, NOTE[:1] + ((0, ('ts', nn, case[1])),) + NOTE[1:], ((0, ('pts', 0, nn, case[1])),) + NOTE)[:3 if nn in some else 1]:
                message = check(seq, ctx, channels=(0,))
                if message:
                    return message
        return None
    if kind == 'velocity':
        for v in range(128):
            message = check(((0, ('on', 0, A, case[1] or 1)), (7, ('off', 0, A, v)), (0, ('on', 2, B, 1 + v % 127)), (9, ('off', 2, B, case[1])),
                             (1, ('on', 0, A, 127)), (1, ('on0', 0, A))), ctx, channels=(0, 2))
            if message:
                return message
        return None
    if kind == 'name':
        head, track = model.header(), model.chunk(b'MTrk', encode(NOTE, False) + model.END)
        other = encode(((5, ('on', 0, B, 7)), (3, ('off', 0, B))), False) + model.END
        for body in (b'', b'\x00', other, b'\x00\x01\x00\x07\x00\x18', track, head + track):
            alien = model.chunk(case[1], body)
            for data in (alien + head + track, head + alien + track, head + track + alien, alien + alien + head + alien + track + alien):
                message = compare(f'file with a chunk {case[1]!r}', midi.loads(data), [(0, 96, A, 100)], 96)
                ctx.step()
                if message:
                    return message
        ctx.outcome('alien chunk names')
        return None
    if kind == 'delta':
        for t in range(case[1], case[1] + case[2]):
            for seq in (((t, ('on', 0, A, 100)), (96, ('off', 0, A))), ((0, ('on', 0, A, 100)), (t, ('off', 0, A))),
                        ((t, ('cc', 0)), (0, ('on', 0, A, 1)), (1, ('off', 0, A)))):
                message = check(seq, ctx, 64, (0,))
                if message:
                    return message
        return None
    if kind == 'product':
        _, which, c = case
        if which == 'overlap':
            # every pair of keys, crossing and nested
            seq = [(d, e) for a in range(128) for b in range(128) if a != b
                   for d, e in ((1, ('on', c, a, 1 + b % 127)), (1, ('on', c, b, 1 + a % 127)), (1, ('off', c, (a, b)[a + b & 1])), (1, ('on0', c, (b, a)[a + b & 1])))]
        elif which == 'channels':
            # every pair of channels, with every key
            seq = [(d, e) for k in range(128) for b in range(16) if b != c
                   for d, e in ((1, ('on', c, k, 1 + k % 127)), (1, ('on', b, k, 1 + b)), (1, ('off', (c, b)[k & 1], k)), (1, ('on0', (b, c)[k & 1], k)))]
        else:
            seq, last = [], 0
            for start, length, key, level in model.notes_in_turn(which):
                seq += [(start - last, ('on', c, key, level)), (length, ('off', c, key, (key + level) % 128))]
                last = start + length
        message = check(tuple(seq), ctx, 64, (c, (c + 1) % 16))
        return message and f'every combination ({which}), channel {c}: {message[:2000]}'
    if kind == 'late':
        gap = 2 ** 28 - 1
        seq = [(gap, ('cc', 0))] * case[1] + [(gap, ('on', 0, A, 100)), (gap, ('on', 1, B, 3)), (gap, ('off', 0, A)), (0, ('off', 1, B))]
        for division in (64, 96, 4095, 32767) if case[1] > 38 else (64,):
            message = check(tuple(seq), ctx, division, (0, 1))
            if message:
                return message
        return None
    if kind == 'padded':
        # variable-length quantities with leading zero groups, up to four bytes
        for t in range(case[1], case[1] + 20):
            for size in (2, 3, 4):
                groups = [t >> 7 * k & 127 for k in reversed(range(size))]
                quantity = bytes(g | 128 for g in groups[:-1]) + bytes(groups[-1:])
                body = quantity + b'\x90\x3c\x64' + quantity + b'\xff\x01' + quantity + bytes(t) + quantity + b'\x80\x3c\x40'
                message = compare(f'quantity {quantity.hex()}', midi.loads(model.smf(body + model.END)), [(t, 2 * t, A, 100)], 96)
                ctx.step()
                if message:
                    return message
        ctx.outcome('padded quantities')
        return None
    if kind == 'metas':
        # every kind of meta event, with bodies which look like those of the kinds that matter
        if case[1] in (0x20, 0x2f, 0x58):
            return None
        for n in list(range(0, 10)) + [127, 128]:
            for body in {bytes(n), b'\x07' * n, (b'\x05\x01\x18\x08' * 40)[:n], (b'\x00\xff\x2f\x00' * 40)[:n], b'\x01' * n}:
                raw = b'\xff' + bytes([case[1]]) + model.var_len(n) + body
                before = b'\x00\xff\x58\x04\x03\x02\x18\x08'
                data = model.smf(before + b'\x00' + raw + encode(NOTE[:1], False) + b'\x05' + raw + encode(NOTE[1:], False) + b'\x01' + raw + model.END)
                for track in (midi.loads(data), midi.loads(data, 0)):
                    message = compare(f'meta event {raw.hex()}', track, [(0, 101, A, 100)], 96)
                    ctx.step()
                    if message is None and frac(track.signature) != Fraction(3, 4):
                        message = f'meta event {raw.hex()}: time signature is {track.signature}'
                    if message:
                        return message
        ctx.outcome('skipped body')
        return None
    if kind == 'meta':
        for n in range(case[1], case[1] + case[2]):
            body = bytes((k * 7 + n) % 256 for k in range(n))
            for type_ in (0x01, 0x7f, 0x21, 0x59, 0x00):
                for head in (b'\xff' + bytes([type_]), b'\xf0', b'\xf7'):
                    raw = head + model.var_len(n) + body
                    data = model.smf(encode(NOTE[:1], False) + b'\x05' + raw + encode(NOTE[1:], False) + model.END)
                    message = compare(f'event {head.hex()} of length {n}', midi.loads(data), [(0, 101, A, 100)], 96)
                    ctx.step()
                    if message:
                        return message
        ctx.outcome('skipped body')
        return None
    if kind == 'chunk':
        # a track chunk with exactly this many bytes
        rest = encode(NOTE, False) + model.END
        head = b'\x00\xff\x01'
        filler = case[1] - len(rest) - len(head) - 4
        raw = head + b'\x80' * 0 + (filler).to_bytes(4, 'big')
        n = filler
        quantity = bytes([0x80 | n >> 21 & 127, 0x80 | n >> 14 & 127, 0x80 | n >> 7 & 127, n & 127])
        raw = head + quantity + bytes(filler)
        data = model.smf(raw + rest)
        ctx.step()
        ctx.outcome('big chunk')
        message = compare(f'chunk of {case[1]} bytes', midi.loads(data), [(0, 96, A, 100)], 96)
        if message:
            return message
        data = model.header() + model.chunk(b'XFIH', bytes(case[1])) + model.chunk(b'MTrk', rest)
        return compare(f'after an alien chunk of {case[1]} bytes', midi.loads(data), [(0, 96, A, 100)], 96)
    if kind == 'division':
        for division in range(case[1], min(case[1] + 128, 32768)):
            message = check(((division, ('on', 0, A, 100)), (2 * division, ('off', 0, A)), (1, ('on', 0, B, 50)),
                             (division // 3, ('on0', 0, B))), ctx, division, (0,))
            if message:
                return f'division {division}: {message}'
        return None
    if kind == 'order':
        parts = {'head': model.header(), 'long head': model.chunk(b'MThd', b'\x00\x00\x00\x01\x00\x60\xff\xfe'),
                 'track': model.chunk(b'MTrk', encode(NOTE, False) + model.END), 'alien': model.chunk(b'XFKM', b'MTrk\x00\x00\x00\x00'),
                 'empty alien': model.chunk(b'    ', b'')}
        names = [x for x in case[1] if x not in ('alien', 'empty alien')]
        if sorted(n.replace('long ', '') for n in names) != ['head', 'track']:
            ctx.outcome('out of scope')
            return None
        data = b''.join(parts[x] for x in case[1])
        error, track = raises(midi.loads, data)
        ctx.step()
        if names[0] == 'track':
            ctx.outcome('track before header')
            return None if isinstance(error, midi.MIDIParsingError) else f'{case[1]}: {error!r} {track!r}'
        ctx.outcome('alien chunks skipped')
        if error:
            return f'{case[1]}: {error!r}'
        return compare(f'{case[1]}', track, [(0, 96, A, 100)], 96)
    n = case[1]
    seqs = {
        'scale': [(1, e) for k in range(n) for e in (('on', k % 16, k % 128, 1 + k % 127), ('off', k % 16, k % 128))],
        'held': [(1, ('on', 3, k % 128, 1 + k % 100)) for k in range(min(n, 128))]
        + [(2, ('off', 3, k % 128)) for k in range(min(n, 128))],
        'restrike': [(1, ('on', 0, A, 1 + k % 127)) for k in range(n)] + [(1, ('off', 0, A)) for _ in range(n)],
        'channels': [(1, ('on', k % 16, A, 9)) for k in range(n)] + [(1, ('on0', k % 16, A)) for k in range(n)],
    }
    for name, seq in seqs.items():
        message = check(tuple(seq), ctx, channels=range(16))
        if message:
            return f'{name} of {n}: {message}'
    return None
