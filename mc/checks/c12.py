"""C12 Any byte string is either read into a sound track or reported as MIDIParsingError."""
import io
from fractions import Fraction
from itertools import product

from mc import model
from mc.real import MIDIParsingError, MIDIError, MIDIReader, MIDIWriter, Track, build, frac, midi, raises, see

ID = 'C12'
RULE = ('every track body up to length N over an alphabet with one byte per class, and every body up to length 2 (3) '
        'over all 256 bytes; every single-byte substitution (256 values at every offset), deletion, duplication and '
        'boundary-valued pair of substitutions of several valid files; every header field value of a boundary set; '
        'every sequence of up to 4 chunks from a menu of good, short, long and alien chunks; megabytes of one kind of byte, event or chunk. Oracle: a reference '
        'reader which says accept (with which notes), refuse, or either; in each case a Track which is '
        'ordered, has velocities in [0, 1], reads the same twice and can be written again - or MIDIParsingError '
        '(ValueError for an absent channel). A trace is one block of inputs with a common prefix; a state is a '
        'distinct (outcome, content).')
ASSUMPTIONS = ['an answer within the case time limit counts as termination']

CLASSES = bytes([0x00, 0x01, 0x3c, 0x40, 0x7f, 0x80, 0x81, 0x90, 0x91, 0xb0, 0xc0, 0xf0, 0xf7, 0xff, 0x2f, 0x58, 0x04, 0xf4])
LAST = b'\x00\xff\x2f\x00'
FILES = {
    'simple': build([((0, 1), (36, (1, 4), 1.0)), ((1, 4), (40, (1, 8), 0.5))]),
    'empty': Track((3, 4)),
    'gap': build([((100, 1), (36, (300, 1), 1.0)), ((7, 256), (-24, (1, 4), 0.5)), ((7, 256), (103, (1, 4), 0.5))], (255, 2)),
}
FOREIGN = model.smf(
    b'\x00\xff\x03\x04name\x00\xff\x20\x01\x02\x00\xff\x58\x04\x06\x03\x24\x08\x00\xff\x58\x04\x03\x02\x18\x08'
    b'\x00\xc2\x05\x10\x92\x3c\x40\x10\x3c\x00\x00\xf0\x03\x01\x02\xf7\x81\x00\x90\x3e\x7f\x00\x40\x7f\x60\x80\x3e\x40'
    b'\x00\xb0\x07\x64\x00\xe0\x00\x40\x00\x40\x00' + LAST, 480)


def valid_files():
    result = {name: MIDIWriter().dumps(track) for name, track in FILES.items()}
    result['foreign'] = FOREIGN
    return result


def cases(tier):
    quick = tier == 'quick'
    files = {k: len(v) for k, v in sorted(valid_files().items())}
    for n in range(0, 3):
        for prefix in product(CLASSES, repeat=n):
            yield 'body', bytes(prefix), 'classes'
    for a in range(256):
        yield 'body', bytes([a]), 'all'
        yield 'raw', bytes([a]), 'all'
    for name, size in files.items():
        for i in range(size):
            yield 'byte', name, i
        for i in range(8, size):
            yield 'cut', name, i
    for kind in list(range(0, 6)) + [0x0100, 0x7fff, 0xffff]:
        yield 'head', kind
    for n in range(0, 16):
        yield 'head size', n
    for n in list(range(5, 24)) + [40, 100, 1000]:
        yield 'quantity', n
    for n in range(0, 9):
        yield 'trailing', n
    for name in MEGA:
        yield 'mega', name, 2 ** 21 if name in RUNS else 2 ** 18 if quick else 2 ** 21
    menu = ('head', 'short head', 'head 1', 'head 2', 'head 0', 'track', 'end', 'no end', 'empty track', 'alien', 'junk', 'torn alien', 'torn track')
    for n in range(0, 4 if quick else 5):
        for seq in product(menu, repeat=n):
            yield 'chunks', seq
    for prefix in product(CLASSES, repeat=3):
        yield 'body', bytes(prefix), 'classes'
    for first in (0x90, 0x80, 0xb0, 0xc0, 0xf0, 0xf7, 0xff):
        for b in range(256):
            yield 'body', bytes([0, first, b]), 'all'
            yield 'body', bytes([0, 0x90, 0x3c, 0x40, 1, first, b]), 'classes'
    for meta in range(128):
        for n in range(0, 7):
            yield 'body', bytes([0, 0xff, meta, n]), 'classes'
    for name, size in files.items():
        for i in range(4, size):
            yield 'pairs', name, i
    if not quick:
        for prefix in product(CLASSES, repeat=4):
            yield 'body', bytes(prefix), 'classes'
        for a, b in product(range(256), repeat=2):
            yield 'body', bytes([a, b]), 'all'


def described(track, division, events):
    """The track holds the notes which the events of a valid file describe, within the reader's grid."""
    notes = model.pairs(events)
    want = sorted((k - 24, Fraction(s, 4 * division), Fraction(n, 4 * division), v) for s, n, _, k, v in notes)
    got = sorted((n[0], p, n[1], n[2]) for p, n in see(track))
    slack = Fraction(1, 16384)
    ok = len(got) == len(want) and all(
        g[0] == w[0] and abs(g[1] - w[1]) < slack and abs(g[2] - w[2]) < slack for g, w in zip(got, want)) and \
        sorted(round(g[3] * 127, 6) for g in got) == sorted(w[3] for w in want)
    if not ok:
        return f'gives {got[:8]}, must be {want[:8]} (velocity / 127)'
    signatures = [e[3] for e in events if e[1] == 'meta' and e[2] == 0x58]
    if len(signatures) == 1 and not any(e[1] == 'meta' and e[2] == 0x20 for e in events):
        if frac(track.signature) != Fraction(signatures[0][0], 2 ** signatures[0][1]):
            return f'gives time signature {track.signature}, must be {signatures[0][:2].hex()}'
    return None


def hexed(data):
    return data.hex() if len(data) <= 300 else f'{data[:60].hex()}... ({len(data)} bytes)'


NOTE = b'\x00\x90\x3c\x40\x60\x80\x3c\x40'
MEGA = {
    'delta': lambda n: model.smf(b'\x81' * n),
    'delta, then notes': lambda n: model.smf(NOTE + b'\x80' * n + NOTE + LAST),
    'meta length': lambda n: model.smf(b'\x00\xff\x01' + b'\xff' * n),
    'sysex length': lambda n: model.smf(b'\x00\xf0' + b'\x80' * n + b'\x00' + NOTE + LAST),
    'zeros': lambda n: model.smf(bytes(n)),
    'ff': lambda n: model.smf(b'\xff' * n),
    'names': lambda n: b'MThd' * (n // 4),
    'alien chunks': lambda n: model.header() + model.chunk(b'XXXX', b'') * (n // 8) + model.chunk(b'MTrk', NOTE + LAST),
    'alien chunks only': lambda n: model.chunk(b'XXXX', b'') * (n // 8),
    'headers': lambda n: model.header() * (n // 14) + model.chunk(b'MTrk', NOTE + LAST),
    'tracks': lambda n: model.header() + model.chunk(b'MTrk', NOTE + LAST) * (n // 20),
    'program': lambda n: model.smf(b'\x00\xc0\x05' + b'\x00\x05' * (n // 2) + NOTE + LAST),
    'controller': lambda n: model.smf(b'\x00\xb0\x07\x05' + b'\x00\x07\x05' * (n // 3) + NOTE + LAST),
    'signatures': lambda n: model.smf(b'\x00\xff\x58\x04\x03\x02\x18\x08' * (n // 8) + NOTE + LAST),
    'prefixes': lambda n: model.smf(b'\x00\xff\x20\x01\x03' * (n // 5) + NOTE + LAST),
    'metas': lambda n: model.smf(b'\x00\xff\x01\x00' * (n // 4) + NOTE + LAST),
    'sysex': lambda n: model.smf(b'\x00\xf0\x00' * (n // 3) + NOTE + LAST),
    'one sysex': lambda n: model.smf(b'\x00\xf0' + model.var_len(n) + bytes(n) + NOTE + LAST),
    'one meta': lambda n: model.smf(b'\x00\xff\x7f' + model.var_len(n) + b'\xff' * n + NOTE + LAST),
    'notes': lambda n: model.smf(NOTE * (n // 8) + LAST),
    'notes, torn': lambda n: model.smf(NOTE * (n // 8)),
    'sounding': lambda n: model.smf(b'\x00\x90\x3c\x40' * (n // 4) + LAST),
    'silent': lambda n: model.smf(b'\x00\x80\x3c\x40' * (n // 4) + LAST),
    'chords': lambda n: model.smf((b'\x05' + b'\x00'.join(bytes([0x90 + c, k, 64]) for c in range(16) for k in range(128)) +
                                   b'\x05' + b'\x00'.join(bytes([0x80 + c, k, 64]) for c in range(16) for k in range(128))) * (n // 16384) + LAST),
    'running notes': lambda n: model.smf(b'\x00\x90' + b'\x3c\x40\x00\x3c\x00\x01' * (n // 6) + b'\x3c\x00' + LAST),
    'far': lambda n: model.smf(NOTE[:4] + b'\xff\xff\xff\x7f\xa0\x01\x01' * (n // 7) + NOTE[4:] + LAST),
    'chunk size': lambda n: model.header() + b'MTrk\xff\xff\xff\xff' + NOTE * (n // 8) + LAST,
    'alien chunk size': lambda n: model.header() + b'XXXX\xff\xff\xff\xff' + bytes(n),
    'meta size': lambda n: model.smf(b'\x00\xff\x01\xff\xff\xff\x7f' + bytes(n)),
    'after the end': lambda n: model.smf(NOTE + LAST + NOTE * (n // 8)),
    'deep in running status': lambda n: model.smf(b'\x00\x90' + b'\x3c\x40\x00' * (n // 3)),
}

RUNS = ('delta', 'delta, then notes', 'meta length', 'sysex length', 'zeros', 'ff', 'names')


def verdict(data, ctx):
    error, track = raises(midi.loads, data)
    ctx.step()
    must = model.judge(data)
    if must[0] == 'refuse' and error is None:
        return f'{hexed(data)} is accepted ({must[1]}) as {see(track)[:8] if isinstance(track, Track) else track!r}'
    if must[0] == 'accept' or must[0] == 'lenient' and error is None:
        if error is not None:
            return f'{hexed(data)} is a valid file, but reading raises {error!r}'
        message = described(track, must[1], must[2])
        if message:
            return f'reading {hexed(data)} {message}'
    if error is not None:
        ctx.state(str(error))
        if isinstance(error, MIDIParsingError):
            if not isinstance(error, MIDIError):
                return 'MIDIParsingError is not a MIDIError'
            ctx.outcome('parsing error')
            return None
        return f'reading {hexed(data)} raises {error!r}'
    if type(track) is not Track:
        return f'reading {hexed(data)} returns {track!r}'
    content = see(track)
    frac(track.signature)
    if content != sorted(content) or len(track) != len(content):
        return f'reading {hexed(data)} gives an unsound track: {content}'
    for position, (pitch, duration, velocity) in content:
        if not 0 <= velocity <= 1 or not 0 <= pitch + 24 <= 127:
            return f'reading {hexed(data)} gives an invalid note: {(pitch, duration, velocity)}'
    ctx.state((tuple(content), frac(track.signature)))
    ctx.outcome(f'track of {min(len(content), 4)}')
    gaps = [p + n[1] for p, n in content]
    error, again = raises(MIDIWriter().dumps, track)
    if error is not None and not (gaps and max(gaps) * 384 > 0x0fffffff):
        return f'the track read from {hexed(data)} can not be written: {error!r}'
    if content and midi.loads(data) != track:
        return f'reading {hexed(data)} twice gives different tracks'
    return None


def run_case(case, ctx):
    kind = case[0]
    files = valid_files() if kind in ('byte', 'cut', 'pairs') else None
    inputs = []
    if kind == 'body':
        for c in CLASSES if case[2] == 'classes' else range(256):
            body = case[1] + bytes([c])
            inputs += [model.smf(body), model.smf(body + LAST)]
        if case[1] == b'':
            inputs.append(model.smf(b''))
    elif kind == 'mega':
        # megabytes of one thing must not take more than a moment
        ctx.outcome('megabytes')
        return verdict(MEGA[case[1]](case[2]), ctx)
    elif kind == 'raw':
        inputs = [case[1]] + [case[1] + bytes([c]) for c in range(256)] + [model.header() + case[1] + bytes([c]) for c in range(256)]
    elif kind == 'byte':
        data = files[case[1]]
        i = case[2]
        inputs = [data[:i] + bytes([b]) + data[i + 1:] for b in range(256)]
        inputs += [data[:i] + data[i + 1:], data[:i] + data[i:i + 1] + data[i:], data[:i] + b'\x00' + data[i:],
                   data[:i] + b'\xff' + data[i:]]
    elif kind == 'cut':
        data = files[case[1]]
        i = case[2]
        # damaged in the middle, chunk lengths made right again
        for j in range(i + 1, min(i + 12, len(data) + 1)):
            rest = data[:i] + data[j:]
            inputs.append(rest)
            if i >= 22:
                inputs.append(data[:14] + model.chunk(b'MTrk', rest[22:]))
        if i >= 22:
            inputs.append(data[:14] + model.chunk(b'MTrk', data[22:i]))
    elif kind == 'pairs':
        data = files[case[1]]
        i = case[2]
        for j in range(i + 1, min(i + 9, len(data))):
            for x, y in product((0x00, 0x7f, 0x80, 0x90, 0xf0, 0xff), repeat=2):
                inputs.append(data[:i] + bytes([x]) + data[i + 1:j] + bytes([y]) + data[j + 1:])
    elif kind == 'head':
        track = model.chunk(b'MTrk', b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + LAST)
        for tracks in list(range(0, 4)) + [255, 256, 257, 0x7fff, 0xffff]:
            for division in [0, 1, 2, 3, 95, 96, 255, 256, 0x7fff, 0x8000, 0x8001, 0xe250, 0xe728, 0xffff]:
                data = model.header(division, case[1], tracks) + track
                inputs.append(data)
                ok = case[1] == 0 and tracks == 1 and 1 <= division <= 0x7fff
                error, _ = raises(midi.loads, data)
                if ok != (error is None):
                    return f'format {case[1]}, {tracks} tracks, division {division}: {error!r}'
    elif kind == 'quantity':
        # longer than the four bytes which the specification allows: refused, or taken for what it says
        for t in (0, 1, 96, 127, 128, 300, 2 ** 32 + 5, 2 ** 64 + 3, 2 ** 80 + 1, 2 ** 200 + 7):
            if t >> 7 * case[1]:
                continue
            groups = [t >> 7 * k & 127 for k in reversed(range(case[1]))]
            quantity = bytes(g | 128 for g in groups[:-1]) + bytes(groups[-1:])
            for body, note in ((quantity + b'\x90\x3c\x40\x60\x80\x3c\x40', (t, 96)), (b'\x05\x90\x3c\x40' + quantity + b'\x80\x3c\x40', (5, t)),
                               (b'\x00\x90\x3c\x40\x00\xff\x01' + quantity + bytes(t % 2 ** 16) + b'\x60\x80\x3c\x40', (0, 96)),
                               (b'\x00\x90\x3c\x40\x00\xf0' + quantity + b'\xf7' * (t % 2 ** 16) + b'\x60\x80\x3c\x40', (0, 96))):
                if t > 300 and note == (0, 96):
                    continue
                data = model.smf(body + LAST)
                error, track = raises(midi.loads, data)
                ctx.step()
                message = described(track, 96, [(note[0], 'on', 0, 60, 64), (sum(note), 'off', 0, 60)]) if error is None else \
                    None if isinstance(error, MIDIParsingError) else f'raises {error!r}'
                if message:
                    return f'reading {hexed(data)} {message}'
        ctx.outcome('long quantity')
        return None
    elif kind == 'trailing':
        # data after the end of track event, inside the chunk
        note = b'\x00\x90\x3c\x40\x60\x80\x3c\x40'
        for rest in (bytes(case[1]), b'\xff' * case[1], note[:case[1]], note * case[1], note + LAST, (note + LAST) * case[1],
                     b'\x00\xff\x58\x04\x05\x02\x18\x08' + LAST, LAST * case[1]):
            inputs += [model.smf(note + LAST + rest), model.smf(LAST + rest)]
    elif kind == 'head size':
        track = model.chunk(b'MTrk', b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + LAST)
        for fill, division in product((0, 1, 0x60, 0xff), (b'\x00\x60', b'\x60\x00', b'\x01\xe0', b'\x7f\xff')):
            head = (b'\x00\x00\x00\x01' + division + bytes([fill]) * 20)[:case[1]]
            for before, after in ((b'', b''), (model.chunk(b'JUNK', b'\x01'), b''), (b'', model.chunk(b'JUNK', b'\x01'))):
                inputs.append(before + model.chunk(b'MThd', head) + after + track)
                inputs.append(track + before + model.chunk(b'MThd', head) + after)
                inputs.append(model.chunk(b'MThd', head) + track + before + after + b'xxxx\x00\x00\x00\x05' + bytes(case[1] % 5))
    else:
        parts = {'head': model.header(), 'short head': model.chunk(b'MThd', b'\x00\x00\x00\x01'), 'head 1': model.header(96, 1, 1),
                 'head 2': model.header(96, 0, 2), 'head 0': model.header(0), 'end': model.chunk(b'MTrk', LAST),
                 'track': model.chunk(b'MTrk', b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + LAST),
                 'no end': model.chunk(b'MTrk', b'\x00\x90\x3c\x40'), 'empty track': model.chunk(b'MTrk', b''),
                 'alien': model.chunk(b'RIFF', b'\x00\xff'), 'junk': b'MT', 'torn alien': b'LIST\x00\x00\x00\x20\x00\xff',
                 'torn track': b'MTrk\x00\x00\x01\x00' + b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + LAST}
        data = b''.join(parts[x] for x in case[1])
        inputs = [data]
        error, _ = raises(midi.loads, data)
        if error is None and not ('head' in case[1] and {'track', 'end'} & set(case[1])) or \
                error is None and {'short head', 'head 1', 'head 2', 'head 0', 'no end', 'empty track', 'junk'} & set(case[1]):
            return f'chunks {case[1]} are accepted'
    for data in inputs:
        message = verdict(data, ctx)
        if message:
            return message
    # the other entry points agree
    for data in inputs[:2]:
        a, b = raises(midi.loads, data), raises(midi.load, io.BytesIO(data))
        c, d = raises(MIDIReader().loads, data, channel=0), raises(MIDIReader('C4').loads, data)
        if type(a[0]) is not type(b[0]) or a[0] is None and see(a[1]) != see(b[1]):
            return f'load and loads disagree on {hexed(data)}: {a} {b}'
        if type(a[0]) is not type(d[0]) or a[0] is not None and type(c[0]) is not type(a[0]):
            return f'reader options change the verdict on {hexed(data)}: {a} {c} {d}'
        if a[0] is None and c[0] is not None and type(c[0]) is not ValueError:
            return f'channel 0 of {hexed(data)}: {c}'
    return None
