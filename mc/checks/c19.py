"""C19 The file and bytes interfaces are the same codec and treat files politely."""
import io
import os
import tempfile
from itertools import product

from mc import model
from mc.real import MIDIReader, MIDIWriter, Track, build, frac, midi, raises, ref_items, see

ID = 'C19'
RULE = ('every track of a family (sizes 0..N, patterns) x tempo x channel x every way to write (module or class, dump or dumps, memory '
        'buffer, buffer with content before and after the position, write-only object, real file in three modes, two '
        'tracks one after the other in one file) and every way to read it back (bytes, buffer at an offset, read-only '
        'object, real file, with and without channel), also of foreign files with several channels, refused files and files up to 2^24 bytes. Oracle: one byte string and one content. A state is a distinct byte string.')
ASSUMPTIONS = ['file objects return as many bytes as asked for, except at the end']

TEMPOS = (120.0, 60, 33.3, 240.5)
CHANNELS = (0, 1, 9, 15)


def cases(tier):
    for n in range(0, 12 if tier == 'quick' else 40):
        for pattern in ('melody', 'chord', 'gaps'):
            for bpm, channel in product(TEMPOS, CHANNELS):
                yield pattern, n, bpm, channel
    for bpm, channel in product(TEMPOS + (4, 59.94, 61, 100.0, 119.99, 121, 128, 144, 200, 1000.0), range(16)):
        yield 'chord', 3, bpm, channel
    for i in range(len(MIXED)):
        for channel in (None, 0, 1, 9, 15, 16, -1):
            yield 'mixed', i, channel
    for i in range(len(REFUSED)):
        yield 'refused', i
    for k in (16, 20, 24) if tier == 'quick' else range(12, 26):
        for e in (-100, 0, 100):
            yield 'large', 2 ** k + e
    for n in (50, 127, 128, 500, 9000):
        for pattern in ('melody', 'gaps'):
            yield pattern, n, 120.0, 3
    for n in (140000,) if tier == 'quick' else (70000, 140000, 300000):
        yield 'huge', n


def LARGE(case):
    return case[0] == 'huge'


def content(n, pattern):
    if pattern == 'melody':
        return [((n - k, 8), (36 + k % 12, (1, 8), (1 + k % 127) / 127)) for k in range(n)]
    if pattern == 'chord':
        return [((1, 4), (k % 100, (1 + k, 4), 1.0)) for k in range(n)]
    return [((k * 257, 4), (60, (63, 4), 64 / 127)) for k in range(n)]


def several(*channels):
    """A foreign file with one note per channel, and time signatures of its own for two of them."""
    body = b'\x00\xff\x58\x04\x03\x02\x18\x08'
    for c in channels[:2]:
        body += b'\x00\xff\x20\x01' + bytes([c]) + b'\x00\xff\x58\x04' + bytes([5 + c, 3, 24, 8])
    for i, c in enumerate(channels):
        body += bytes([i, 0x90 | c, 60 + i, 100 - i, 10 + i, 0x80 | c, 60 + i, 0])
    return model.smf(body + model.END, 48)


MIXED = [several(), several(0), several(1), several(0, 1), several(1, 0), several(15, 9, 0), several(*range(16)), several(9, 15, 9, 1), several(0, 0, 0)]
GOOD = several(0, 1)
REFUSED = [b'', b'M', GOOD[:-1], GOOD[:14], GOOD[14:], b'RIFF' + GOOD, b'\x00' + GOOD, b'\x00' * 4 + GOOD, b' ' + GOOD, b'\n' + GOOD, b'\xef\xbb\xbf' + GOOD, GOOD + b'x', model.header(0) + GOOD[14:], model.header(96, 1) + GOOD[14:],
           model.smf(b'\x00\x90\x3c'), model.smf(b'\x00\xf4' + model.END), model.smf(b'\x00\x3c\x40' + model.END)]


def mixed_case(data, channel, ctx, refused=False, plain=None):
    """Every way to read gives the same answer, also for files with several channels and for files which are refused."""
    def offset(load):
        f = io.BytesIO(b'junk' + data)
        f.seek(4)
        try:
            return load(f)
        finally:
            assert not f.closed, 'the file was closed'

    def disk(load):
        with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d:
            path = os.path.join(d, 'x.mid')
            with open(path, 'wb') as f:
                f.write(data)
            with open(path, 'rb') as f:
                try:
                    return load(f)
                finally:
                    assert not f.closed, 'the file was closed'

    reader = MIDIReader()
    ways = {
        'loads': lambda: midi.loads(data, channel), 'loads keyword': lambda: midi.loads(data, channel=channel), 'class loads': lambda: MIDIReader().loads(data, channel),
        'class loads keyword': lambda: reader.loads(data, channel=channel), 'load': lambda: midi.load(io.BytesIO(data), channel),
        'load keyword': lambda: midi.load(file=io.BytesIO(data), channel=channel), 'class load': lambda: reader.load(io.BytesIO(data), channel),
        'class load keyword': lambda: MIDIReader('C3').load(io.BytesIO(data), channel=channel), 'read-only': lambda: midi.load(ReadOnly(data), channel),
        'offset': lambda: offset(lambda f: midi.load(f, channel)), 'class offset': lambda: offset(lambda f: reader.load(f, channel)),
        'file': lambda: disk(lambda f: midi.load(f, channel)), 'class file': lambda: disk(lambda f: reader.load(f, channel=channel)),
    }
    if channel is None:
        ways.update({'loads default': lambda: midi.loads(data), 'load default': lambda: midi.load(io.BytesIO(data)), 'class default': lambda: reader.loads(data),
                     'class load default': lambda: reader.load(io.BytesIO(data))})
    answers = {}
    for name, way in ways.items():
        error, track = raises(way)
        if isinstance(error, AssertionError):
            return f'{name}: {error}'
        answers[name] = (type(error).__name__,) if error is not None else (see(track), frac(track.signature), frac(track.length))
        ctx.step()
    first = answers['loads']
    if refused != (first == ('MIDIParsingError',)):
        return f'loads gives {first} for {data.hex()}'
    for name, answer in answers.items():
        if answer != first:
            return f'{name} gives {answer}, loads gives {first} (channel {channel}, {data.hex()})'
    if not refused:
        notes = [n for n in model.pairs(model.decode(plain or data)[1]) if channel is None or n[2] == channel]
        if len(first) > 1 and len(first[0]) != len(notes) or len(first) == 1 and notes:
            return f'channel {channel}: {first}, must have {len(notes)} notes'
    ctx.state((data, channel))
    ctx.outcome('refused' if refused else f'several channels: {len(first) > 1}')
    return None


class WriteOnly:
    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(bytes(data))
        return len(data)

    def __getattr__(self, name):
        raise AssertionError(f'file.{name} was used')


class ReadOnly:
    def __init__(self, data):
        self.stream = io.BytesIO(data)

    def read(self, n=-1):
        return self.stream.read(n)

    def __getattr__(self, name):
        raise AssertionError(f'file.{name} was used')


def run_case(case, ctx):
    if case[0] == 'mixed':
        return mixed_case(MIXED[case[1]], case[2], ctx)
    if case[0] == 'huge':
        items = content(case[1], 'melody')
        track = build(items, (3, 4))
        data = MIDIWriter().dumps(track)
        f, g = io.BytesIO(b'x'), WriteOnly()
        f.seek(1)
        midi.dump(track, f)
        MIDIWriter().dump(track, g)
        ctx.step(5)
        if f.getvalue() != b'x' + data or b''.join(g.parts) != data or f.tell() != len(data) + 1:
            return f'{len(items)} notes: dumps gives {len(data)} bytes, dump {len(f.getvalue()) - 1} and {sum(map(len, g.parts))}'
        f.seek(1)
        for got in (midi.load(f), MIDIReader().load(ReadOnly(data), 0)):
            if see(got) != ref_items(items):
                return f'{len(items)} notes are read as {len(got)}'
        ctx.outcome('huge')
        return None
    if case[0] == 'large':
        # a long text event in the middle, and a long chunk before the track
        note, end = b'\x00\x90\x3c\x40\x60\x80\x3c\x40', b'\x01\x91\x3d\x40\x60\x81\x3d\x40' + model.END
        for data in (model.smf(note + b'\x00\xff\x01' + model.var_len(case[1]) + bytes(case[1]) + end),
                     model.header() + model.chunk(b'LIST', bytes(case[1])) + model.chunk(b'MTrk', note + end)):
            message = mixed_case(data, None, ctx, plain=model.smf(note + end)) or mixed_case(data, 1, ctx, plain=model.smf(note + end))
            if message:
                return message[:500]
        return None
    if case[0] == 'refused':
        for channel in (None, 0, 3):
            message = mixed_case(REFUSED[case[1]], channel, ctx, True)
            if message:
                return message
        return None
    pattern, n, bpm, channel = case
    items = content(n, pattern)
    want = ref_items(items)
    track = build(items, (3, 4))
    data = midi.dumps(track, bpm=bpm, channel=channel)
    ctx.state(data)
    if type(data) is not bytes:
        return f'dumps returns {type(data)}'
    try:
        events = model.decode(data)[1]
    except model.BadFile as e:
        return f'not a valid file: {e}'
    if {e[2] for e in events if e[1] in ('on', 'off')} - {channel}:
        return f'channel {channel} was asked for'
    tempo = next((int.from_bytes(e[3], 'big') for e in events if e[1] == 'meta' and e[2] == 0x51), 0)
    if abs(tempo - 60000000 / bpm) >= 1:
        return f'tempo is {tempo} for {bpm}'

    def buffer(write, before=b'', after=b''):
        f = io.BytesIO(before + after)
        f.seek(len(before))
        result = write(f)
        assert result is None, f'dump returned {result!r}'
        assert not f.closed, 'the file was closed'
        value = f.getvalue()
        assert value[:len(before)] == before, 'data before the position was changed'
        assert value[len(before):][len(data):] == after[len(data):], 'data after the end was changed'
        assert f.tell() == len(before) + len(data), f'position is {f.tell()}'
        return value[len(before):len(before) + len(data)]

    def write_only(write):
        f = WriteOnly()
        write(f)
        return b''.join(f.parts)

    module = lambda f: midi.dump(track, f, bpm=bpm, channel=channel)
    writer = MIDIWriter(bpm=bpm, channel=channel)
    klass = lambda f: writer.dump(track, f)
    written = {
        'module dumps, positional': midi.dumps(track, bpm, channel),
        'class dumps': writer.dumps(track),
        'class dumps again': writer.dumps(track),
        'module dump': buffer(module), 'class dump': buffer(klass),
        'dump after data': buffer(module, b'before'), 'dump over data': buffer(klass, b'x', b'y' * 10000 if n < 100 else b''),
        'module dump positional': buffer(lambda f: midi.dump(track, f, bpm, channel)),
        'write-only': write_only(module), 'write-only class': write_only(klass),
    }
    if bpm == 120.0:
        written['default tempo'] = midi.dumps(track, channel=channel)
        if channel == 0:
            written['defaults'] = midi.dumps(track)
            written['class defaults'] = MIDIWriter().dumps(track)
            written['explicit defaults'] = MIDIWriter(pulses_per_quarter=96, middle_c='C3', bpm=120.0, channel=0).dumps(track)
    twice = io.BytesIO()
    module(twice)
    klass(twice)
    written['first of two'], written['second of two'] = twice.getvalue()[:len(data)], twice.getvalue()[len(data):]

    def offset(d, k=3):
        f = io.BytesIO(b'abc' + d)
        f.seek(k)
        result = midi.load(f)
        assert not f.closed and f.tell() == len(d) + k, f'position is {f.tell()} of {len(d) + k}'
        return result

    reads = {
        'loads': midi.loads(data), 'class loads': MIDIReader().loads(data), 'offset': offset(data), 'load': midi.load(io.BytesIO(data)),
        'class load': MIDIReader().load(io.BytesIO(data)), 'read-only': midi.load(ReadOnly(data)),
        'read-only class': MIDIReader(middle_c='C3').load(ReadOnly(data), None), 'no channel': midi.loads(data, None),
    }
    if n:
        reads.update({'channel': midi.loads(data, channel), 'channel file': midi.load(io.BytesIO(data), channel=channel),
                      'class channel': MIDIReader().loads(data, channel=channel),
                      'class channel file': MIDIReader().load(ReadOnly(data), channel)})
    if n in (0, 1, 5) or n > 100:
        with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d:
            for mode in ('wb', 'ab', 'w+b'):
                path = os.path.join(d, 'track.mid')
                if mode != 'w+b' and os.path.exists(path):
                    os.remove(path)
                with open(path, mode) as f:
                    module(f) if mode != 'ab' else klass(f)
                    assert not f.closed, 'the file was closed'
                with open(path, 'rb') as f:
                    written[f'file {mode}'] = f.read()
                with open(path, 'rb') as f:
                    reads[f'file {mode}'] = midi.load(f)
                    assert not f.closed, 'the file was closed'
    ctx.step(len(written) + len(reads))
    for name, value in written.items():
        if value != data:
            return f'{name} wrote {value[:200].hex()}, dumps gives {data[:200].hex()}'
    for name, value in reads.items():
        if type(value) is not Track or see(value) != want or frac(value.signature) != frac(track.signature):
            return f'{name} read {see(value)[:10]}, must be {want[:10]}'
    if see(track) != want:
        return 'the track changed'
    ctx.outcome(f'{pattern}, {"empty" if not n else "some"}')
    return None
