"""C13 A torn or failed write is never mistaken for a complete file."""
import asyncio
import io
import os
import tempfile

from mc import model
from mc.real import MIDIError, MIDIParsingError, MIDIReader, MIDIWriter, Track, build, midi, raises, see

ID = 'C13'
RULE = ('for every track of parametric families (sizes 0..N, long gaps, large chunk lengths) x configurations, every '
        'crash point: every strict prefix of the written bytes is read back; for every write call of dump, that call '
        'fails (error, or error after a partial write of every length class), and what reached the file is read back. '
        'Oracle: MIDIParsingError for every strict prefix, the original track for the whole, and the error itself out '
        'of dump. A state is a distinct prefix.')
ASSUMPTIONS = ['crash model: a prefix of the byte stream reaches the file (append-only writes in program order)',
               'prefixes of tracks above 64 notes are cut at every byte of the first and last 64, around powers of two and at every 97th byte (10000 notes: 50 places, more: 16)']

CONFIGS = [{}, {'channel': 15, 'pulses_per_quarter': 480, 'bpm': 31.5}]


def cases(tier):
    top = 40 if tier == 'quick' else 130
    for ci in range(len(CONFIGS)):
        for n in range(0, top):
            for pattern in ('melody', 'chord', 'gaps', 'endless'):
                yield 'prefix', ci, n, pattern
    for n in (200, 500, 2100, 10000, 140000) if tier == 'quick' else (200, 500, 2100, 9000, 33000, 140000, 1000000):
        yield 'prefix', 0, n, 'melody'
    for ci in range(len(CONFIGS)):
        for n in range(0, 12 if tier == 'quick' else 40):
            for pattern in ('melody', 'gaps'):
                yield 'fault', ci, n, pattern


def LARGE(case):
    return case[2] > 4000


def content(n, pattern):
    if pattern == 'melody':
        return [((k, 8), (36 + k % 12, (1, 8), 1.0)) for k in range(n)]
    if pattern == 'chord':
        return [((0, 1), (k % 100, (1, 4), (k % 127 + 1) / 127)) for k in range(n)]
    if pattern == 'gaps':
        return [((k * 257, 4), (60, (63, 4), 0.5)) for k in range(n)]
    # key numbers and velocities which look like the end of a track
    return [((k, 1), (0x2f - 24, (1, 4), 1 / 127)) for k in range(n)]


class Broken:
    """A file whose write number `fail` raises after storing `part` bytes of that write."""
    def __init__(self, fail, part, error):
        self.fail, self.part, self.error = fail, part, error
        self.data, self.calls = b'', 0

    def write(self, data):
        self.calls += 1
        if self.calls > self.fail + 1:
            # dump went on after the failure
            self.data += bytes(data)
            return len(data)
        if self.calls == self.fail + 1:
            self.data += bytes(data)[:self.part]
            raise self.error
        self.data += bytes(data)
        return len(data)


class Unknown(Exception):
    pass


def errors():
    """What a file may raise; a dump which answers one of them with another attempt or another error is wrong."""
    return (OSError(28, 'No space left on device'), ValueError('I/O operation on closed file'), KeyError('x'), BlockingIOError(11, 'again', 1),
            InterruptedError(4, 'interrupted'), TimeoutError('late'), BrokenPipeError(32, 'pipe'), io.UnsupportedOperation('write'),
            MemoryError(), RuntimeError('x'), TypeError('x'), AttributeError('x'), EOFError(), Unknown('x'), MIDIError('x'),
            MIDIParsingError('x'), StopIteration(), AssertionError('x'), Stop('x'), KeyboardInterrupt(), SystemExit(3),
            GeneratorExit(), asyncio.CancelledError())


class Stop(BaseException):
    """Like KeyboardInterrupt: not an Exception."""


class Counting:
    def __init__(self):
        self.sizes = []
        self.data = b''

    def write(self, data):
        self.sizes.append(len(data))
        self.data += bytes(data)
        return len(data)


def torn(data, ctx, scratch=None):
    ctx.state(data)
    for load in (midi.loads, lambda d: MIDIReader().load(io.BytesIO(d)), lambda d: midi.loads(d, channel=0), lambda d: midi.load(io.BytesIO(d), 15)):
        error, track = raises(load, data)
        ctx.step()
        if not isinstance(error, MIDIParsingError):
            return f'{len(data)} bytes of a longer file are read: {error!r} {track and see(track)[:5]!r}; {data[:300].hex()}'
    return None


def run_case(case, ctx):
    kind, ci, n, pattern = case
    config = CONFIGS[ci]
    track = build(content(n, pattern), (4, 4))
    whole = MIDIWriter(**config).dumps(track)
    if kind == 'prefix':
        size = len(whole)
        if n <= 64:
            cuts = range(size)
        elif n < 50000:
            cuts = sorted(set(range(64)) | set(range(0, size, 97 if n < 5000 else size // 50)) |
                          {2 ** k + e for k in range(6, 22) for e in (-1, 0, 1) if 2 ** k < size - 1} | set(range(size - 64, size)))
        else:
            cuts = sorted(set(range(0, size, size // 8)) | {2 ** k for k in range(12, 24) if 2 ** k < size} | {size - 4, size - 1})
        for cut in cuts:
            message = torn(whole[:cut], ctx)
            if message:
                return f'cut at {cut} of {size}: {message}'
        ctx.outcome(f'{pattern}: every prefix rejected')
        if n in (0, 3, 17):
            # the same through a real file
            with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d:
                path = os.path.join(d, 'x.mid')
                for cut in (0, 7, 13, 14, 21, 22, size // 2, size - 1):
                    with open(path, 'wb') as f:
                        MIDIWriter(**config).dump(track, f)
                    os.truncate(path, min(cut, size))
                    with open(path, 'rb') as f:
                        error, got = raises(midi.load, f)
                    if cut < size and not isinstance(error, MIDIParsingError):
                        return f'file truncated to {cut} of {size} bytes: {error!r} {got!r}'
        back = midi.loads(whole)
        if pattern != 'chord' and len(back) != len(track):
            return f'the whole file has {len(back)} notes, written were {len(track)}'
        return None
    probe = Counting()
    MIDIWriter(**config).dump(track, probe)
    if probe.data != whole:
        return f'dump wrote {probe.data!r}, dumps returned {whole!r}'
    for fail, size in enumerate(probe.sizes):
        for part in sorted({0, 1, 7, 8, size // 2, size - 1} & set(range(size + 1))) if size > 16 else range(size + 1):
            for error in errors():
                file = Broken(fail, part, error)
                got = None
                try:
                    MIDIWriter(**config).dump(track, file) if part % 2 or config else midi.dump(track, file)
                except BaseException as e:
                    got = e
                ctx.step()
                if got is not error:
                    return f'write {fail} failed with {error!r} after {part} bytes, dump gave {got!r}'
                if file.calls != fail + 1:
                    return f'dump went on writing after write {fail} failed'
                if not whole.startswith(file.data):
                    return f'before the failure {file.data!r} was written, not a beginning of the file'
                if len(file.data) < len(whole):
                    message = torn(file.data, ctx)
                    if message:
                        return message
    # the track is still intact
    if MIDIWriter(**config).dumps(track) != whole:
        return 'a failed write changed the track'
    ctx.outcome('write faults reported')
    return None
