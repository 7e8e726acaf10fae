"""C07 A rejected operation leaves no trace."""
import io
from fractions import Fraction
from itertools import product

from mc import model
from mc.real import MIDIWriter, Note, Signature, Tone, Track, build, frac, midi, mk_note, raises, ref_note, see

ID = 'C07'
RULE = ('every history of up to D valid additions and reads, with every invalid addition inserted at every point and '
        'followed by an append; every track of up to N notes with the unwritable item at every index x kinds of '
        'unwritable (pitch below and above range, gap over 28 bits, time signature, tempo) written to a recording '
        'file, then a good track through the same writer and file. Oracle: exception, nothing changed (also no text, compared with a track which has not seen the call), nothing '
        'written, later operations as if the rejected one had not happened. A state is (content, rejected operation).')
ASSUMPTIONS = ['an iterable of notes is not required to be added atomically when a later element is invalid',
               'input/output errors of the file itself are C13']

GOOD = [('add', None, (0, (1, 4), 0.5)), ('add', (0, 1), (1, (1, 1), 0.5)), ('add', (3, 8), (0, (1, 16), 0.75)),
        ('add', (1, 64), (5, (3, 4), 1.0)), ('iter',)]
BAD_WHERE = ['(1, 3)', '(-1, 4)', '(1, 0)', '(0, -2)', '(1,)', '(1, 2, 3)', '()', '5', '0.25', '"1/4"', 'object()',
             '(5, 96)', 'True', '(1, 1023)', '(-1, 128)']
BAD_WHAT = ['5', 'None', 'object()', '0.5', 'Tone(4)', 'Signature(1, 4)', '[5]', '(None,)', 'iter([Tone(5)])']
PITCHES = (0, 12, 36, 60, 100)


def cases(tier):
    for depth in range(0, 4 if tier == 'quick' else 5):
        for seq in product(GOOD, repeat=depth):
            for k in range(depth + 1):
                yield 'add', seq, k
    for n in range(0, 7 if tier == 'quick' else 12):
        for i in range(n + 1):
            for read in (False, True):
                yield 'dump', n, i, read
    for middle in (0, 24, 36, 48, 60, -12, 127, -67, -68, 100):
        yield 'range', middle
    for channel in range(-40, 60):
        yield 'channel', channel
    yield 'ppq',
    for t in list(range(2 ** 28 - 8, 2 ** 28 + 8)) + [2 ** k + e for k in (29, 31, 32, 35, 40, 64) for e in (-1, 0, 1)]:
        yield 'delay', t
    yield 'middle',
    yield 'track',
    for depth in range(0, 3 if tier == 'quick' else 4):
        for seq in product(GOOD, repeat=depth):
            for n in range(1, 5):
                for i in range(n + 1):
                    yield 'several', seq, n, i


class Recorder:
    """A file which only records what it was given."""
    def __init__(self):
        self.data = b''
        self.calls = []

    def write(self, data):
        self.data += bytes(data)
        self.calls.append(len(data))
        return len(data)

    def __getattr__(self, name):
        raise AssertionError(f'file.{name} was used')


def apply(track, ref, op):
    if op[0] == 'iter':
        list(track)
        return
    track.add(mk_note(op[2]), op[1])
    ref.add([ref_note(op[2])], None if op[1] is None else Fraction(*op[1]))


def same(track, ref):
    if len(track) != len(ref.items):
        return f'len is {len(track)}, must be {len(ref.items)}'
    if frac(track.length) != ref.length:
        return f'length is {track.length}, must be {ref.length}'
    return None


def texts(track):
    return str(track), repr(track.length), repr(track)


def run_add(case, ctx):
    _, seq, k = case
    ns = {'Tone': Tone, 'Signature': Signature}
    bads = [('where', x) for x in BAD_WHERE] + [('what', x) for x in BAD_WHAT]
    for kind, text in bads:
        track, ref = Track(), model.RefTrack()
        twin = Track()          # has never seen the rejected call
        for op in seq[:k]:
            apply(track, ref, op)
            apply(twin, model.RefTrack(), op)
        if kind == 'where':
            note = Note(9, (9, 1), 0.9)
            what = (note, [note, note], (note,), iter([note, note]), [], ())[(k + 2 * len(seq)) % 6]
            error, _ = raises(track.add, what, eval(text, ns))
        elif len(seq) % 2:
            error, _ = raises(track.add, eval(text, ns))
        else:
            error, _ = raises(track.add, eval(text, ns), ((7, 32), (7, 2 ** 30))[k % 2])
        ctx.step()
        if error is None or (kind == 'where' and not isinstance(error, (TypeError, ValueError))):
            return f'add with {kind} {text} after {seq[:k]}: {error!r}'
        ctx.outcome(type(error).__name__)
        message = same(track, ref)
        if message is None:
            for op in seq[k:] + (GOOD[0],):
                apply(track, ref, op)
                apply(twin, model.RefTrack(), op)
            message = same(track, ref)
        if message is None and (texts(track) != texts(twin) or not track == twin):
            message = f'text is {texts(track)}, without the rejected call {texts(twin)}'
        if message is None and see(track) != ref.sorted():
            message = f'content is {see(track)}, must be {ref.sorted()}'
        if message:
            return f'rejected add with {kind} {text} after {seq[:k]}: {message}'
        ctx.state((tuple(ref.sorted()), text))
    return None


def run_dump(case, ctx):
    _, n, i, read = case
    base = [((k, 8), (PITCHES[k % 5], (1, 8), 0.5)) for k in range(n)]
    good = build(base)
    want = MIDIWriter().dumps(good)
    bad_items = {
        'low': ((i, 8), (-25, (1, 8), 0.5)), 'very low': ((i, 8), (-1000, (1, 8), 0.5)),
        'high': ((i, 8), (104, (1, 8), 0.5)), 'very high': ((i, 8), (10 ** 6, (1, 8), 0.5)),
        'wrap': ((i, 8), (36 + 256, (1, 8), 0.5)),
        'gap': ((2 ** 28 // 384 + 10 + n, 1), (60, (1, 8), 0.5)),
        'long': ((i, 8), (61, (2 ** 28 // 384 + 10 + n, 1), 0.5)),
        'high zero': ((i, 8), (104, (0, 1), 0.0)),
    }
    runs = [(name, {}, (4, 4), base[:i] + [item] + base[i:]) for name, item in bad_items.items()]
    for signature in ((256, 4), (1000, 1), (4, 2 ** 256)):
        runs.append((f'signature {signature[0]}', {}, signature, base))
    for bpm in ('0', '0.0', '-120.0', '3.5', '1e-9', '-1e-9', 'float("nan")'):
        runs.append((f'bpm {bpm}', {'bpm': eval(bpm)}, (4, 4), base))
    for name, config, signature, content in runs:
        track = build(content, signature)
        if read:
            list(track)
        writer = MIDIWriter(**config)
        file = Recorder()
        error, _ = raises(writer.dump, track, file)
        error2, data = raises(writer.dumps, track)
        ctx.step(2)
        if error is None or error2 is None:
            return f'{name} at {i} of {n} notes is not rejected: {error!r} {error2!r} {data!r}'
        if name in bad_items and not (isinstance(error, ValueError) and isinstance(error2, ValueError)):
            return f'{name} at {i} of {n} notes: {error!r} {error2!r} instead of ValueError'
        if file.data:
            return f'{name} at {i} of {n} notes: {type(error).__name__}, but {file.data!r} was written'
        if config:
            error3, _ = raises(midi.dump, track, file, **config)
            error4, _ = raises(midi.dumps, track, **config)
            if error3 is None or error4 is None or file.data:
                return f'{name}: module functions gave {error3!r} and {error4!r} and wrote {file.data!r}'
            writer = MIDIWriter()
        if len(track) != len(content):
            return f'{name}: writing changed the track to {track!r}'
        # the failed attempt does not affect the next one
        writer.dump(good, file)
        if file.data != want:
            return f'{name}: after the rejected write, a good track is written as {file.data!r}, must be {want!r}'
        ctx.outcome(f'{name}: {type(error).__name__}')
        ctx.state((n, i, name))
    return None


class Broken(Exception):
    pass


def failing(items, error):
    yield from items
    raise error


def run_several(case, ctx):
    """Several notes at once with one that is not a note at index i: some of those before it may stay, nothing else."""
    _, seq, n, i = case
    specs = [(50 + k, (1 + k, 8), 0.5) for k in range(n)]
    for bad in (5, None, Tone(4), object(), Broken):
        for where in (None, (1, 8), (3, 64)):
            for form in (list, iter):
                track, ref = Track(), model.RefTrack()
                for op in seq:
                    apply(track, ref, op)
                before = ref.length
                what = [mk_note(s) for s in specs]
                own = Broken('no more notes')
                if bad is Broken:
                    what = failing(what[:i], own)
                else:
                    what = form(what[:i] + [bad] + what[i:])
                error, _ = raises(track.add, what, where)
                ctx.step()
                text = f'add of {n} notes with {bad!r} at {i}, at {where}, after {seq}'
                if error is None or bad is Broken and error is not own:
                    return f'{text}: {error!r}'
                stayed = len(track) - len(ref.items)
                if not 0 <= stayed <= i:
                    return f'{text}: {stayed} notes were added'
                if stayed:
                    ref.add([ref_note(s) for s in specs[:stayed]], before if where is None else Fraction(*where))
                message = same(track, ref)
                for op in (GOOD[0], ('iter',), GOOD[1]):
                    if message is None:
                        apply(track, ref, op)
                        message = same(track, ref)
                if message is None and see(track) != ref.sorted():
                    message = f'content is {see(track)}, must be {ref.sorted()}'
                if message:
                    return f'{text}: {message}'
                ctx.outcome(f'{stayed} of {n} notes stayed')
                ctx.state((tuple(ref.sorted()), 'several'))
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'several':
        return run_several(case, ctx)
    if kind == 'add':
        return run_add(case, ctx)
    if kind == 'dump':
        return run_dump(case, ctx)
    if kind == 'range':
        middle = case[1]
        for form in (middle, Tone(middle), model.notation(middle), model.notation(middle, True)):
            writer = MIDIWriter(middle_c=form)
            for pitch in range(middle - 60 - 300, middle + 400):
                file = io.BytesIO()
                error, _ = raises(writer.dump, build([((1, 4), (pitch, (1, 4), 0.5))]), file)
                ctx.step()
                ok = 0 <= pitch - middle + 60 <= 127
                if ok != (error is None) or ok != bool(file.getvalue()) or not (ok or type(error) is ValueError):
                    return f'pitch {pitch} with middle c {form!r}: {error!r}, {len(file.getvalue())} bytes written'
                ctx.outcome('in range' if ok else 'out of range')
        return None
    if kind == 'channel':
        c = case[1]
        ctx.step(2)
        for make in (lambda: MIDIWriter(channel=c).dumps(Track()), lambda: midi.dumps(Track(), channel=c)):
            error, _ = raises(make)
            if (0 <= c <= 15) != (error is None) or not (error is None or type(error) is ValueError):
                return f'channel {c}: {error!r}'
        for bad in (-1.0, 15.5, 16.0, float('nan'), float('inf'), -float('inf'), None, '', '0', [], (0,)):
            for make in (lambda: MIDIWriter(channel=bad), lambda: midi.dumps(Track(), channel=bad)):
                wrong, _ = raises(make)
                if not isinstance(wrong, ValueError if isinstance(bad, float) else (ValueError, TypeError)):
                    return f'channel {bad!r}: {wrong!r}'
        ctx.outcome('accepted' if error is None else 'rejected')
        return None
    if kind == 'delay':
        t = case[1]
        contents = {'before the first note': [((t, 256), (36, (1, 4), 0.5))], 'inside a note': [((1, 4), (36, (t, 256), 0.5))],
                    'between notes': [((0, 1), (36, (1, 256), 0.5)), ((t + 1, 256), (40, (0, 1), 0.5))],
                    'after another note': [((0, 1), (36, (1, 256), 0.5)), ((1, 256), (40, (t, 256), 0.5))]}
        for name, content in contents.items():
            file = Recorder()
            track = build(content)
            error, _ = raises(MIDIWriter(pulses_per_quarter=64).dump, track, file)
            ctx.step()
            ok = t < 2 ** 28
            if ok != (error is None) or ok != bool(file.data) or not (ok or isinstance(error, ValueError)):
                return f'delay of {t} pulses {name}: {error!r}, {len(file.data)} bytes written'
            if len(track) != len(content):
                return f'delay of {t} pulses {name}: the track changed'
            ctx.outcome('delay accepted' if ok else 'delay rejected')
        return None
    if kind == 'ppq':
        for p in list(range(-300, 2)) + list(range(32766, 33100)) + [65535, 65536, 65537, 2 ** 31, -2 ** 31]:
            error, _ = raises(MIDIWriter, pulses_per_quarter=p)
            ctx.step()
            if (1 <= p <= 32767) != (error is None) or not (error is None or type(error) is ValueError):
                return f'pulses_per_quarter {p}: {error!r}'
            ctx.outcome('accepted' if error is None else 'rejected')
        for bad in (0.5, 0.0, -1.5, 32767.5, float('nan'), float('inf'), None, '', '96', [], (96,)):
            error, _ = raises(MIDIWriter, pulses_per_quarter=bad)
            if not isinstance(error, ValueError if isinstance(bad, float) else (ValueError, TypeError)):
                return f'pulses_per_quarter {bad!r}: {error!r}'
        return None
    if kind == 'middle':
        from mc.real import MIDIReader
        for cls in (MIDIReader, MIDIWriter):
            for bad in (1.5, None, [60], b'C3', 60.0, (60,), Signature(1, 4), Note(60), 'H', '', 'C3 ', ' C3', 'C3\n', 'c3', 'C4#', 'C--1'):
                error, _ = raises(cls, middle_c=bad)
                ctx.step()
                if not isinstance(error, (TypeError, ValueError)):
                    return f'{cls.__name__}(middle_c={bad!r}): {error!r}'
                ctx.outcome('rejected')
        return None
    for bad in ('(1, 6)', '(-1, 4)', '(4,)', '4', 'None', '(4, 0)', '(4, 4, 4)', '"4/4"', '0.5'):
        error, _ = raises(Track, eval(bad))
        ctx.step()
        if not isinstance(error, (TypeError, ValueError)):
            return f'Track({bad}): {error!r}'
        ctx.outcome('rejected')
    for bad in (Note(1), [Note(1)], [(Note(1), (1, 3))], [(Note(1), (1, 4)), (Note(1), 7)], [(Note(1), (1, 4), 3)]):
        error, _ = raises(Track, (4, 4), bad)
        ctx.step()
        if error is None:
            return f'Track(content={bad}) is accepted'
    for bad in (0, False, 0.0, 5, True, object()):
        error, _ = raises(Track, (4, 4), bad)
        if not isinstance(error, (TypeError, ValueError)):
            return f'Track(content={bad}): {error!r}'
    return None
