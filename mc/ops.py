"""
Closed read-only operations over a set of shared objects: the alphabet of C16 (histories) and C17 (interleavings).
Each returns a plain value (its digest), which must not depend on anything but the shared objects.
"""
import io
from fractions import Fraction

from mc import model, rng
from mc.real import MIDIReader, MIDIWriter, Note, Signature, Tone, Track, build, frac, mk_note, raises, see, see_note
from melodia.io import midi
from melodia.music import chord
from melodia.processing.track import randomize_velocities

MELODY = [((3, 8), (40, (1, 8), 0.5)), ((0, 1), (36, (1, 4), 1.0)), ((1, 4), (36, (1, 16), 0.75)), ((1, 64), (43, (2, 1), 0.3))]
OTHER = [((1, 2), (60, (1, 4), 1.0)), ((0, 1), (61, (1, 4), 0.25)), ((1, 4), (60, (3, 32), 0.5))]
BAD = [((1, 4), (60, (1, 4), 0.5)), ((0, 1), (500, (1, 4), 0.5))]
TWO = model.smf(
    b'\x00\xff\x58\x04\x03\x02\x18\x08\x00\x90\x3c\x40\x10\x91\x3d\x41\x10\x3e\x42\x20\x80\x3c\x40\x00\x81\x3d\x40\x10\x91\x3e\x00'
    + model.END, 24)
HANGING = model.smf(b'\x00\x90\x3c\x40\x10\x91\x3c\x41\x10\x81\x3c\x40' + model.END, 24)
RUNNING = model.smf(b'\x00\x3c\x40\x10\x3c\x00' + model.END, 24)
PREFIXED = model.smf(b'\x00\xff\x20\x01\x01\x00\xff\x58\x04\x05\x03\x18\x08\x00\x91\x3c\x40\x10\x3c\x00' + model.END, 24)


class Shared:
    """Everything operations share. Built anew for each history."""
    def __init__(self):
        self.track = build(MELODY, (3, 4))
        self.other = build(OTHER)
        self.bad = build(BAD)
        self.empty = Track((5, 8))
        self.writer = MIDIWriter()
        self.writer2 = MIDIWriter(pulses_per_quarter=480, middle_c='C4', bpm=90.0, channel=5)
        self.reader = MIDIReader()
        self.reader2 = MIDIReader('C4')
        self.note = Note('A3', (3, 8), 0.5)
        self.notes = [mk_note(s) for _, s in MELODY]
        self.file = model.smf(b'\x00\x90\x3c\x40\x60\x3c\x00\x81\x00\x93\x40\x7f\x30\x83\x40\x00' + model.END)
        self.tone, self.signature = Tone(61), Signature(6, 8)

    def digest(self):
        return (see(self.track), see(self.other), see(self.bad), see(self.empty), see_note(self.note),
                [see_note(n) for n in self.notes], self.tone.pitch, frac(self.signature), frac(self.track.length),
                frac(self.track.signature), frac(self.empty.signature))


def seen(track):
    return see(track), frac(track.signature), frac(track.length), len(track)


def attempt(fn, *args, **kwargs):
    error, value = raises(fn, *args, **kwargs)
    return (type(error).__name__,) if error is not None else value


def track_from(result):
    return seen(result) if isinstance(result, Track) else result


def fresh_track(s):
    t = Track()
    before = seen(t)
    t.add(s.note)
    t.add(chord.maj('C3', (1, 1)))
    t.add(Note(3), (1, 8))
    return before, seen(t)


def to_buffer(s):
    f = io.BytesIO()
    midi.dump(s.track, f, bpm=100.0, channel=2)
    return f.getvalue()


def randomized(s):
    with rng.menu((0.5, -0.5, 3.0)):
        return seen(randomize_velocities(s.track, variance=0.0, mean=0.6))


OPS = {
    'write': lambda s: s.writer.dumps(s.track),
    'write other': lambda s: s.writer.dumps(s.other),
    'write 2': lambda s: s.writer2.dumps(s.track),
    'write empty': lambda s: s.writer.dumps(s.empty),
    'write bad': lambda s: attempt(s.writer.dumps, s.bad),
    'write module': to_buffer,
    'read': lambda s: seen(s.reader.loads(s.file)),
    'read 2': lambda s: seen(s.reader2.loads(s.file)),
    'read channel': lambda s: seen(s.reader.loads(s.file, channel=3)),
    'read two': lambda s: seen(s.reader.loads(TWO)),
    'read hanging': lambda s: seen(s.reader.loads(HANGING)),
    'read prefixed': lambda s: seen(midi.loads(PREFIXED)),
    'read running': lambda s: attempt(s.reader.loads, RUNNING)[0],
    'read torn': lambda s: attempt(s.reader.loads, s.file[:-5])[0],
    'read absent': lambda s: attempt(s.reader.loads, s.file, channel=9)[0],
    'round trip': lambda s: seen(midi.loads(midi.dumps(s.other))),
    'iterate': lambda s: see(s.track),
    'measure': lambda s: (len(s.track), frac(s.track.length), frac(s.other.length), str(s.track)),
    'repr': lambda s: (repr(s.track), repr(s.other)),
    'compare': lambda s: (s.track == s.other, s.track == s.track, s.track != s.empty, s.other == build(OTHER)),
    'fresh track': fresh_track,
    'chord': lambda s: [see_note(n) for n in chord.min7(s.note)],
    'chord 2': lambda s: [see_note(n) for n in chord.dom9('Bb2', (1, 2), 0.1)],
    'defaults': lambda s: (see_note(Note(1)), seen(Track()), [see_note(n) for n in chord.sus4(0)]),
    'parse': lambda s: [Tone.from_notation(t).pitch for t in ('C', 'Db3', 'G#b#5', 'B-2')],
    'parse bad': lambda s: [attempt(Tone.from_notation, t)[0] for t in ('H', 'C4#', '', 'C--1')],
    'format': lambda s: (s.tone.to_notation(), s.tone.to_notation(transpose_down=True), str(Tone(-1)), s.tone.to_frequency(432.0),
                         s.tone.to_frequency(), s.tone.octave),
    'derive': lambda s: (see_note(s.note.with_velocity(0.9)), see_note(s.note.with_duration((1, 16))), see_note(s.note.transposed(5)),
                         see_note(s.note)),
    'sort': lambda s: [see_note(n) for n in sorted(s.notes)],
    'signature': lambda s: (frac(s.signature + Signature(1, 16)), frac(s.signature * Signature(3, 2)), repr(s.signature.to(32)),
                            repr(s.signature.normalized()), s.signature < Signature(1, 1), repr(s.signature)),
    'randomize': randomized,
}
# pairs whose interleavings go deepest: everything which shares an object or a module-level table
CORE = ('write', 'write other', 'iterate', 'read', 'read two', 'repr')


# ---------------------------------------------------------------- more operations for histories (C16)
# Families which differ in one parameter at a time: whatever is remembered by an incomplete key shows.

def note_file(division=96, channel=0, key=60, velocity=64, start=96, length=48, signature=None, prefix=b'', inside=b''):
    body = prefix
    if signature is not None:
        body += b'\x00\xff\x58\x04' + bytes(signature) + b'\x18\x08'
    body += model.var_len(start) + bytes([0x90 | channel, key, velocity]) + inside
    body += model.var_len(length) + bytes([0x80 | channel, key, 64])
    return model.smf(body + model.END, division)


FILES = {
    'plain': note_file(), 'division 352': note_file(division=352), 'division 97': note_file(division=97),
    'division 24672': note_file(division=24672), 'channel 1': note_file(channel=1), 'channel 9': note_file(channel=9), 'key 61': note_file(key=61),
    'key 0': note_file(key=0), 'velocity 65': note_file(velocity=65), 'velocity 127': note_file(velocity=127), 'start 97': note_file(start=97),
    'start 352': note_file(start=352), 'length 49': note_file(length=49), 'length 304': note_file(length=304), 'length 0': note_file(length=0),
    '3/4': note_file(signature=(3, 2)), '6/8': note_file(signature=(6, 3)), '12/8': note_file(signature=(12, 3)), '3/4 channel 1': note_file(channel=1, signature=(3, 2)),
    'prefix 1': note_file(channel=1, signature=(7, 3), prefix=b'\x00\xff\x20\x01\x01'),
    'prefix left': note_file(prefix=b'\x00\xff\x20\x01\x00'), 'empty': model.smf(model.END), 'only signature': model.smf(b'\x00\xff\x58\x04\x05\x03\x18\x08' + model.END),
    'alien': model.header() + model.chunk(b'JUNK', b'abc') + note_file()[14:], 'sysex': note_file(inside=b'\x05\xf0\x02\x01\xf7'),
    'program': note_file(prefix=b'\x00\xc0\x05'), 'unfinished': model.smf(b'\x00\x90\x3d\x40' + model.END),
    'off first': model.smf(b'\x00\x80\x3c\x40\x00\x90\x3c\x40\x60\x80\x3c\x40' + model.END),
    'two headers': model.header(192) + note_file(),
}
BROKEN = {
    'status f4': note_file(prefix=b'\x00\xf4'), 'status fd': note_file(prefix=b'\x00\xfd\x00'), 'status f9': note_file(prefix=b'\x00\xf9'),
    'key 200': note_file(key=0)[:24] + b'\xc8' + note_file(key=0)[25:],
    'division 0': note_file(division=0), 'division 65535': note_file(division=65535), 'format 1': model.header(96, 1, 1) + note_file()[14:],
    'two tracks': model.header(96, 0, 2) + note_file()[14:], 'no header': note_file()[14:], 'no track': note_file()[:14], 'nothing': b'',
    'torn header': note_file()[:5], 'torn': note_file()[:-3], 'no end': model.smf(b'\x00\x90\x3c\x40\x60\x80\x3c\x40'),
    'long end': model.smf(b'\x00\xff\x2f\x01\x00'), 'long signature': model.smf(b'\x00\xff\x58\x05\x04\x02\x18\x08\x00' + model.END),
    'torn running': model.smf(b'\x00\x90\x3c\x40\x60\x3c'), 'leading data': model.smf(b'\x00\x3c\x40\x60\x3c\x00' + model.END),
    'data after meta': model.smf(b'\x00\x90\x3c\x40\x00\xff\x01\x00\x60\x3c\x00' + model.END),
    'torn text': model.smf(b'\x00\x90\x3c\x40\x00\xff\x01\x7f'), 'torn sysex': model.smf(b'\x00\x91\x3c\x40\x00\xf0\x7f'),
    'text': b'not a midi file at all',
}
WRITERS = [dict(), dict(pulses_per_quarter=352), dict(pulses_per_quarter=480), dict(middle_c='C4'), dict(middle_c=24), dict(bpm=60), dict(bpm=376.0), dict(bpm=120.4), dict(pulses_per_quarter=97), dict(channel=1),
           dict(channel=15), dict(middle_c=Tone(40), channel=2, bpm=99.0, pulses_per_quarter=24)]
TRACKS = {
    'quiet': [((0, 1), (36, (1, 4), 0.25))], 'loud': [((0, 1), (36, (1, 4), 0.26))], 'nearly loud': [((0, 1), (36, (1, 4), 0.2521))], 'nearly quiet': [((0, 1), (36, (1, 4), 0.2519))], 'nearly later': [((1, 256), (36, (1, 4), 0.25))],
    'later': [((1, 512), (36, (1, 4), 0.25))], 'longer': [((0, 1), (36, (65, 256), 0.25))],
    'higher': [((0, 1), (37, (1, 4), 0.25))], 'twice': [((0, 1), (36, (1, 4), 0.25))] * 2, 'gap': [((100, 1), (36, (1, 4), 0.25))],
}


def fail(f):
    error, value = f
    return (type(error).__name__,) if error is not None else ('accepted', track_from(value))


def to_file(fn, track, **kwargs):
    f = io.BytesIO()
    fn(track, f, **kwargs)
    return f.getvalue()


def randomize_default(track, **settings):
    with rng.menu((0.5, -0.5, 3.0)):
        return seen(randomize_velocities(track, **settings))


def shifted(s):
    """Derived notes which share components with the original."""
    n = Note('C4', (1, 2), 1.0)
    d = n.with_duration(n.duration)
    v = d.with_velocity(d.velocity).transposed(0)
    return [see_note(x) for x in (n, d, v, n.transposed(12), n)]


MORE = dict(OPS)
for _name, _data in FILES.items():
    MORE['load ' + _name] = lambda s, d=_data: (seen(s.reader.loads(d)), seen(midi.load(io.BytesIO(d))))
for _name, _data in BROKEN.items():
    MORE['load broken ' + _name] = lambda s, d=_data: fail(raises(s.reader.loads, d))
for _i, _config in enumerate(WRITERS):
    MORE[f'writer {_i}'] = lambda s, c=_config: [MIDIWriter(**c).dumps(build(t)) for t in TRACKS.values()]
for _name, _content in TRACKS.items():
    MORE['track ' + _name] = lambda s, c=_content: (s.writer.dumps(build(c)), repr(build(c)), str(build(c, (3, 8))), seen(build(c, (6, 16))))
for _i, _middle in enumerate((24, 'C4', Tone(37))):
    MORE[f'middle {_i}'] = lambda s, m=_middle: seen(MIDIReader(m).loads(FILES['plain']))
for _name in ('C', 'C0', 'C#', 'Cb', 'Db', 'B#', 'C-1', 'C1', 'C10', 'A4', 'A-4', 'G#b#5', 'E##', 'Fbb-3'):
    MORE['parse ' + _name] = lambda s, x=_name: (Tone.from_notation(x).pitch, Tone.from_notation(x).to_notation(), Tone.from_notation(x).to_notation(True),
                                                 repr(Tone.from_notation(x)), Note(x).tone.pitch)
for _p in (0, 1, 57, 58, -1, -12, 1000):
    for _b in (440.0, 432.0):
        MORE[f'tone {_p} {_b}'] = lambda s, p=_p, b=_b: (Tone(p).to_frequency(b), Tone(p).to_frequency(), Tone(p).octave, str(Tone(p)), Tone(p).transposed(7).pitch)
for _args in ((36,), (37,), (36, (1, 2)), (36, (1, 2), 0.0), (36, (1, 4), 0.5), (36, None, 0.5), ('C3',), ('C3', (2, 4)), ('B#2', (0, 1))):
    MORE[f'chords {_args}'] = lambda s, a=_args: [[see_note(n) for n in f(*a)] for f in (chord.maj, chord.major, chord.min, chord.maj7, chord.dim)] + \
        [repr(chord.aug(*a)), repr(chord.sus2(Note(a[0]), *a[1:]))]
MORE['chord bad'] = lambda s: [fail(raises(chord.maj, *a)) for a in ((1.5,), (36, (1, 3)), (36, None, 2.0), ('H',))]
MORE['bad bpm'] = lambda s: [fail(raises(midi.dumps, s.track, bpm=b)) for b in (0.5, 0, -1.0)]
MORE['bad bpm file'] = lambda s: [fail(raises(midi.dump, s.track, io.BytesIO(), bpm=b)) for b in (0.5, 0, 3.0)]
MORE['bad channel'] = lambda s: [fail(raises(midi.dumps, s.track, channel=c)) for c in (16, -1)] + [fail(raises(MIDIWriter, channel=99)), fail(raises(MIDIWriter, pulses_per_quarter=0))]
MORE['bad add'] = lambda s: [fail(raises(Track().add, *a)) for a in ((Note(1), (1, 3)), (5,), (Note(1), 'x'))] + [seen(Track())]
MORE['bad note'] = lambda s: [fail(raises(Note, *a)) for a in ((1, (1, 3)), (1, (1, 4), 2.0), ('X',), (1.5,))]
MORE['bad signature'] = lambda s: [fail(raises(Signature, *a)) for a in ((1, 3), (-1, 4))] + [fail(raises(Signature(1, 4).to, 2)), fail(raises(Signature(1, 4).to, 3))]
MORE['bad randomize'] = lambda s: [fail(raises(randomize_velocities, s.track, **k)) for k in ({'minimum': 2.0}, {'variance': -1.0})]
MORE['shifted'] = shifted
MORE['derive all'] = lambda s: [[see_note(x) for x in (n.with_duration(n.duration), n.with_duration((3, 4)), n.with_velocity(n.velocity), n.with_velocity(0.0),
                                                       n.with_velocity(1.0), n.transposed(0), n.transposed(-1), n.transposed(1), n)]
                                for n in s.notes + [s.note] + [n for t in (s.track, s.other, s.bad) for _, n in t]]
MORE['same'] = lambda s: [(m == n, m != n, m < n, m <= n, m > n, m >= n) for m in s.notes for n in s.notes + [s.note]]
MORE['printed'] = lambda s: [(str(x), repr(x)) for x in s.notes + [s.note, s.tone, s.signature, s.track, s.bad, s.empty]]
MORE['module defaults'] = lambda s: (midi.dumps(s.track), to_file(midi.dump, s.track), to_file(s.writer.dump, s.track), MIDIWriter().dumps(s.empty))
MORE['module settings'] = lambda s: (midi.dumps(s.track, 60.0), to_file(midi.dump, s.track, bpm=61.0), to_file(midi.dump, s.track, channel=7), midi.dumps(s.track, channel=8))
MORE['read defaults'] = lambda s: [(seen(midi.loads(d)), seen(midi.load(io.BytesIO(d))), seen(MIDIReader().loads(d))) for d in (FILES['3/4'], FILES['prefix 1'], TWO, s.file)]
MORE['randomize defaults'] = lambda s: randomize_default(s.track)
MORE['randomize other'] = lambda s: [randomize_default(s.other, minimum=0.1, maximum=0.9, mean=0.2, variance=4.0), randomize_default(s.empty)]
MORE['other file'] = lambda s: [fail(raises(midi.load, io.BytesIO(FILES['plain']), c)) for c in (0, 5, None)]
MORE['signatures'] = lambda s: [(repr(Signature(*x) + Signature(*y)), repr(Signature(*x) * Signature(*y)), Signature(*x) < Signature(*y), Signature(*x) == Signature(*y))
                                for x in ((1, 4), (2, 8), (3, 8), (0, 1)) for y in ((1, 4), (2, 8), (257, 1024), (1, 1))]
MORE['grow'] = lambda s: seen(Track((4, 4), [(n, (i, 2 ** i)) for i, n in enumerate(s.notes)] + [(s.note, None)]))


# Long files which differ from one another only near their beginning, in the middle or near their end.
FILLER = b''.join(b'\x00\xff\x01\x40' + bytes(range(32, 96)) for _ in range(70))


def long_file(first=60, second=60, third=60, signature=4, division=96):
    body = b'\x00\xff\x58\x04' + bytes([signature]) + b'\x02\x18\x08' + b'\x00\x90' + bytes([first]) + b'\x40' + FILLER + b'\x10\x91' + bytes([second])
    body += b'\x41' + FILLER + b'\x10\x92' + bytes([third]) + b'\x42\x10\x80' + bytes([first]) + b'\x00\x10\x81' + bytes([second])
    return model.smf(body + b'\x00\x10\x82' + bytes([third]) + b'\x00' + FILLER + model.END, division)


LONG = {'': long_file(), 'first': long_file(61), 'second': long_file(second=61), 'third': long_file(third=61), 'signature': long_file(signature=3),
        'division': long_file(division=48)}
for _name, _data in LONG.items():
    MORE['load long ' + _name] = lambda s, d=_data: (seen(s.reader.loads(d)), seen(midi.load(io.BytesIO(d))), seen(midi.loads(d)))


def long_track(*changed):
    """Three hundred notes, some of them different."""
    return build([((i, 16), (36 + i % 5 + (i in changed), (1, 16), 0.5)) for i in range(300)])


for _i in (0, 1, 150, 298, 299):
    MORE[f'write long {_i}'] = lambda s, i=_i: (lambda t: (s.writer.dumps(t), midi.dumps(t), hash(repr(seen(t))), repr(t)))(long_track(i))


def grown(s, make):
    """What is made belongs to the caller: changing it does not change what the same call gives later."""
    result = []
    for extra in ((s.note, (1, 64)), (s.notes[0], None), (s.notes, (5, 1))):
        track = make()
        result.append(seen(track))
        track.add(*extra)
        result.append((seen(track), repr(track), str(track), s.writer.dumps(track)))
    return result + [seen(make())]


def grown_randomized(s):
    with rng.menu((0.5, -0.5, 3.0)):
        return seen(s.track), grown(s, lambda: randomize_velocities(s.track, variance=0.0, mean=0.6)), seen(s.track)


for _name, _data in (('file', FILES['plain']), ('empty', FILES['empty']), ('two', TWO), ('long', LONG[''])):
    MORE['grow loaded ' + _name] = lambda s, d=_data: [grown(s, f) for f in (
        lambda: s.reader.loads(d), lambda: midi.loads(d), lambda: midi.load(io.BytesIO(d)), lambda: s.reader.load(io.BytesIO(d), 0 if d is FILES['plain'] else None))]
MORE['grow loaded shared'] = lambda s: grown(s, lambda: s.reader.loads(s.file))
MORE['grow made'] = lambda s: (grown(s, Track), grown(s, lambda: Track((3, 4))), grown(s, lambda: Track((3, 4), [(s.note, (1, 4))])), grown(s, lambda: build(OTHER)))
MORE['grow randomized'] = grown_randomized
MORE['grow written'] = lambda s: (lambda t: [(s.writer.dumps(t), midi.dumps(t), t.add(n, None), s.writer.dumps(t), repr(t), str(t), frac(t.length)) for n in s.notes])(build(OTHER))


# Families of operations over many distinct values: whatever is remembered in a store of limited size, or by the address of an object,
# is driven over its limit. Each takes the shared objects and a number.

def _mod(i, *sizes):
    """Mixed radix digits of i."""
    result = []
    for n in sizes:
        result.append(i % n)
        i //= n
    return result


def crowd_read(s, i):
    k, v, d, start, c = _mod(i, 61, 97, 3, 29, 16)
    data = note_file(division=(96, 97, 480)[d], key=k + 30, velocity=v + 1, start=start * 7, channel=c, length=1 + i % 331)
    return seen(s.reader.loads(data)), seen(midi.loads(data, channel=c))


def crowd_write(s, i):
    content = [((i, 64), (36 + i % 50, (1 + i % 7, 16), (i % 101) / 100)), ((i % 17, 8), (20 + i % 31, (1, 4), 0.5))]
    return s.writer.dumps(build(content, (1 + i % 200, 4)))


CROWDS = {
    'parse': lambda s, i: Tone.from_notation('CDEFGAB'[i % 7] + '#' * (i // 7 % 3) + str(i // 21 - 400)).pitch,
    'parse bad': lambda s, i: fail(raises(Tone.from_notation, f'C{i}x')),
    'tone': lambda s, i: (str(Tone(i - 2000)), Tone(i - 2000).to_notation(True), Tone(i - 2000).octave, Tone(i - 2000).transposed(5).pitch),
    'frequency': lambda s, i: (Tone(i % 1000 - 400).to_frequency(), Tone(57).to_frequency(400.0 + i)),
    'signature': lambda s, i: (repr(Signature(i, 64).normalized()), [repr(Signature(i % 256, 2 ** k).normalized()) for k in (i % 5, 20 + i % 7)],
                               repr(Signature(i, 64) + Signature(3, 8)), repr(Signature(i, 4).to(256)),
                               Signature(i, 8) < Signature(1000, 4), Signature(i, 16) == Signature(2 * i, 32), str(Signature(i, 2) * Signature(i, 4))),
    'note': lambda s, i: (repr(Note(i, (i, 8), (i % 1001) / 1000)), see_note(Note(5, (1, 4), 0.5).transposed(i)), Note(i) < Note(i + 1), Note(i) == Note(i)),
    'chord': lambda s, i: [see_note(n) for n in chord.min(i - 1000, (i % 50, 16))],
    'compare': lambda s, i: (build([((i, 8), (1, (1, 4), 0.5))]) == build([((i + i % 2, 8), (1, (1, 4), 0.5))]), str(build([((i, 8), (1, (1, 4), 0.5))] * (i % 3)))),
    'read': crowd_read,
    'write': crowd_write,
    'read bad': lambda s, i: fail(raises(s.reader.loads, s.file[:i % len(s.file)] + bytes([i % 256]))),
    'write bad': lambda s, i: fail(raises(s.writer.dumps, build([((i, 4), (i + 200, (1, 4), 0.5))]))),
    'randomize': lambda s, i: randomize_default(build([((i, 4), (i, (1, 4), 0.5))]), mean=(i % 11) / 10, variance=(i + 1) / 10 ** 5),
    'files': lambda s, i: (to_file(midi.dump, s.track, bpm=60.0 + i % 700, channel=i % 16), seen(midi.load(io.BytesIO(note_file(key=i % 128)))), midi.dumps(s.other, 30.0 + i)),
    'settings': lambda s, i: (MIDIWriter(pulses_per_quarter=1 + i % 32767, middle_c=36 + i % 5, bpm=100.0 + i).dumps(s.track), seen(MIDIReader(i % 90).loads(s.file))),
}


# ---------------------------------------------------------------- short operations for deep interleavings (C17)

class Small:
    """Few and small shared objects: short operations, of which all interleavings with two preemptions can be run."""
    CONTENT = [((1, 4), (41, (1, 8), 0.5)), ((0, 1), (36, (1, 1), 1.0))]

    def __init__(self):
        self.track = build(self.CONTENT, (3, 4))          # not sorted yet: whoever reads first may have work to do
        self.twin = build(self.CONTENT[::-1], (3, 4))
        self.one = build(self.CONTENT[:1])
        self.writer, self.reader = MIDIWriter(), MIDIReader()
        self.a, self.b = Note(36, (2, 8), 0.5), Note(36, (1, 4), 0.25)
        self.tone, self.signature = Tone(61), Signature(6, 8)
        self.file = model.smf(b'\x00\x90\x3c\x40\x60\x3c\x00' + model.END)
        self.file2 = model.smf(b'\x00\xff\x58\x04\x03\x02\x18\x08\x30\x91\x3e\x41\x60\x81\x3e\x00' + model.END)

    def digest(self):
        return (seen(self.track), seen(self.twin), seen(self.one), see_note(self.a), see_note(self.b), self.tone.pitch, frac(self.signature))


SMALL = {
    'length': lambda s: frac(s.track.length),
    'len': lambda s: (len(s.track), str(s.track)),
    'iterate': lambda s: see(s.track),
    'equal': lambda s: s.track == s.twin,
    'equal back': lambda s: s.twin == s.track,
    'different': lambda s: s.track != s.one,
    'repr': lambda s: repr(s.track),
    'repr one': lambda s: repr(s.one),
    'dump': lambda s: s.writer.dumps(s.one),
    'dump 2': lambda s: s.writer.dumps(s.track),
    'load': lambda s: seen(s.reader.loads(s.file)),
    'load 2': lambda s: seen(s.reader.loads(s.file2)),
    'notes': lambda s: (s.a < s.b, s.a == s.b, sorted([s.a, s.b])[0] is s.b, repr(s.a)),
    'derive': lambda s: (see_note(s.a.transposed(1)), see_note(s.a.with_velocity(1.0)), see_note(s.b.with_duration((1, 2)))),
    'signature': lambda s: (frac(s.signature + s.a.duration), s.signature < s.b.duration, repr(s.signature.normalized()), repr(s.signature.to(16))),
    'tone': lambda s: (s.tone.to_notation(), s.tone.to_notation(True), s.tone.octave, s.tone.to_frequency(432.0), Tone.from_notation('Bb-1').pitch),
    'chord': lambda s: [see_note(n) for n in chord.maj(s.a)],
    'add': lambda s: seen(Track((3, 4), [(s.a, (1, 8)), (s.b, None)])),
}
