"""
Reference models. Written from the documentation, the MIDI 1.0 file specification and music theory; nothing here
imports melodia, and no comparison below goes through melodia's own operators.
"""
from fractions import Fraction

LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
SHARP_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
FLAT_NAMES = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


# ---------------------------------------------------------------- tones

def parse_notation(text):
    """Pitch of a notation string, or None when it is not one. Table-driven automaton over the characters."""
    state, pitch, digits, sign = 'start', 0, '', 1
    for ch in text:
        if state == 'start':
            if ch not in LETTERS:
                return None
            pitch, state = LETTERS[ch], 'letter'
        elif state == 'letter' and ch in '#b':
            pitch += 1 if ch == '#' else -1
        elif state == 'letter' and ch == '-':
            sign, state = -1, 'minus'
        elif state in ('letter', 'minus', 'digits') and ch in '0123456789':
            digits, state = digits + ch, 'digits'
        else:
            return None
    if state in ('start', 'minus'):
        return None
    return pitch + 12 * sign * int(digits or '0')


def notation(pitch, flats=False):
    octave, step = divmod(pitch, 12)
    return (FLAT_NAMES if flats else SHARP_NAMES)[step] + str(octave)


# ---------------------------------------------------------------- chords (semitones above the base)

CHORDS = {
    'major maj': (0, 4, 7),
    'minor min': (0, 3, 7),
    'augmented aug': (0, 4, 8),
    'diminished dim': (0, 3, 6),
    'suspended4 sus4': (0, 5, 7),
    'suspended2 sus2': (0, 2, 7),
    'major7 maj7': (0, 4, 7, 11),
    'minor7 min7': (0, 3, 7, 10),
    'dominant7 dom7': (0, 4, 7, 10),
    'dominant7b5 dom7b5': (0, 4, 6, 10),
    'diminished7 dim7': (0, 3, 6, 9),
    'minor7b5 min7b5': (0, 3, 6, 10),
    'diminished_major7': (0, 3, 6, 11),
    'minor_major7': (0, 3, 7, 11),
    'augmented_major7 major7s5 maj7s5': (0, 4, 8, 11),
    'augmented_minor7 augmented7 aug7': (0, 4, 8, 10),
    'major9 maj9': (0, 4, 7, 11, 14),
    'minor9 min9': (0, 3, 7, 10, 14),
    'dominant9 dom9': (0, 4, 7, 10, 14),
    'dominant_minor9 min7b9': (0, 4, 7, 10, 13),
    'minor69 min69': (0, 4, 7, 9, 14),
    'added9 add9': (0, 4, 14),
    'major11 maj11': (0, 4, 7, 11, 14, 17),
    'minor11 min11': (0, 3, 7, 10, 14, 17),
    'dominant11 dom11': (0, 4, 7, 10, 14, 17),
}
CHORD_TABLE = {name: steps for names, steps in CHORDS.items() for name in names.split()}


# ---------------------------------------------------------------- tracks

class RefTrack:
    """A list of (position, note); a note is (pitch, duration, velocity)."""

    def __init__(self):
        self.items = []

    @property
    def length(self):
        return max([p + n[1] for p, n in self.items], default=Fraction(0))

    def add(self, notes, where=None):
        position = self.length if where is None else where
        for note in notes:
            self.items.append((position, note))

    def sorted(self):
        return sorted(self.items)


# ---------------------------------------------------------------- standard MIDI files

class BadFile(Exception):
    pass


def var_len(x):
    """Variable-length quantity, most significant group first."""
    groups = [x % 128]
    x //= 128
    while x:
        groups.append(128 + x % 128)
        x //= 128
    return bytes(reversed(groups))


def chunk(kind, body):
    return kind + len(body).to_bytes(4, 'big') + body


def header(division=96, kind=0, tracks=1):
    return chunk(b'MThd', kind.to_bytes(2, 'big') + tracks.to_bytes(2, 'big') + division.to_bytes(2, 'big'))


def smf(body, division=96):
    return header(division) + chunk(b'MTrk', body)


END = b'\x00\xff\x2f\x00'
_DATA_BYTES = {8: 2, 9: 2, 10: 2, 11: 2, 12: 1, 13: 1, 14: 2}


def decode(data):
    """
    Strict decoder of a format 0 file, by the specification. Returns (division, events), where events are
    (absolute tick, kind, ...): ('on', channel, pitch, velocity), ('off', channel, pitch), ('meta', type, body),
    ('sysex', ...), ('other', status, data). Raises BadFile for anything the specification does not allow.
    """
    def need(cond, what):
        if not cond:
            raise BadFile(what)

    chunks, i = [], 0
    while i < len(data):
        need(len(data) - i >= 8, 'incomplete chunk header')
        size = int.from_bytes(data[i + 4:i + 8], 'big')
        need(len(data) - i - 8 >= size, 'chunk longer than the file')
        chunks.append((data[i:i + 4], data[i + 8:i + 8 + size]))
        i += 8 + size
    need([k for k, _ in chunks] == [b'MThd', b'MTrk'], f'chunks are {[k for k, _ in chunks]}')
    head, body = chunks[0][1], chunks[1][1]
    need(len(head) == 6, 'header length is not 6')
    kind, tracks, division = (int.from_bytes(head[j:j + 2], 'big') for j in (0, 2, 4))
    need(kind == 0 and tracks == 1, f'format {kind}, {tracks} tracks')
    need(1 <= division <= 0x7fff, f'division {division}')

    pos, now, running = 0, 0, None
    events = []

    def byte():
        nonlocal pos
        need(pos < len(body), 'track data ends inside an event')
        pos += 1
        return body[pos - 1]

    def quantity():
        value = 0
        for k in range(4):
            b = byte()
            value = value * 128 + (b & 127)
            if b < 128:
                need(not (k and value < 128 ** k), 'variable-length quantity is not minimal')
                return value
        raise BadFile('variable-length quantity longer than four bytes')

    while True:
        now += quantity()
        first = byte()
        if first == 0xff:
            running = None
            type_, size = byte(), quantity()
            need(type_ < 128, 'meta type above 127')
            need(len(body) - pos >= size, 'meta event longer than the track')
            payload = body[pos:pos + size]
            pos += size
            events.append((now, 'meta', type_, payload))
            if type_ == 0x2f:
                need(size == 0, 'end of track with a body')
                need(pos == len(body), 'data after the end of track event')
                return division, events
        elif first in (0xf0, 0xf7):
            running = None
            size = quantity()
            need(len(body) - pos >= size, 'system exclusive event longer than the track')
            events.append((now, 'sysex', body[pos:pos + size]))
            pos += size
        elif first >= 0xf0:
            raise BadFile(f'status {first:#x} is not allowed in a file')
        else:
            if first >= 0x80:
                running, values = first, []
            else:
                need(running is not None, 'running status without a status')
                values = [first]
            while len(values) < _DATA_BYTES[running >> 4]:
                values.append(byte())
            need(all(v < 128 for v in values), 'data byte above 127')
            channel = running & 15
            if running >> 4 == 9 and values[1] > 0:
                events.append((now, 'on', channel, values[0], values[1]))
            elif running >> 4 in (8, 9):
                events.append((now, 'off', channel, values[0]))
            else:
                events.append((now, 'other', running, tuple(values)))


def judge(data):
    """
    What a reader has to do with arbitrary bytes: ('refuse', why); ('accept', division, events) for a file which the
    specification allows, events as from decode(); ('lenient', division, events) where it may refuse, but not read
    anything else; or ('either', why) where the meaning is not defined.
    """
    chunks, i = [], 0
    while i < len(data):
        if len(data) - i < 8:
            return 'refuse', 'incomplete chunk header'
        size = int.from_bytes(data[i + 4:i + 8], 'big')
        if len(data) - i - 8 < size:
            return 'refuse', 'incomplete chunk'
        chunks.append((data[i:i + 4], data[i + 8:i + 8 + size]))
        i += 8 + size
    kinds = [k for k, _ in chunks if k in (b'MThd', b'MTrk')]
    if b'MThd' not in kinds or b'MTrk' not in kinds or kinds[0] != b'MThd':
        return 'refuse', 'header or track is missing, or in the wrong order'
    bodies = {k: [b for kk, b in chunks if kk == k] for k in (b'MThd', b'MTrk')}
    for head in bodies[b'MThd']:
        if len(head) < 6:
            return 'refuse', 'short header'
        kind, tracks, division = (int.from_bytes(head[j:j + 2], 'big') for j in (0, 2, 4))
        if kind != 0 or tracks != 1 or not 1 <= division <= 0x7fff:
            return 'refuse', f'format {kind}, {tracks} tracks, division {division}'
    if len(kinds) > 2:
        return 'either', 'several headers or tracks'
    body = bodies[b'MTrk'][0]
    end = track_end(body)
    if end == 'none':
        return 'refuse', 'no end of track'
    if end == 'unclear':
        return 'either', 'unusual track data'
    try:
        division, events = decode(header(division) + chunk(b'MTrk', body[:end]))
    except BadFile as e:
        return 'either', str(e)
    if any(e[1] == 'meta' and len(e[3]) != {0x58: 4, 0x20: 1}.get(e[2], len(e[3])) for e in events):
        return 'either', 'known meta event of another length'
    # what follows the end of track is not part of it: refused or ignored
    return 'accept' if end == len(body) else 'lenient', division, events


def track_end(body):
    """Offset after the end of track event; 'none' if the data ends before one; 'unclear' if events can not be told apart."""
    pos, running = 0, None
    size = len(body)

    def quantity(pos):
        value = 0
        for k in range(5):
            if pos >= size:
                return 'none', pos
            value = value * 128 + (body[pos] & 127)
            pos += 1
            if body[pos - 1] < 128:
                return value, pos
        return 'unclear', pos

    while True:
        value, pos = quantity(pos)
        if value in ('none', 'unclear'):
            return value
        if pos >= size:
            return 'none'
        first = body[pos]
        if first == 0xff:
            running = None
            if pos + 1 >= size:
                return 'none'
            type_ = body[pos + 1]
            value, pos = quantity(pos + 2)
            if value in ('none', 'unclear'):
                return value
            if type_ == 0x2f:
                return pos if value == 0 else 'unclear'
            pos += value
        elif first in (0xf0, 0xf7):
            running = None
            value, pos = quantity(pos + 1)
            if value in ('none', 'unclear'):
                return value
            pos += value
        elif first > 0xf0:
            return 'unclear'
        elif first >= 0x80:
            running = first
            pos += 1 + _DATA_BYTES[first >> 4]
        elif running is None:
            return 'unclear'
        else:
            pos += _DATA_BYTES[running >> 4]
        if pos > size:
            return 'none'


def pairs(events):
    """Notes [(start, length, channel, key, velocity)] of matching note-on/note-off pairs, for any event list."""
    open_, notes = {}, []
    for event in events:
        if event[1] == 'on':
            open_.setdefault(event[2:4], (event[0], event[4]))
        elif event[1] == 'off' and event[2:4] in open_:
            start, velocity = open_.pop(event[2:4])
            notes.append((start, event[0] - start) + event[2:4] + (velocity,))
    return notes


def sounding(events):
    """What a synthesizer plays: [(on tick, off tick, channel, pitch, velocity)]. None if two notes of one key collide."""
    open_, notes = {}, []
    for event in events:
        if event[1] == 'on':
            key = event[2:4]
            if key in open_:
                return None
            open_[key] = (event[0], event[4])
        elif event[1] == 'off':
            key = event[2:4]
            if key in open_:
                start, velocity = open_.pop(key)
                notes.append((start, event[0]) + key + (velocity,))
    if open_:
        return None
    return sorted(notes)


def pulses(value, ppq):
    """Whole-note fraction to MIDI pulses, rounded down."""
    return (value * 4 * ppq).__floor__()


def ticks_to_whole(ticks, ppq):
    return Fraction(ticks, 4 * ppq)


def overlaps(items):
    """True if two notes of the same pitch overlap as half-open intervals, or one lies inside the other."""
    by_pitch = {}
    for position, (pitch, duration, _) in items:
        by_pitch.setdefault(pitch, []).append((position, position + duration))
    for intervals in by_pitch.values():
        intervals.sort()
        for (_, end), (start, _) in zip(intervals, intervals[1:]):
            if start < end:
                return True
    return False


PRODUCTS = ('levels', 'steps', 'times', 'mixed')


def notes_in_turn(which):
    """Notes one after the other, which contain every combination of two components: [(start, length, key, level)] in pulses."""
    rows = {'levels': ((key, level, (key + level) % 3, 1 + level % 5) for key in range(128) for level in range(1, 128)),
            'steps': (((a, b)[k], 1 + (a + k) % 127, 0, 2) for a in range(128) for b in range(128) for k in (0, 1)),
            'times': ((60, 100, gap, length) for gap in range(128) for length in range(128)),
            'mixed': (((gap * 5 + length * 11) % 128, 1 + (gap * 7 + length) % 127, gap * 3, length) for gap in range(90) for length in range(0, 360, 4))}[which]
    now, result = 0, []
    for key, level, gap, length in rows:
        result.append((now + gap, length, key, level))
        now += gap + length
    return result
