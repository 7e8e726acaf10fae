"""C08 Written files are valid standard MIDI files which say what the track says."""
from fractions import Fraction
from itertools import combinations_with_replacement, product

from mc import model
from mc.real import MIDIWriter, Signature, Tone, build, midi, raises, ref_note

ID = 'C08'
RULE = ('every track of up to K notes over a domain of colliding positions, durations, pitches and velocities (grid '
        'and off-grid) x writer configurations; sweeps over every pitch x middle C form, every channel, every '
        'resolution 1..32767, every time signature, tempo ranges, every gap 0..N pulses plus all variable-length '
        'boundaries, velocities, note counts. Oracle: a strict decoder written from the file specification; the '
        'decoded events must be exactly the expected multiset, and what a synthesizer plays must be the notes. A '
        'state is a distinct decoded event list.')
ASSUMPTIONS = ['the release velocity and the metronome click byte are not constrained',
               'velocities round down after scaling by 127, times round down to pulses']

WHERES = ((0, 1), (1, 4), (3, 8), (2, 4), (1, 256), (5, 1024))
LENGTHS = ((1, 4), (1, 8), (0, 1), (3, 512), (2, 1))
PITCHES = (36, 37)
VELOCITIES = (0.75, 1.0)
ITEMS = [(w, (p, l, v)) for p, w, l, v in product(PITCHES, WHERES, LENGTHS, VELOCITIES) if v == 1.0 or p == 36]
FEW = ITEMS[::4]
CONFIGS = [dict(), dict(pulses_per_quarter=1, channel=15), dict(pulses_per_quarter=480, middle_c='C4', bpm=90.5),
           dict(pulses_per_quarter=32767, middle_c=36, channel=9), dict(pulses_per_quarter=24, bpm=999, channel=1)]
SIMPLE = [((0, 1), (36, (1, 4), 1.0)), ((1, 4), (40, (3, 8), 0.5)), ((1, 4), (36, (1, 16), 0.75)), ((2, 1), (43, (1, 1), 0.3))]


def LARGE(case):
    return case[0] == 'size' and case[1] > 4000 or case[0] == 'product'


def cases(tier):
    quick = tier == 'quick'
    for ci in range(len(CONFIGS)):
        for k in range(0, 3):
            for content in combinations_with_replacement(ITEMS, k):
                yield 'set', ci, content
    for p in range(-40, 140):
        yield 'pitch', p
    for m in list(range(-300, 301, 7)) + [s * 2 ** k for k in (10, 15, 31, 63) for s in (1, -1)]:
        yield 'shift', m
    for c in range(16):
        yield 'channel', c
    for start in range(1, 32768, 64):
        yield 'ppq', start
    for n in range(256):
        yield 'signature', n
    for start in range(4, 1200, 4):
        yield 'bpm', start
    for start in range(0, 20480 if quick else 131072, 256):
        yield 'gap', start, 256
    for k in (7, 8, 14, 15, 16, 21, 22, 24):
        yield 'gap', 2 ** k - 128, 256
    yield 'gap', 2 ** 28 - 200, 200
    yield 'gap', 2 ** 28, 64
    yield 'gap', 2 ** 35 - 32, 64
    for start in range(0, 1001, 8):
        yield 'velocity', start
    for n in range(0, 200 if quick else 600):
        yield 'size', n, 96
    for n in (255, 256, 257, 1000, 4096, 8185, 8186, 8192, 8193, 140000) + (() if quick else (65536, 270000)):
        yield 'size', n, 480
    for t in range(0, 60 if quick else 400):
        yield 'fine', t
    for n in range(1, 41):
        yield 'late', n
    for which in model.PRODUCTS:
        for channel in range(16) if which == 'levels' or not quick else (0, 6, 9):
            yield 'product', which, channel
    for channel in range(16):
        yield 'config', channel
    for content in combinations_with_replacement(FEW if quick else ITEMS[::2], 3):
        yield 'set', 0, content
    if not quick:
        for content in combinations_with_replacement(ITEMS[::6], 4):
            yield 'set', 2, content


def check(content, config, signature, ctx, data=None, ordered=True):
    ppq = config.get('pulses_per_quarter', 96)
    channel = config.get('channel', 0)
    bpm = config.get('bpm', 120.0)
    middle = config.get('middle_c', 36)
    middle = middle.pitch if isinstance(middle, Tone) else \
        model.parse_notation(middle) if isinstance(middle, str) else middle
    if data is None:
        data = MIDIWriter(**config).dumps(build(content, signature))
    ctx.step()
    if type(data) is not bytes:
        return f'dumps returned {type(data)}'
    try:
        division, events = model.decode(data)
    except model.BadFile as e:
        return f'not a valid file: {e}: {data[:300].hex()}'
    if division != ppq:
        return f'division is {division}, must be {ppq}'
    notes = [e for e in events if e[1] in ('on', 'off')]
    meta = [e for e in events if e[1] == 'meta']
    if len(notes) + len(meta) != len(events) or sorted(e[2] for e in meta) != [0x2f, 0x51, 0x58]:
        return f'unexpected events: {[e for e in events if e not in notes][:20]}'
    first_note = next((i for i, e in enumerate(events) if e[1] in ('on', 'off')), len(events))
    for e in meta[:-1]:
        if e[0] != 0 or events.index(e) > first_note:
            return f'meta event {e} is not at the beginning'
    if notes and meta[-1][0] != notes[-1][0] or not notes and meta[-1][0] != 0:
        return f'the track ends at {meta[-1][0]}'
    body = next(e[3] for e in meta if e[2] == 0x58)
    if len(body) != 4 or (body[0], body[1], body[3]) != (signature[0], signature[1].bit_length() - 1, 8):
        return f'time signature event is {body.hex()} for {signature}'
    body = next(e[3] for e in meta if e[2] == 0x51)
    tempo = int.from_bytes(body, 'big')
    if len(body) != 3 or abs(tempo - Fraction(60000000) / Fraction(bpm)) >= 1:
        return f'tempo is {tempo} for {bpm} beats per minute'
    want, played = [], []
    items = [(Fraction(*w), ref_note(s)) for w, s in content]
    for position, (pitch, duration, velocity) in items:
        start = model.pulses(position, ppq)
        end = start + model.pulses(duration, ppq)
        key, level = pitch - middle + 60, int(velocity * 127)
        want.append((start, 'on', channel, key, level) if level else (start, 'off', channel, key))
        want.append((end, 'off', channel, key))
        played.append((start, end, channel, key, level))
    if sorted(map(repr, notes)) != sorted(map(repr, want)):
        return f'note events are {sorted(notes)[:12]}, must be {sorted(want)[:12]} (pulses, kind, channel, key, velocity)'
    loud = all(p[4] for p in played)
    if loud and not model.overlaps(items):
        if model.sounding(events) != sorted(played):
            return f'a synthesizer plays {model.sounding(events)}, must be {sorted(played)}; events {events}'
        ctx.outcome(f'{min(len(items), 5)} notes played')
    else:
        ctx.outcome('overlapping or silent')
    ctx.state(hash(tuple(map(repr, events))))
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'set':
        return check(case[2], CONFIGS[case[1]], (4, 4), ctx)
    if kind == 'pitch':
        p = case[1]
        for middle in (36, 'C3', Tone(36), 48, 'C4', Tone(60), 0, -12, 'C-1', 'B2', 'Db3', 'Cb3', 'B#2'):
            m = middle.pitch if isinstance(middle, Tone) else \
                model.parse_notation(middle) if isinstance(middle, str) else middle
            if 0 <= p - m + 60 <= 127:
                message = check([((1, 4), (p, (1, 4), 1.0)), ((1, 2), (p, (1, 8), 0.5))], {'middle_c': middle}, (4, 4), ctx)
                if message:
                    return message
        return None
    if kind == 'shift':
        for middle in (case[1], Tone(case[1]), model.notation(case[1]), model.notation(case[1], True)):
            for key in (0, 1, 59, 60, 61, 126, 127):
                p = key - 60 + case[1]
                message = check([((1, 4), (p, (1, 4), 1.0)), ((1, 2), (p, (1, 8), 0.5))], {'middle_c': middle}, (4, 4), ctx)
                if message:
                    return message
        return None
    if kind == 'channel':
        for config in ({}, {'pulses_per_quarter': 960, 'bpm': 60.0}):
            for n in range(len(SIMPLE) + 1):
                message = check(SIMPLE[:n], dict(config, channel=case[1]), (3, 4), ctx)
                message = message or check(SIMPLE[:n], {'channel': case[1], 'bpm': 77.0}, (3, 4), ctx,
                                           midi.dumps(build(SIMPLE[:n], (3, 4)), bpm=77.0, channel=case[1]))
                if message:
                    return message
        return None
    if kind == 'ppq':
        for ppq in range(case[1], min(case[1] + 64, 32768)):
            message = check(SIMPLE, {'pulses_per_quarter': ppq}, (4, 4), ctx)
            if message:
                return f'pulses_per_quarter {ppq}: {message}'
        return None
    if kind == 'signature':
        for dd in list(range(0, 13)) + [15, 16, 31, 32, 63, 64, 127, 128, 255]:
            message = check(SIMPLE[:1], {}, (case[1], 2 ** dd), ctx)
            if message:
                return f'signature {case[1]}/2^{dd}: {message}'
        return None
    if kind == 'bpm':
        for k in range(4):
            for bpm in (case[1] + k, float(case[1] + k), case[1] + k + 0.37):
                message = check(SIMPLE[:1], {'bpm': bpm}, (4, 4), ctx)
                if message:
                    return f'bpm {bpm}: {message}'
        if case[1] == 4:
            for bpm in (3.5763, 3.6, 60, 120, 119.999, 5000.0, 30000000.0, 60000000):
                message = check(SIMPLE[:1], {'bpm': bpm}, (4, 4), ctx)
                if message:
                    return f'bpm {bpm}: {message}'
        return None
    if kind == 'gap':
        for t in range(case[1], case[1] + case[2]):
            # 256 pulses per whole note: position (t, 256) is exactly pulse t
            for content in ([((t, 256), (36, (1, 4), 1.0))], [((0, 1), (36, (t, 256), 1.0)), ((t, 256), (36, (1, 1), 1.0))]):
                error, data = raises(MIDIWriter(pulses_per_quarter=64).dumps, build(content))
                if t >= 2 ** 28 and isinstance(error, ValueError):
                    ctx.outcome('delay refused')
                    continue
                if error is not None:
                    return f'gap of {t} pulses: {error!r}'
                message = check(content, {'pulses_per_quarter': 64}, (4, 4), ctx, data)
                if message:
                    return f'gap of {t} pulses: {message}'
        return None
    if kind == 'velocity':
        for k in range(case[1], min(case[1] + 8, 1001)):
            values = [k / 1000] + ([k / 127] if k <= 127 else [])
            # a hair below and above a step
            values += [v for e in (1e-12, 1e-10, 1e-7, 1e-5, 1e-4, 1e-3) for s in (-e, e) for v in [k / 127 + s] if 0 <= v <= 1]
            for v in values:
                message = check([((0, 1), (36, (1, 4), v)), ((1, 4), (36, (1, 4), 1.0))], {}, (4, 4), ctx)
                if message:
                    return f'velocity {v}: {message}'
        return None
    if kind == 'fine':
        # times a hair before and after a pulse
        t = case[1]
        for e in (12, 24, 40, 53, 60, 80, 200):
            for ppq in (64, 2 ** 14):
                whole = 4 * ppq
                for k in (t, 1000 * t + 1, 2 ** 20 + t):
                    for delta in (-1, 0, 1):
                        n = k * 2 ** e + delta
                        if n < 0:
                            continue
                        for content in ([((n, whole * 2 ** e), (36, (1, 4), 1.0))], [((1, 4), (36, (n, whole * 2 ** e), 1.0))],
                                        [((n, whole * 2 ** e), (36, (n, whole * 2 ** e), 1.0))], [((n, whole * 2 ** e), (36, (2 ** (e + 1) - delta, whole * 2 ** e), 1.0))]):
                            message = check(content, {'pulses_per_quarter': ppq}, (4, 4), ctx)
                            if message:
                                return f'{n}/{whole * 2 ** e}: {message}'
        return None
    if kind == 'product':
        middle = (36, 'C4', 0, Tone(47), -7)[case[2] % 5]
        shift = model.parse_notation(middle) if isinstance(middle, str) else 47 if isinstance(middle, Tone) else middle
        content = [((start, 256), (key - 60 + shift, (length, 256), level / 127)) for start, length, key, level in model.notes_in_turn(case[1])]
        message = check(content, {'pulses_per_quarter': 64, 'channel': case[2], 'middle_c': middle}, (4, 4), ctx)
        return message and f'every combination ({case[1]}), channel {case[2]}: {message[:2000]}'
    if kind == 'config':
        # every combination of settings
        for middle, ppq, bpm, signature in product((36, 'C4', 0, Tone(47), 90), (1, 24, 96, 255, 256, 480, 960, 32767), (4, 33.3, 120, 120.0, 999),
                                                   ((4, 4), (3, 4), (6, 8), (5, 2), (0, 1), (12, 16))):
            m = 48 if isinstance(middle, str) else 47 if isinstance(middle, Tone) else middle
            config = {'channel': case[1], 'middle_c': middle, 'pulses_per_quarter': ppq, 'bpm': bpm}
            message = check([(w, (s[0] - 36 + m, s[1], s[2])) for w, s in SIMPLE], config, signature, ctx)
            if message:
                return f'{config}, {signature}: {message}'
        return None
    if kind == 'late':
        # every gap is allowed, the sum goes beyond 28, 32 and 33 bits
        for gap in (2 ** 28 - 1, 2 ** 27 + 5):
            content = [((k * gap, 256), (36 + k % 3, (gap if k % 2 else 1, 256), 1.0)) for k in range(1, case[1] + 1)]
            message = check(content, {'pulses_per_quarter': 64}, (4, 4), ctx)
            if message:
                return f'{case[1]} notes {gap} pulses apart: {message}'
            # the same pulses on the finest grid
            content = [((k * gap, 16384), (36 + k % 3, (gap if k % 2 else 1 + k, 16384), 1.0)) for k in range(1, case[1] + 1)]
            message = check(content, {'pulses_per_quarter': 4096}, (4, 4), ctx)
            if message:
                return f'{case[1]} notes {gap} pulses of 1/16384 apart: {message}'
        return None
    n, ppq = case[1], case[2]
    content = [((n % 3 + k * 5 % (n or 1), 16), (20 + (k * 7) % 60, (1 + k % 5, 32), 1.0 - (k % 10) / 20)) for k in range(n)]
    for config in ({'pulses_per_quarter': ppq}, {'pulses_per_quarter': 7, 'channel': 3}):
        message = check(content, config, (7, 8), ctx)
        if message:
            return f'{n} notes: {message}'
        if n > 5000:
            break
    return None
