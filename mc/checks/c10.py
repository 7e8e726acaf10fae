"""C10 Quantisation error is bounded and does not accumulate over write/read cycles."""
from fractions import Fraction
from itertools import combinations_with_replacement, product

from mc import model
from mc.real import MIDIReader, MIDIWriter, build, ref_items, see

ID = 'C10'
RULE = ('every track of up to K non-overlapping notes with positions, durations and velocities off the pulse grid x '
        'resolutions; every file with a note at every pulse 0..N x resolution, and for every resolution 1..32767 a '
        'fixed file with triplets and odd pulses; files of 4000 and 60000 notes with the longest delays (times up to 2^43 pulses); each taken through C write/read cycles. Oracle: bounds of one pulse '
        'and one velocity step against the original; equal decoded content (notes in pulses, meta events) between cycles. A state is a distinct byte string.')
ASSUMPTIONS = ['no two notes of one pitch overlap, velocities are at least 1/127',
               'above 4096 pulses per quarter the reader\'s grid of 1/16384 is coarser than a pulse: there the first '
               'cycle may move an event by the size of that grid, and later ones by nothing']

WHERES = ((0, 1), (1, 256), (1, 512), (5, 1024), (341, 4096), (1, 4), (21845, 65536), (2 ** 20 + 1, 2 ** 18))
LENGTHS = ((1, 256), (3, 512), (85, 1024), (1, 4), (1, 65536), (21845, 65536))
ITEMS = [(w, (p, l, v)) for p, v in ((36, 0.75), (40, 0.011)) for w in WHERES for l in LENGTHS]
PPQS = (96, 1, 7, 24, 100, 120, 384, 480, 960, 1000, 4095, 4096, 4097, 10000, 16384, 32767)


def LARGE(case):
    return case[0] in ('far', 'product')


def cases(tier):
    quick = tier == 'quick'
    for ppq in PPQS:
        for item in ITEMS:
            yield 'set', ppq, (item,)
    for ppq in PPQS[::1 if not quick else 3]:
        for content in combinations_with_replacement(ITEMS, 2):
            if not model.overlaps(ref_items(content)):
                yield 'set', ppq, content
    for start in range(1, 32768, 32):
        yield 'ppqs', start
    for ppq in PPQS:
        for start in range(0, 2048 if quick else 16384, 128):
            yield 'ticks', ppq, start
    for k in range(1, 1001, 5):
        yield 'velocity', k
    for n in range(1, 60 if quick else 300):
        yield 'triplets', n
    for ppq in (1, 3, 96, 97, 480, 1000, 3000, 4095, 4096):
        for gap in (2 ** 28 - 7, 2 ** 27 + 1, 200000001):
            yield 'far', ppq, gap, 4000 if quick else 100000
    for ppq in (96, 1021, 3999, 4093, 4095, 4089):
        yield 'far', ppq, 2 ** 28 - 7, 60000
    for which in model.PRODUCTS:
        for ppq in (96, 7, 480, 4095):
            yield 'product', which, ppq
    if not quick:
        for content in combinations_with_replacement(ITEMS[::2], 3):
            if not model.overlaps(ref_items(content)):
                yield 'set', 96, content


def cycles(data, ppq, ctx, n=4):
    """[bytes after 0, 1, ... write/read cycles]"""
    result = [data]
    for _ in range(n):
        result.append(MIDIWriter(pulses_per_quarter=ppq).dumps(MIDIReader().loads(result[-1])))
        ctx.step(2)
        ctx.state(result[-1])
    return result


def said(data):
    """What a file says. Events of one pulse may trade places: two notes of one pulse need not have had one position."""
    division, events = model.decode(data)
    return division, [e for e in events if e[1] not in ('on', 'off')], model.sounding(events)


def stable(data, ppq, ctx):
    steps = cycles(data, ppq, ctx)
    first = 0 if ppq <= 4096 else 1
    for i in range(first, len(steps) - 1):
        if said(steps[i]) != said(steps[i + 1]):
            return f'{ppq} pulses: cycle {i + 1} turns {steps[i].hex()} into {steps[i + 1].hex()}'
    return None


def check(content, ppq, ctx):
    items = ref_items(content)
    track = build(content)
    data = MIDIWriter(pulses_per_quarter=ppq).dumps(track)
    back = see(MIDIReader().loads(data))
    pulse = Fraction(1, 4 * ppq)
    slack = Fraction(1, 16384)
    if len(back) != len(items):
        return f'{len(items)} notes written, {len(back)} read'
    # notes are matched per pitch, in order
    for pitch in {n[0] for _, n in items}:
        a = [(p, n) for p, n in items if n[0] == pitch]
        b = [(p, n) for p, n in back if n[0] == pitch]
        if len(a) != len(b):
            return f'{len(a)} notes with pitch {pitch} written, {len(b)} read'
        for (p, n), (q, m) in zip(a, b):
            ctx.step()
            if abs(p - q) >= max(pulse, slack) + (slack if pulse < slack else 0):
                return f'{ppq} pulses: position {p} came back as {q}'
            if abs(n[1] - m[1]) >= max(pulse, slack) + (slack if pulse < slack else 0):
                return f'{ppq} pulses: duration {n[1]} came back as {m[1]}'
            if not 0 <= n[2] - m[2] < 1 / 127 and abs(n[2] - m[2]) > 1e-9:
                return f'velocity {n[2]} came back as {m[2]}'
    ctx.outcome(f'{len(items)} notes, {"exact" if back == items else "rounded"}')
    return stable(data, ppq, ctx)


def file_of(ticks, ppq):
    """A file with a note from each tick to the next; the events are given in pulses."""
    events, last = b'', 0
    for i, (a, b) in enumerate(zip(ticks, ticks[1:])):
        events += model.var_len(a - last) + bytes([0x90, 60 + i % 3, 100])
        events += model.var_len(b - a) + bytes([0x80, 60 + i % 3, 64])
        last = b
    return model.smf(b'\x00\xff\x58\x04\x04\x02\x18\x08\x00\xff\x51\x03\x07\xa1\x20' + events + model.END, ppq)


def foreign(ticks, ppq, ctx):
    data = file_of(ticks, ppq)
    _, want = model.decode(data)
    steps = cycles(data, ppq, ctx, 3)
    notes = [[e for e in model.decode(s)[1] if e[1] in ('on', 'off')] for s in steps]
    if ppq <= 4096:
        for i, n in enumerate(notes):
            if model.sounding(n) != model.sounding(want):
                return f'{ppq} pulses: after {i} cycles the events are {n[:8]}, must be {want[2:10]}'
    else:
        for i in range(1, len(notes) - 1):
            if notes[i] != notes[i + 1]:
                return f'{ppq} pulses: cycle {i + 1} moves {notes[i][:8]} to {notes[i + 1][:8]}'
        limit = ppq // 4096 + 2
        for x, y in zip(model.sounding(notes[0]), model.sounding(notes[1]) or []):
            if abs(x[0] - y[0]) > limit or abs((x[1] - x[0]) - (y[1] - y[0])) > limit:
                return f'{ppq} pulses: note {x} became {y}'
    ctx.outcome('foreign file')
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'set':
        return check(case[2], case[1], ctx)
    if kind == 'ppqs':
        for ppq in range(case[1], min(case[1] + 32, 32768)):
            ticks = sorted({0, 1, 2, ppq // 3, 2 * ppq // 3, ppq, ppq + 1, 5 * ppq // 7 + 3 * ppq, 12 * ppq - 1, 100 * ppq + 1})
            message = foreign(ticks, ppq, ctx) if ppq <= 4096 else stable(file_of([0, 4 * ppq, 8 * ppq], ppq), ppq, ctx)
            message = message or check([((1, 256), (36, (3, 512), 0.75)), ((341, 1024), (36, (1, 8), 0.5))], ppq, ctx)
            if message:
                return message
        return None
    if kind == 'ticks':
        ppq, start = case[1], case[2]
        for t in range(start, start + 128):
            message = foreign([t, t + 1 + t % 7, 2 * t + 9], ppq, ctx)
            if message:
                return message
        return None
    if kind == 'velocity':
        for k in range(case[1], case[1] + 5):
            v = k / 1000
            if v >= 1 / 127 and v <= 1:
                message = check([((0, 1), (36, (1, 4), v))], 96, ctx)
                if message:
                    return message
        return None
    if kind == 'far':
        # positions beyond what a float can hold; every event moves the time by almost the longest delay
        _, ppq, gap, n = case
        data = file_of([k * gap + k % 7 for k in range(n + 1)], ppq)
        want = model.sounding(model.decode(data)[1])
        for i in (1, 2):
            data = MIDIWriter(pulses_per_quarter=ppq).dumps(MIDIReader().loads(data))
            got = model.sounding(model.decode(data)[1])
            ctx.step(2 * n)
            if got != want:
                wrong = [(x, y) for x, y in zip(want, got or []) if x != y][:3]
                return f'{ppq} pulses, {n} notes {gap} pulses apart: after {i} cycles {wrong}'
        ctx.outcome('far')
        return None
    if kind == 'product':
        _, which, ppq = case
        events, last = [], 0
        for start, length, key, level in model.notes_in_turn(which):
            events += [model.var_len(start - last), bytes([0x93, key, level]), model.var_len(length), bytes([0x83, key, 64])]
            last = start + length
        data = model.smf(b''.join(events) + model.END, ppq)
        want = [x[:2] + x[3:] for x in model.sounding(model.decode(data)[1])]
        for i in (1, 2, 3):
            data = MIDIWriter(pulses_per_quarter=ppq).dumps(MIDIReader().loads(data))
            got = [x[:2] + x[3:] for x in model.sounding(model.decode(data)[1]) or []]
            ctx.step(2 * len(want))
            if got != want:
                wrong = [(x, y) for x, y in zip(want, got) if x != y][:3]
                return f'{ppq} pulses, every combination ({which}): after {i} cycles {wrong}'
        ctx.outcome('every combination')
        return None
    n = case[1]
    for ppq in (96, 480, 24, 3):
        message = foreign([k * ppq // 3 for k in range(n + 1)], ppq, ctx)
        if message:
            return message
    return None
