"""C09 Writing and reading back returns the same track."""
import io
from fractions import Fraction
from itertools import combinations_with_replacement, permutations, product

from mc import model
from mc.real import MIDIReader, MIDIWriter, Signature, Tone, Track, build, frac, midi, raises, ref_items, see

ID = 'C09'
RULE = ('every track of up to K non-overlapping notes on a grid of positions and durations x pitches, in every '
        'insertion order, x codec configurations; sweeps over every key 0..127 x velocity step, every channel, every '
        'resolution 1..32767, time signatures, grid denominators 1..16384, gaps, note counts. Oracle: the content '
        'itself, compared as rationals (and the library\'s own equality). A state is a distinct content.')
ASSUMPTIONS = ['representable tracks only: every position and duration is a whole number of pulses and a multiple of '
               '1/16384, no two notes of one pitch overlap, velocities are k/127 with k >= 1, keys are 0..127, the '
               'nominator of the time signature is at most 255']

GRID = [(k, 16) for k in range(0, 6)]
LENGTHS = [(0, 16), (1, 16), (2, 16), (3, 16)]
ITEMS = [(w, (p, l, v)) for p, v in ((36, 1.0), (40, 64 / 127)) for w in GRID for l in LENGTHS]
CONFIGS = [dict(), dict(pulses_per_quarter=4, middle_c='C4', channel=15, bpm=60.0),
           dict(pulses_per_quarter=480, middle_c=Tone(30), channel=9, bpm=33.3),
           dict(pulses_per_quarter=32764, middle_c=47, channel=1)]
SIMPLE = [((0, 1), (36, (1, 4), 1.0)), ((1, 4), (36, (1, 4), 100 / 127)), ((1, 4), (40, (3, 4), 1 / 127)),
          ((3, 4), (36, (0, 1), 2 / 127)), ((3, 4), (36, (1, 4), 127 / 127)), ((7, 1), (41, (5, 1), 33 / 127))]


def LARGE(case):
    return case[0] == 'size' and case[1] > 4000 or case[0] == 'product'


def cases(tier):
    quick = tier == 'quick'
    for ci in range(len(CONFIGS)):
        for k in range(0, 3):
            for content in combinations_with_replacement(ITEMS, k):
                if not model.overlaps(ref_items(content)):
                    yield 'set', ci, content
    for key in range(128):
        yield 'key', key
    for c in range(16):
        yield 'channel', c
    for m in list(range(-300, 301)) + [s * 2 ** k for k in (10, 15, 31, 63) for s in (1, -1)]:
        yield 'middle', m
    for start in range(1, 32768, 32):
        yield 'ppq', start
    for n in range(256):
        yield 'signature', n
    for e in range(0, 15):
        yield 'grid', e
    for start in range(0, 8192 if quick else 65536, 128):
        yield 'gap', start, 128
    for k in (14, 15, 16, 20, 21, 22, 24, 25):
        yield 'gap', 2 ** k - 64, 128
    yield 'gap', 2 ** 28 - 100, 100
    for n in range(0, 200 if quick else 500):
        yield 'size', n
    for n in (255, 256, 257, 1000, 4097, 8192, 10000, 66000) + (() if quick else (65537, 200000)):
        yield 'size', n
    for n in range(1, 41):
        yield 'late', n
    for which in model.PRODUCTS:
        for channel in range(16) if which == 'levels' or not quick else (0, 9):
            yield 'product', which, channel
    for channel in range(16):
        yield 'config', channel
    for content in combinations_with_replacement(ITEMS[::2] if quick else ITEMS, 3):
        if not model.overlaps(ref_items(content)):
            yield 'set', 0, content
    if not quick:
        for content in combinations_with_replacement(ITEMS[::3], 4):
            if not model.overlaps(ref_items(content)):
                yield 'set', 1, content


def check(content, config, signature, ctx, every_channel=False):
    config = {k: v for k, v in config.items()}
    middle = {'middle_c': config['middle_c']} if 'middle_c' in config else {}
    shift = 0
    if middle:
        m = middle['middle_c']
        shift = (m.pitch if isinstance(m, Tone) else model.parse_notation(m) if isinstance(m, str) else m) - 36
    content = [(w, (s[0] + shift, s[1], s[2])) for w, s in content]
    channel = config.get('channel', 0)
    track = build(content, signature)
    data = MIDIWriter(**config).dumps(track)
    reader = MIDIReader(**middle)
    want = ref_items(content)
    results = [('loads', reader.loads(data)), ('load', reader.load(io.BytesIO(data)))]
    if not middle:
        results += [('midi.loads', midi.loads(data)), ('midi.load', midi.load(io.BytesIO(data)))]
    if want:
        results.append((f'loads(channel={channel})', reader.loads(data, channel=channel)))
        for c in range(16) if every_channel else ((channel + 1) % 16,):
            error, other = raises(reader.loads, data, c)
            if c != channel and type(error) is not ValueError:
                return f'channel {c} was not written, but reading it gives {error!r} {other!r}'
    ctx.step(len(results) + 1)
    for name, back in results:
        if type(back) is not Track or see(back) != want or len(back) != len(want):
            return f'{name} returns {see(back)[:12]}, written was {want[:12]}'
        if frac(back.signature) != Fraction(*signature) or back.signature.nominator != signature[0]:
            return f'{name}: time signature is {back.signature}, written was {signature}'
        if frac(back.length) != max([p + n[1] for p, n in want], default=0):
            return f'{name}: length is {back.length}'
        if not (back == track and track == back) or back != track:
            return f'{name}: the result has the same content, but does not compare equal'
    if see(track) != want:
        return f'the written track changed to {see(track)}'
    ctx.state(tuple(want))
    ctx.outcome(f'{min(len(want), 6)} notes')
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'set':
        orders = [case[2]] if len(case[2]) < 2 else [case[2], tuple(reversed(case[2]))]
        for order in orders:
            message = check(order, CONFIGS[case[1]], (4, 4), ctx)
            if message:
                return message
        return None
    if kind == 'key':
        for k in range(1, 128):
            message = check([((1, 4), (case[1] - 24, (1, 8), k / 127))], {}, (4, 4), ctx)
            if message:
                return message
        for middle in ('C4', 'C3', 0, -5, Tone(100), 'Gb7', 'B#2', 'Cb4', 'B', 'Cb', 'D-1', 'C-2', 'Fb#3', 'C' + 13 * '#', 'A' + 15 * 'b' + '3', Tone(-7)):
            message = check([((1, 4), (case[1] - 24, (1, 8), 1.0))], {'middle_c': middle}, (4, 4), ctx)
            if message:
                return message
        return None
    if kind == 'middle':
        for middle in (case[1], Tone(case[1]), model.notation(case[1])):
            message = check([((k, 4), (key - 24, (1, 8), 1.0)) for k, key in enumerate((0, 1, 60, 100, 126, 127))], {'middle_c': middle}, (4, 4), ctx)
            if message:
                return message
        ctx.outcome('middle C')
        return None
    if kind == 'channel':
        for content in list(permutations(SIMPLE[:4])) + [SIMPLE, SIMPLE[::-1]]:
            message = check(content, {'channel': case[1]}, (5, 8), ctx, True)
            if message:
                return message
        return None
    if kind == 'ppq':
        for ppq in range(case[1], min(case[1] + 32, 32768)):
            message = check(SIMPLE, {'pulses_per_quarter': ppq}, (4, 4), ctx)
            if message:
                return f'pulses_per_quarter {ppq}: {message}'
        return None
    if kind == 'signature':
        for dd in list(range(0, 10)) + [16, 31, 32, 64, 127, 128, 255]:
            for content in ([], SIMPLE[:2]):
                message = check(content, {}, (case[1], 2 ** dd), ctx)
                if message:
                    return f'signature {case[1]}/2^{dd}: {message}'
        return None
    if kind == 'grid':
        e = case[1]
        d = 2 ** e
        for ppq in (2 ** 12, 3 * 2 ** 12, 2 ** 10):
            if 4 * ppq % d:
                continue
            for n in list(range(0, 40)) + [d - 1, d, d + 1, 3 * d + 1, 100 * d - 1, 1000 * d + 1]:
                for m in (1, 2, 3, d - 1 or 1, d + 1):
                    message = check([((n, d), (36, (m, d), 1.0)), ((n + m, d), (36, (1, d), 1.0))],
                                    {'pulses_per_quarter': ppq}, (4, 4), ctx)
                    if message:
                        return f'denominator {d}, {ppq} pulses: {message}'
        return None
    if kind == 'gap':
        for t in range(case[1], case[1] + case[2]):
            message = check([((0, 1), (36, (t, 256), 1.0)), ((t, 256), (36, (1, 1), 1.0)), ((t, 256), (35, (2, 4), 1.0))],
                            {'pulses_per_quarter': 64}, (4, 4), ctx)
            if message:
                return f'gap of {t} pulses: {message}'
        return None
    if kind == 'product':
        content = [((start, 256), (key - 24, (length, 256), level / 127)) for start, length, key, level in model.notes_in_turn(case[1])]
        message = check(content, {'pulses_per_quarter': 64 * (1 + case[2] % 3), 'channel': case[2], **({'middle_c': case[2]} if case[2] % 2 else {})}, (4, 4), ctx)
        return message and f'every combination ({case[1]}), channel {case[2]}: {message[:2000]}'
    if kind == 'config':
        # every combination of settings
        for middle, ppq, bpm, signature in product((36, 'C4', 0, Tone(47), 90), (4, 24, 96, 256, 480, 960, 32764), (4, 33.3, 120.0), ((4, 4), (3, 4), (6, 8), (0, 1))):
            config = {'channel': case[1], 'middle_c': middle, 'pulses_per_quarter': ppq, 'bpm': bpm}
            message = check(SIMPLE, config, signature, ctx)
            if message:
                return f'{config}, {signature}: {message}'
        return None
    if kind == 'late':
        for gap in (2 ** 28 - 1, 2 ** 27 + 5):
            content = [((k * gap, 256), (36 + k % 3, (gap if k % 2 else 1, 256), 1.0)) for k in range(1, case[1] + 1)]
            message = check(content, {'pulses_per_quarter': 64}, (4, 4), ctx)
            if message:
                return f'{case[1]} notes {gap} pulses apart: {message}'
            # the same pulses on the finest grid
            content = [((k * gap, 16384), (36 + k % 3, (gap if k % 2 else 1 + k, 16384), 1.0)) for k in range(1, case[1] + 1)]
            message = check(content, {'pulses_per_quarter': 4096}, (4, 4), ctx)
            if message:
                return f'{case[1]} notes {gap} pulses of 1/16384 apart: {message}'
        return None
    n = case[1]
    patterns = {
        'melody': [((k, 16), (36 + (k * 7) % 12, (1, 16), (1 + k % 127) / 127)) for k in range(n)],
        'chords': [((k // 4, 4), (36 + 4 * (k % 4), (1, 4), (1 + k % 127) / 127)) for k in range(n)],
        'backwards': [((n - k, 8), (36, (1, 8), 1.0)) for k in range(n)],
        'polyphony': [((k, 32), (k % 128 - 24, (3, 1), 1.0)) for k in range(n)],
        'mixed grid': [((k, 4 * 2 ** (k % 5)), (k % 128 - 24, (0, 1), 1.0)) for k in range(n)],
    }
    for name, content in patterns.items():
        if n > 5000 and name not in ('melody', 'backwards'):
            continue
        message = check(content, {}, (4, 4), ctx)
        if message:
            return f'{n} notes, {name}: {message}'
    return None
