"""C15 Randomising velocities changes nothing but velocities, within the limits."""
import math
import random
from itertools import combinations_with_replacement, product

from mc import rng
from mc.real import Track, mk_note, build, frac, raises, ref_items, see
from melodia.processing.track import randomize_velocities

ID = 'C15'
RULE = ('every track of up to K items over a colliding domain x every sequence of random deviates of a menu (ordinary, '
        'extreme, zero) handed out through the intercepted generator x parameter combinations on and off the limits; '
        'every parameter value of a boundary set for validation; long tracks. Oracle: same signature, positions, '
        'pitches, durations and count; velocity = mean + sqrt(variance) * deviate clamped to [minimum, maximum]; '
        'input unchanged. A state is a distinct resulting content.')
ASSUMPTIONS = ['random numbers come from random.gauss or normalvariate; if another generator is used, the limits and the '
               'preserved content are still checked, the distribution only by its shape over seeded runs of 20000 notes',
               'minimum <= maximum']

ITEMS = (((0, 1), (36, (1, 4), 0.5)), ((0, 1), (36, (1, 4), 0.9)), ((1, 4), (36, (1, 4), 0.5)), ((2, 8), (40, (3, 8), 0.0)),
         ((5, 64), (-3, (0, 1), 1.0)))
DEVIATES = (0.0, 1.0, -1.0, 40.0, -0.02, 0.3)
PARAMS = [(), (0.0, 1.0, 0.5, 0.04), (0.25, 0.25, 0.5, 0.01), (0.5, 1.0, 0.1, 0.0), (0.0, 0.5, 1.0, 0.0), (0.0, 1.0, 0.5, 1.0),
          (1.0, 1.0, 1.0, 0.0), (0.0, 0.0, 0.0, 0.0), (0.2, 0.8, 0.75, 0.01), (0.0, 1.0, 0.75, 0.0), (0.0, 1.0, 0.3, 1e-6),
          (0, 1, 1, 0), (0.0, 1.0, 0.6, 0.0025), (0.0, 1.0, 0.5, 4.0), (0.1, 0.9, 0.5, 100.0),
          (0.0, 1.0, 0.5, 1e-12), (0.0, 1.0, 1.0, 0.25)]
NAMES = ('minimum', 'maximum', 'mean', 'variance')
DEFAULTS = (0.5, 1.0, 0.75, 0.01)
SPECIAL = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf')}


def LARGE(case):
    return case[0] == 'long' and case[1] > 4000


def cases(tier):
    for pi in range(len(PARAMS)):
        for k in range(0, 4):
            for content in combinations_with_replacement(ITEMS, k):
                for zs in product(DEVIATES[:5] if k < 3 else DEVIATES[:3] if tier == 'quick' else DEVIATES, repeat=k):
                    yield 'menu', pi, content, zs
    levels = (0.0, 0, 0.25, 0.5, 0.75, 1, 1.0)
    for low, high in product(levels, repeat=2):
        if low <= high:
            yield 'grid', low, high
    for name in NAMES:
        for value in ('-0.001', '-1.0', '1.0000001', '2.0', 'nan', 'inf', '-inf', '-5e-324', '0.0', '1.0', '0.5'):
            yield 'limit', name, value
    for exponent in range(-24, 25):
        yield 'spread', exponent
    for n in range(0, 120 if tier == 'quick' else 500):
        yield 'long', n
    for n in (1000, 5000, 70000):
        yield 'long', n
    for k in range(1, 5 if tier == 'quick' else 7):
        for where in product(range(len(ITEMS)), repeat=k):
            yield 'shared', where
    for seed in range(0, 64 if tier == 'quick' else 1000):
        yield 'seed', seed
    for seed in range(4 if tier == 'quick' else 40):
        yield 'shape', seed


def strip(items):
    return sorted((p, n[0], n[1]) for p, n in items)


def kept(track, content, signature, result, low, high):
    want = ref_items(content)
    if type(result) is not Track or result is track:
        return f'result is {result!r}'
    if (result.signature.nominator, result.signature.denominator) != signature:
        return f'time signature became {result.signature}'
    if strip(see(result)) != strip(want) or len(result) != len(want):
        return f'content became {see(result)[:30]} ({len(result)}), was {want[:30]} ({len(want)})'
    if frac(result.length) != max([p + n[1] for p, n in want], default=0):
        return f'length became {result.length}'
    if see(track) != want or (track.signature.nominator, track.signature.denominator) != signature:
        return f'the input changed to {see(track)[:30]}'
    for _, n in see(result):
        if not low <= n[2] <= high:
            return f'velocity {n[2]} is outside of [{low}, {high}]'
    return None


def run_case(case, ctx):
    kind = case[0]
    if kind == 'menu':
        _, pi, content, zs = case
        params = PARAMS[pi]
        low, high, mean, variance = tuple(params) + DEFAULTS[len(params):]
        track = build(content, (6, 8))
        with rng.menu(zs or (0.0,)) as m:
            result = randomize_velocities(track, *params) if len(zs) % 2 else \
                randomize_velocities(track, **dict(zip(NAMES, params)))
        ctx.step()
        message = kept(track, content, (6, 8), result, low, high)
        if message:
            return message
        ctx.state(tuple(see(result)))
        if m.used == len(content) or variance == 0:
            ctx.outcome('deviates followed')
            std = math.sqrt(variance)
            want = sorted(max(low, min(high, mean + std * z)) for z in zs)
            got = sorted(n[2] for _, n in see(result))
            if any(abs(x - y) > 1e-9 for x, y in zip(want, got)):
                return f'deviates {zs} with {params} give velocities {got}, must be {want}'
        elif m.used:
            return f'{m.used} draws for {len(content)} notes'
        else:
            ctx.outcome('other generator')
        return None
    if kind == 'grid':
        # every combination of settings, given or left out, by name or in order
        for mean, variance in product((0.0, 0, 0.25, 0.6, 1, 1.0), (0.0, 0, 1e-4, 0.01, 0.25, 1, 9.0)):
            values = dict(zip(NAMES, (case[1], case[2], mean, variance)))
            for given in product((True, False), repeat=4):
                kwargs = {n: values[n] for n, g in zip(NAMES, given) if g}
                low, high, centre, spread = (kwargs.get(n, d) for n, d in zip(NAMES, DEFAULTS))
                if low > high:
                    continue
                for z in (-40.0, -1.0, -0.3, 0.0, 0.7, 40.0):
                    content = [((1, 4), (36, (1, 4), 0.5))]
                    track = build(content)
                    with rng.menu((z,)) as m:
                        result = randomize_velocities(track, *kwargs.values()) if sorted(given, reverse=True) == list(given) and z < 0 else \
                            randomize_velocities(track, **kwargs)
                    ctx.step()
                    message = kept(track, content, (4, 4), result, low, high)
                    want = max(low, min(high, centre + math.sqrt(spread) * z))
                    if message is None and (m.used == 1 or spread == 0) and abs(see(result)[0][1][2] - want) > 1e-9:
                        message = f'velocity is {see(result)[0][1][2]}, must be {want}'
                    if message:
                        return f'deviate {z} with {kwargs}: {message}'
        ctx.outcome('every combination of settings')
        return None
    if kind == 'limit':
        name, text = case[1], case[2]
        value = SPECIAL.get(text)
        value = float(text) if value is None else value
        ok = 0 <= value <= 1 if name != 'variance' else value >= 0
        if name == 'variance' and text == 'inf':
            ctx.outcome('not constrained')
            return None
        for content in ((), ITEMS[:2]):
            kwargs = {'minimum': 0.0, 'maximum': 1.0, name: value}
            track = build(content)
            with rng.menu((0.5, -3.0)):
                error, result = raises(randomize_velocities, track, **kwargs)
            ctx.step()
            if ok != (error is None) or not (ok or type(error) is ValueError):
                return f'randomize_velocities with {kwargs}: {error!r} {result!r}'
            if see(track) != ref_items(content):
                return f'the input changed to {see(track)}'
        ctx.outcome('accepted' if ok else 'rejected')
        return None
    if kind == 'spread':
        # every order of magnitude of the variance, with deviates which keep the velocity between the limits
        for digit in (1.0, 2.5, 9.0):
            variance = digit * 10.0 ** case[1]
            for shift in (0.2, -0.2, 0.01, -0.37):
                track = build(ITEMS[:2])
                with rng.menu((shift / math.sqrt(variance),)) as m:
                    result = randomize_velocities(track, 0.0, 1.0, 0.5, variance)
                ctx.step()
                message = kept(track, ITEMS[:2], (4, 4), result, 0.0, 1.0)
                if message is None and m.used == 2 and any(abs(n[2] - 0.5 - shift) > 1e-6 for _, n in see(result)):
                    message = f'variance {variance}, deviates {shift / math.sqrt(variance)}: velocities {[n[2] for _, n in see(result)]}'
                if message:
                    return message
        ctx.outcome('orders of magnitude')
        return None
    if kind == 'long':
        n = case[1]
        content = [(((k * 7) % 31, 2 ** (k % 6)), (k % 90, (k % 5, 8), (k % 100) / 100)) for k in range(n)]
        track = build(content, (5, 4))
        with rng.menu([((k * 13) % 21 - 10) / 3 for k in range(97)]) as m:
            result = randomize_velocities(track, 0.2, 0.7, 0.5, 0.02)
        ctx.step()
        ctx.state(n)
        message = kept(track, content, (5, 4), result, 0.2, 0.7)
        if message is None and m.used == n:
            # every draw shows in the result
            draws = sorted(max(0.2, min(0.7, 0.5 + math.sqrt(0.02) * ((k % 97 * 13) % 21 - 10) / 3)) for k in range(n))
            got = sorted(x[2] for _, x in see(result))
            if any(abs(a - b) > 1e-9 for a, b in zip(draws, got)):
                message = f'velocities {got[:10]}, must be {draws[:10]}'
        ctx.outcome('long')
        return message
    if kind == 'shared':
        # one Note object, or equal ones, at several positions: each occurrence has a draw of its own
        for same in (True, False):
            note = mk_note((36, (1, 4), 0.5))
            track = Track((6, 8))
            for i in case[1]:
                track.add(note if same else mk_note((36, (1, 4), 0.5)), ITEMS[i][0])
            content = [(ITEMS[i][0], (36, (1, 4), 0.5)) for i in case[1]]
            zs = [0.3, -0.4, 0.7, 1.1, -1.3, 0.9]
            with rng.menu(zs) as m:
                result = randomize_velocities(track, 0.0, 1.0, 0.5, 0.01)
            ctx.step()
            message = kept(track, content, (6, 8), result, 0.0, 1.0)
            if message is None and m.used:
                want = sorted(0.5 + 0.1 * z for z in zs[:len(content)])
                got = sorted(n[2] for _, n in see(result))
                if any(abs(x - y) > 1e-9 for x, y in zip(want, got)):
                    message = f'{len(content)} occurrences of one note get velocities {got}, must be {want}'
            if message:
                return message
        ctx.outcome('one note several times')
        return None
    if kind == 'shape':
        # the real generator: whatever it is, its deviates must look normal and independent, within six standard errors or more
        random.seed(case[1])
        n = 20000
        content = [((k, 8), (36, (1, 8), 0.5)) for k in range(n // 2)]
        track = build(content)
        runs = []
        for _ in range(2):
            result = randomize_velocities(track, 0.0, 1.0, 0.5, 0.01)
            runs.append([(x[2] - 0.5) / 0.1 for _, x in see(result)])
            ctx.step()
        zs = runs[0] + runs[1]
        facts = [('mean', sum(zs) / n, 0.0, 1.0), ('variance', sum(z * z for z in zs) / n, 1.0, 1.5),
                 ('correlation of neighbours', sum(a * b for a, b in zip(zs, zs[1:])) / n, 0.0, 1.0),
                 ('correlation of runs', sum(a * b for a, b in zip(*runs)) * 2 / n, 0.0, 1.5)]
        for limit in (0.5, 1.0, 1.5, 2.0, 2.5, 3.0):
            share = (1 + math.erf(-limit / math.sqrt(2))) / 2
            for sign in (1, -1):
                facts.append((f'share of deviates beyond {sign * limit}', sum(sign * z > limit for z in zs) / n, share, math.sqrt(share * (1 - share))))
        for what, value, expected, sd in facts:
            if abs(value - expected) > 7 * sd / math.sqrt(n):
                return f'{what} is {value}, must be about {expected} for normal deviates'
        ctx.outcome('shape of the deviates')
        return None
    random.seed(case[1])
    content = [((k, 8), (36 + k % 5, (1, 8), 0.5)) for k in range(24)]
    for params in PARAMS:
        low, high, mean, variance = tuple(params) + DEFAULTS[len(params):]
        track = build(content)
        result = randomize_velocities(track, *params)
        ctx.step()
        message = kept(track, content, (4, 4), result, low, high)
        if message:
            return message
        if variance == 0 and any(n[2] != max(low, min(high, mean)) for _, n in see(result)):
            return f'zero variance gives {see(result)[:5]}'
        ctx.state(tuple(see(result)[:3]))
    # every note has a draw of its own: notes of one position, of one pitch, identical notes
    for content in ([((1, 4), (k, (1, 4), 0.5)) for k in range(24)], [((k, 4), (36, (1, 4), 0.5)) for k in range(24)],
                    [((1, 4), (36, (1, 4), 0.5)) for k in range(24)]):
        result = randomize_velocities(build(content), 0.0, 1.0, 0.5, 0.01)
        ctx.step()
        if len({n[2] for _, n in see(result)}) < 20:
            return f'24 notes share velocities: {see(result)}'
    ctx.outcome('real generator')
    return None
