"""C14 Chords have their intervals, duration and velocity."""
import importlib.util
import os
import subprocess
import sys
import tempfile
from fractions import Fraction
from itertools import product

from mc import core, model
from mc.real import Note, Signature, Tone, Track, frac, raises, see, see_note
from melodia.music import chord

ID = 'C14'
RULE = ('every chord function (all names and aliases) x every base pitch of a range x every base form (int, string with '
        'sharps or flats, Tone, Note) x every combination of given and omitted duration and velocity, including zero; '
        'every sequence of two chords appended to a track; invalid arguments; and the module generated anew by '
        'scripts/generate_chords.py under the same enumeration. Oracle: the interval table. A state is a distinct '
        'tuple of notes.')
ASSUMPTIONS = ['the interval table is that of the documentation of the repository (scripts/generate_chords.py)']

DURATIONS = (None, (1, 1), (3, 8), (0, 1), (2, 8))
VELOCITIES = (None, 0.0, 0.3, 1.0, 0, 1, 1 / 3, 1e-9)
_generated = {}


def generated():
    if 'module' not in _generated:
        with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d:
            path = os.path.join(d, 'generated_chords.py')
            subprocess.run([sys.executable, os.path.join(core.REPO, 'scripts', 'generate_chords.py'), path], check=True)
            spec = importlib.util.spec_from_file_location('generated_chords', path)
            module = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)
        _generated['module'] = module
    return _generated['module']


def prepare(tier):
    try:
        _generated['error'] = None
        generated()
    except Exception as e:
        _generated['error'] = repr(e)


def cases(tier):
    pitches = range(-26, 129) if tier == 'quick' else range(-400, 401)
    for name in model.CHORD_TABLE:
        for p in (0, 60, -1):
            yield 'chord', 'library', name, p
    yield 'names', 'library'
    yield 'names', 'generated'
    for which in ('library', 'generated'):
        for name in model.CHORD_TABLE:
            for p in pitches if which == 'library' or tier == 'thorough' else (-13, -1, 0, 1, 11, 12, 60, 127):
                yield 'chord', which, name, p
            for p in (10 ** 9, -10 ** 9, 2 ** 64):
                yield 'chord', which, name, p
            yield 'bad', which, name
    names = list(model.CHORD_TABLE)
    for a, b in product(names, repeat=2):
        yield 'track', a, b


def forms(p):
    yield p, None
    yield Tone(p), None
    yield model.notation(p), None
    yield model.notation(p, True), None
    for d, v in (((1, 4), 0.75), ((10, 16), 0.2), ((0, 4), 0.0), ((7, 1), 1.0)):
        yield Note(p, d, v), (d, v)


def run_case(case, ctx):
    kind = case[0]
    if kind == 'track':
        track = Track()
        a = getattr(chord, case[1])('C3', (1, 2), 0.5)
        b = getattr(chord, case[2])(Note('A2', (3, 8), 0.25))
        track.add(a)
        track.add(b)
        want = sorted([(Fraction(0), (36 + s, Fraction(1, 2), 0.5)) for s in model.CHORD_TABLE[case[1]]]
                      + [(Fraction(1, 2), (33 + s, Fraction(3, 8), 0.25)) for s in model.CHORD_TABLE[case[2]]])
        ctx.step(2)
        ctx.state(tuple(want))
        ctx.outcome('progression')
        if see(track) != want or frac(track.length) != Fraction(7, 8):
            return f'{case[1]} then {case[2]}: {see(track)}'
        return None
    if case[1] == 'generated' and _generated.get('error'):
        return f'scripts/generate_chords.py failed: {_generated["error"]}'
    module = chord if case[1] == 'library' else generated()
    if kind == 'names':
        have = {n for n in dir(module) if not n.startswith('_')} - {'Union', 'Tuple', 'Optional', 'Tone', 'Note', 'Signature'}
        missing = sorted(set(model.CHORD_TABLE) - have)
        ctx.step()
        return f'missing chords: {missing}' if missing else None
    fn = getattr(module, case[2])
    if kind == 'bad':
        for args in ((1.5,), (None,), ([60],), ('h',), ('',), (60, (1, 3)), (60, None, 1.5), (60, None, -0.1), (60, (-1, 4)),
                     (60, ()), (60, []), (60, ''), (60, 0), (60, 0.25), (60, False), (60, (4,)), (60, (1, 2, 4)), (60, None, ''),
                     (60, None, float('nan')), (60, None, '0.5'), (60, None, [0.5]), (60, None, ()), (Note(60), ()), (Note(60), ''), (Note(60), None, ''),
                     (Note(60), (1, 3)), (Note(60), None, 2.0), (' C3',), ('C3 ',), ('C3\n',), ('c3',), ('C3#',), ('CC',), ('C+3',), ('C-',), ('C 3',), ('H2',), ('3',), ('#',),
                     (b'C3',), (60.0,), ((60,),), (Signature(1, 4),)):
            error, result = raises(fn, *args)
            ctx.step()
            if not isinstance(error, (ValueError, TypeError)):
                return f'{case[2]}{args}: {error!r} {result!r}'
        ctx.outcome('rejected')
        return None
    p = case[3]
    steps = model.CHORD_TABLE[case[2]]
    for base, note in forms(p):
        for d, v in product(DURATIONS, VELOCITIES):
            for how in range(2) if p in (0, 60, -1) or (p + len(steps)) % 4 == 0 else (0,):
                if how == 0:
                    got = fn(base, d, v)
                elif d is not None and v is not None:
                    got = fn(base=base, velocity=v, duration=Signature(*d))
                elif d is not None:
                    got = fn(base, duration=Signature(*d))
                elif v is not None:
                    got = fn(base, velocity=v)
                else:
                    got = fn(base)
                dd = d if d is not None else note[0] if note else (1, 4)
                vv = v if v is not None else note[1] if note else 0.75
                want = tuple((p + s, Fraction(*dd), vv) for s in steps)
                ctx.step()
                if type(got) is not tuple or tuple(see_note(n) for n in got) != want:
                    return f'{case[2]}({base!r}, {d}, {v}) is {got!r}, must be {want}'
                if any((n.duration.nominator, n.duration.denominator) != tuple(dd) for n in got):
                    return f'{case[2]}({base!r}, {d}, {v}) is {got!r}, durations must be {dd[0]}/{dd[1]}'
                ctx.state(want)
        if note and see_note(base) != (p, Fraction(*note[0]), note[1]):
            return f'{case[2]} changed its base note to {base!r}'
    ctx.outcome(f'{len(steps)} notes')
    return None
