"""Thin access to the code under test: construction from literals, and observation into plain values."""
from fractions import Fraction

from melodia.core import Note, Signature, Tone, Track   # noqa: F401
from melodia.io import midi                              # noqa: F401
from melodia.io.midi import MIDIError, MIDIParsingError, MIDIReader, MIDIWriter   # noqa: F401


def frac(s):
    """Value of a real Signature, read from its two numbers only."""
    n, d = s.nominator, s.denominator
    assert type(s) is Signature and isinstance(n, int) and isinstance(d, int), f'not a signature: {s!r}'
    assert n >= 0 and d > 0 and d & (d - 1) == 0, f'invalid signature {n}/{d}'
    return Fraction(n, d)


def see_note(n):
    assert type(n) is Note and type(n.tone) is Tone, f'not a note: {n!r}'
    return n.tone.pitch, frac(n.duration), n.velocity


def see(track):
    """Content of a real track in iteration order."""
    return [(frac(p), see_note(n)) for p, n in track]


def mk_note(spec, parts=None):
    """(pitch, (n, d), velocity) -> Note. Notes made with one dictionary of parts share their tones and durations."""
    if parts is None:
        return Note(spec[0], spec[1], spec[2])
    tone = parts.setdefault(spec[0], Tone(spec[0]))
    return Note(tone, parts.setdefault(tuple(spec[1]), Signature(*spec[1])), spec[2])


def ref_note(spec):
    return spec[0], Fraction(*spec[1]), spec[2]


def build(content, signature=(4, 4)):
    """[((n, d), (pitch, (n, d), velocity))] -> Track"""
    track = Track(signature)
    notes = {}
    content = list(content)
    parts = {} if len(content) % 4 in (1, 2) else None
    for where, spec in content:
        # with an even number of items, equal notes are one object
        note = notes.setdefault(repr(spec), mk_note(spec, parts)) if len(content) % 2 == 0 else mk_note(spec, parts)
        if parts is not None and len(content) % 4 == 2 and where is not None:
            where = parts.setdefault(tuple(where), Signature(*where))     # one object for equal positions and durations
        track.add(note, where)
    return track


def ref_items(content):
    return sorted((Fraction(*w), ref_note(s)) for w, s in content)


def raises(fn, *args, **kwargs):
    """(exception or None, result)"""
    try:
        return None, fn(*args, **kwargs)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        return e, None
