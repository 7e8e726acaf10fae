"""C02 Tone notation is parsed and formatted exactly."""
from itertools import product

from mc import model
from mc.real import Note, Tone, raises

ID = 'C02'
RULE = ('every string up to length L over an alphabet with one character per class of the grammar plus intruders; '
        'every Unicode character at each of nine places of a notation; every letter x accidental string up to length A x octave of a range; every pitch of a range plus boundary '
        'values, formatted both ways and parsed back. Oracle: a character-by-character automaton and name tables. '
        'A trace is one prefix with all its one-character extensions, or one pitch; a state is a distinct result.')
ASSUMPTIONS = ['decimal digits of other scripts are not specified and left out',
               'characters inside one class (letters, digits, intruders) are interchangeable beyond length 2']

ALPHABET = 'CEABFG#b-017' + 'Hc +\n.'
FULL = ''.join(chr(c) for c in range(32, 127)) + '\n\t\r\x00'
BOUND = [s * (2 ** k + e) for k in (7, 8, 10, 15, 16, 31, 32, 53, 63, 64, 100) for e in (-1, 0, 1) for s in (1, -1)]


def cases(tier):
    yield 'ext', '', FULL
    for c in FULL:
        yield 'ext', c, FULL
    for letter in 'CDEFGAB':
        for n in range(0, 7 if tier == 'quick' else 9):
            for acc in product('#b', repeat=n):
                yield 'oct', letter + ''.join(acc)
    low, high = (-1500, 1500) if tier == 'quick' else (-20000, 20000)
    for p in range(low, high + 1):
        yield 'pitch', p
    for p in BOUND:
        yield 'pitch', p
    for prefix in ('C', 'A#', 'Bb-1', 'G7', 'F#b#9', 'E-12', 'D100'):
        yield 'ext', prefix, FULL
    for n in (9, 12, 20, 50, 120, 300):
        for k in range(n + 1):
            yield 'oct', 'C' + '#' * k + 'b' * (n - k)
    for letter in 'CDEFGAB':
        for n in range(7, 60):
            for k in sorted({0, 1, n // 3, n // 2, n - 1, n}) if n > 16 else range(n + 1):
                yield 'oct', letter + '#' * k + 'b' * (n - k)
                yield 'oct', letter + 'b' * (n - k) + '#' * k
    for start in range(0, 0x110000, 0x400):
        yield 'unicode', start
    for length in range(1, 4 if tier == 'quick' else 5):
        for prefix in product(ALPHABET, repeat=length):
            yield 'ext', ''.join(prefix), ALPHABET
    # deeper, but only below valid prefixes: strings which are accepted up to their last character(s)
    for prefix in product('CB', ('', '#', 'b', '#b', 'bb'), ('', '-'), ('', '0', '1', '10', '01', '127'), ALPHABET):
        yield 'ext', ''.join(prefix), ALPHABET


def one(text, ctx):
    want = model.parse_notation(text)
    error, tone = raises(Tone.from_notation, text)
    ctx.step()
    if want is None:
        ctx.outcome('rejected')
        if type(error) is not ValueError:
            return f'Tone.from_notation({text!r}) must raise ValueError, got {error!r} {tone!r}'
    else:
        ctx.outcome('accepted')
        ctx.state(want)
        if error is not None or type(tone) is not Tone or tone.pitch != want:
            return f'Tone.from_notation({text!r}) -> {error!r} {tone!r}, must have pitch {want}'
    return None


def run_case(case, ctx):
    if case[0] == 'ext':
        for c in case[2]:
            message = one(case[1] + c, ctx)
            if message:
                return message
        return one('', ctx) if case[1] == '' else None

    if case[0] == 'unicode':
        # any other character, at every place of a notation
        for code in range(case[1], case[1] + 0x400):
            c = chr(code)
            if c.isdecimal() and code > 127:
                continue        # digits of other scripts: not specified
            for text in (c, 'C' + c, 'C' + c + '4', 'C4' + c, c + 'C4', 'C#' + c + '-1', 'C-' + c, 'C1' + c + '0', 'Bb-1' + c + '2'):
                if model.parse_notation(text) is None:
                    ctx.step()
                    try:
                        tone = Tone.from_notation(text)
                    except ValueError:
                        continue
                    return f'Tone.from_notation({text!r}) must raise ValueError, got {tone!r}'
                message = one(text, ctx)
                if message:
                    return message
        ctx.outcome('unicode')
        return None

    if case[0] == 'oct':
        for octave in [''] + [str(o) for o in range(-30, 31)] + ['-0', '00', '007', '-12', '99', '100', '1000', '-1000',
                                                                '123456789012345678901234567890']:
            message = one(case[1] + octave, ctx)
            if message:
                return message
        return None

    pitch = case[1]
    tone = Tone(pitch)
    ctx.state(pitch)
    for flats in (False, True):
        text = tone.to_notation(transpose_down=flats)
        want = model.notation(pitch, flats)
        if text != want:
            return f'Tone({pitch}).to_notation(transpose_down={flats}) is {text!r}, must be {want!r}'
        back = Tone.from_notation(text)
        if back.pitch != pitch:
            return f'{text!r} reads back as {back.pitch}, written for {pitch}'
        if Note(text).tone.pitch != pitch:
            return f'Note({text!r}) has pitch {Note(text).tone.pitch}'
    if str(tone) != tone.to_notation() or tone.to_notation() != model.notation(pitch):
        return f'str(Tone({pitch})) is {str(tone)!r}'
    if tone.octave != pitch // 12:
        return f'Tone({pitch}).octave is {tone.octave}'
    ctx.step(8)
    ctx.outcome('formatted')
    return None
