"""C01 Signatures are exact binary fractions."""
from fractions import Fraction
from itertools import product

from mc.real import Signature, frac, raises

ID = 'C01'
RULE = ('every ordered pair of signatures of a dense domain and of a boundary domain under ==, !=, <, <=, >, >=, +, '
        '*; every (signature, denominator) under to(); every (nominator, denominator) of the constructor; every '
        'expression of up to D operations. Oracle: rational arithmetic on the two numbers. A trace is one left '
        'operand against all right operands, or one expression; a state is a distinct nominator/denominator pair.')
ASSUMPTIONS = ['values outside the enumerated nominators and denominators behave like those inside']

POWERS = [2 ** k for k in range(0, 9)]
BIG_D = [2 ** k for k in list(range(0, 17)) + [20, 23, 24, 31, 32, 33, 53, 63, 64, 65, 127, 255, 1100]]
BIG_N = sorted({0, 1, 2, 3, 5, 6, 12, 96, 100, 127, 255, 384, 1000}
               | {2 ** k + e for k in (7, 8, 9, 10, 14, 15, 16, 24, 31, 32, 53, 63, 64) for e in (-1, 0, 1)}
               | {3 * 2 ** k for k in (5, 10, 20, 30)})
DOMAINS = {
    'dense': [(n, d) for d in POWERS for n in range(0, 49)],
    'denser': [(n, d) for d in POWERS + [512, 1024] for n in range(0, 130)],
    'big': [(n, d) for d in BIG_D for n in BIG_N],
}


def expression_ops(tier):
    small = [(0, 1), (1, 4), (3, 8), (5, 2)] + ([(1, 1), (7, 64)] if tier == 'thorough' else [])
    ops = [('add', s) for s in small] + [('radd', s) for s in small] + [('mul', s) for s in small]
    ops += [('iadd', (3, 8)), ('iadd', (1, 64)), ('imul', (3, 2)), ('self add',), ('self mul',)]
    return ops + [('to', 8), ('to', 64), ('to', 2), ('norm',), ('abs',)]


def cases(tier):
    for n in list(range(-9, 41)) + [-2 ** 40, 2 ** 40]:
        yield 'new', n
    for name in (('dense', 'big') if tier == 'quick' else ('denser', 'big')):
        for left in DOMAINS[name]:
            yield 'row', name, left
            yield 'to', left
    for start in [(1, 4), (3, 8), (1, 16384), (2 ** 53 + 1, 2 ** 10), (255, 1)]:
        for mixed in (False, True):
            yield 'sum', start, 1200 if tier == 'quick' else 20000, mixed
    ops = expression_ops(tier)
    for depth in range(1, 4 if tier == 'quick' else 5):
        for seq in product(ops, repeat=depth):
            yield 'expr', (1, 4), seq
            if depth < 3:
                for start in [(0, 1), (0, 8), (6, 8), (12, 4), (7, 1), (255, 256)]:
                    yield 'expr', start, seq


def pair(a, b):
    return a.nominator, a.denominator, b.nominator, b.denominator


def run_case(case, ctx):
    kind = case[0]
    if kind == 'new':
        n = case[1]
        for d in list(range(-70, 1100)) + [2 ** k + e for k in range(11, 70) for e in (-1, 0, 1)] + [-2 ** 33]:
            error, s = raises(Signature, n, d)
            ctx.step()
            valid = n >= 0 and d > 0 and bin(d).count('1') == 1
            if valid and (error is not None or (s.nominator, s.denominator) != (n, d)):
                return f'Signature({n}, {d}) -> {error or s!r}'
            if not valid and type(error) is not ValueError:
                return f'Signature({n}, {d}) must raise ValueError, got {error!r} {s!r}'
            ctx.outcome('accepted' if valid else 'rejected')
        return None

    if kind == 'row':
        (n1, d1) = case[2]
        a = Signature(n1, d1)
        ctx.state((n1, d1))
        x = Fraction(n1, d1)
        for n2, d2 in DOMAINS[case[1]]:
            b = Signature(n2, d2)
            y = Fraction(n2, d2)
            ctx.step(8)
            got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
            want = (x == y, x != y, x < y, x <= y, x > y, x >= y)
            if got != want:
                return f'{n1}/{d1} ? {n2}/{d2}: (==, !=, <, <=, >, >=) is {got}, must be {want}'
            if frac(a + b) != x + y:
                return f'{n1}/{d1} + {n2}/{d2} is {a + b}'
            if frac(a * b) != x * y:
                return f'{n1}/{d1} * {n2}/{d2} is {a * b}'
            if pair(a, b) != (n1, d1, n2, d2):
                return f'operands {n1}/{d1}, {n2}/{d2} changed to {pair(a, b)}'
        if (a == a, a != a, a < a, a <= a, a > a, a >= a) != (True, False, False, True, False, True):
            return f'{n1}/{d1} compared with itself'
        if frac(a + a) != 2 * x or frac(a * a) != x * x or (a.nominator, a.denominator) != (n1, d1):
            return f'{n1}/{d1} with itself: sum {a + a}, product {a * a}'
        ctx.outcome('row')
        return None

    if kind == 'sum':
        (n, d), count = case[1], case[2]
        total, value = Signature(0, 1), Fraction(0)
        for k in range(count):
            m, e = n + k % 3, d << (k % 4 if case[3] else 0)
            total, value = total + Signature(m, e), value + Fraction(m, e)
            ctx.step()
            if frac(total) != value:
                return f'sum of {k + 1} signatures is {total}, must be {value}'
        ctx.state((total.nominator, total.denominator))
        ctx.outcome('sum')
        return None

    if kind == 'to':
        n, d = case[1]
        a = Signature(n, d)
        for target in BIG_D + [0, -1, -2, -4, 3, 5, 6, 7, 9, 12, 24, 96, 100, 255, 1000, 2 ** 40 + 2]:
            error, s = raises(a.to, target)
            ctx.step()
            if target > 0 and target & (target - 1) == 0 and target >= d:
                if error is not None or s.denominator != target or frac(s) != Fraction(n, d):
                    return f'Signature({n}, {d}).to({target}) -> {error!r} {s!r}'
                ctx.outcome('to')
            elif type(error) is not ValueError:
                return f'Signature({n}, {d}).to({target}) must raise ValueError, got {error!r} {s!r}'
            else:
                ctx.outcome('to rejected')
        s = a.normalized()
        f = Fraction(n, d)
        if (s.nominator, s.denominator) != (f.numerator, f.denominator):
            return f'Signature({n}, {d}).normalized() is {s!r}'
        t = abs(a)
        if frac(t) != f:
            return f'abs(Signature({n}, {d})) is {t!r}'
        if str(a) != f'{n}/{d}':
            return f'str(Signature({n}, {d})) is {str(a)!r}'
        if (a.nominator, a.denominator) != (n, d):
            return f'Signature({n}, {d}) changed to {a!r}'
        ctx.step(3)
        return None

    (n, d), seq = case[1], case[2]
    cur, value = Signature(n, d), Fraction(n, d)
    for op in seq:
        before = (cur.nominator, cur.denominator)
        if op[0] == 'add':
            nxt, want = cur + Signature(*op[1]), value + Fraction(*op[1])
        elif op[0] == 'radd':
            nxt, want = Signature(*op[1]) + cur, value + Fraction(*op[1])
        elif op[0] == 'mul':
            nxt, want = cur * Signature(*op[1]), value * Fraction(*op[1])
        elif op[0] == 'iadd':
            nxt, want = cur, value + Fraction(*op[1])
            nxt += Signature(*op[1])
        elif op[0] == 'imul':
            nxt, want = cur, value * Fraction(*op[1])
            nxt *= Signature(*op[1])
        elif op[0] == 'self add':
            nxt, want = cur + cur, value + value
        elif op[0] == 'self mul':
            nxt, want = cur * cur, value * value
        elif op[0] == 'to':
            error, nxt = raises(cur.to, op[1])
            want = value
            if op[1] < cur.denominator:
                if type(error) is not ValueError:
                    return f'{cur!r}.to({op[1]}) must raise ValueError, got {error!r} {nxt!r}'
                nxt = cur
            elif error is not None or nxt.denominator != op[1]:
                return f'{cur!r}.to({op[1]}) -> {error!r} {nxt!r}'
        elif op[0] == 'norm':
            nxt, want = cur.normalized(), value
            if nxt.denominator != want.denominator:
                return f'{cur!r}.normalized() is {nxt!r}'
        else:
            nxt, want = abs(cur), value
        ctx.step()
        if (cur.nominator, cur.denominator) != before:
            return f'{op} changed its operand from {before} to {cur!r}'
        if frac(nxt) != want:
            return f'after {op} on {cur!r}: {nxt!r}, must be {want}'
        cur, value = nxt, want
        ctx.state((cur.nominator, cur.denominator))
    ctx.outcome('expression')
    return None
