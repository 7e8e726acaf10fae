"""
Setup: nothing is built, so this only shows that the machinery itself is sound.

- the reference decoder and the reference encoder agree with hand-written files;
- every check loads, enumerates the same cases twice, and its first cases run;
- a schedule replayed gives the same execution (same results, same number of scheduling points, same switches).

A violation of a property is no failure of the setup: the checks report it.
"""
import importlib
import os
from itertools import islice

from mc import core, model


def models():
    data = bytes.fromhex('4d546864000000060000000100604d54726b00000014' '00ff580404021808' '00903c40' '60803c40' '00ff2f00')
    division, events = model.decode(data)
    assert division == 96, division
    assert events == [(0, 'meta', 0x58, b'\x04\x02\x18\x08'), (0, 'on', 0, 60, 64), (96, 'off', 0, 60), (96, 'meta', 0x2f, b'')], events
    assert model.sounding(events) == [(0, 96, 0, 60, 64)]
    for cut in range(len(data)):
        try:
            model.decode(data[:cut])
        except model.BadFile:
            continue
        raise AssertionError(f'reference decoder accepts a prefix of {cut} bytes')
    for x, want in ((0, '00'), (0x40, '40'), (0x7f, '7f'), (0x80, '8100'), (0x2000, 'c000'), (0x3fff, 'ff7f'),
                    (0x4000, '818000'), (0x1fffff, 'ffff7f'), (0x200000, '81808000'), (0x0fffffff, 'ffffff7f')):
        assert model.var_len(x).hex() == want, (x, want)    # the examples of the specification
    for text, want in (('C', 0), ('A4', 57), ('Db3', 37), ('G#b#bb#5', 67), ('C-1', -12), ('H', None), ('C4 ', None)):
        assert model.parse_notation(text) == want, text


def main():
    models()
    core.load_repo(points=True)
    from mc import ops, sched
    names = sorted(f[:-3] for f in os.listdir(os.path.join(core.VERIF, 'mc', 'checks')) if f.startswith('c') and f.endswith('.py'))
    for name in names:
        module = importlib.import_module('mc.checks.' + name)
        assert module.ID == name.upper() and module.RULE and module.ASSUMPTIONS
        if hasattr(module, 'prepare'):
            module.prepare('quick')
        first, second = (list(islice(module.cases('quick'), 200)) for _ in range(2))
        assert first and [repr(c) for c in first] == [repr(c) for c in second], name
        ctx = core.Context()
        bad = sum(core.evaluate(module, case, ctx) is not None for case in first[:5])
        print(f'{module.ID}: {len(first[:5])} cases, {ctx.steps} transitions' + (f', {bad} violations' if bad else ''))
    for schedule in ((), ((0, 3), (1, None)), ((0, 7), (1, 5), (0, None))):
        seen = []
        for _ in range(2):
            s = ops.Shared()
            run = sched.Run([lambda: ops.OPS['iterate'](s), lambda: ops.OPS['write'](s)], schedule, 'line')
            seen.append((run.go(), run.steps, run.trail))
        assert seen[0] == seen[1], f'schedule {schedule} is not deterministic'
    print('self-test passed')
    return 0
