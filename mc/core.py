"""
Exhaustive bounded explorer.

A check module (mc/checks/cNN.py) defines

    ID, RULE, ASSUMPTIONS
    cases(tier)         -> iterator over *every* case of the bounded space, simplest first
    run_case(case, ctx) -> None, or a message describing how the real code broke the property

A case is a Python literal (operation history, byte string, schedule, ...), so each one can be written to a replay
file and run again on its own. run_case drives the real melodia code from /repo/src through its public API and
compares every observation with a reference model; it reports to ctx

    ctx.state(key)      the model state reached (counted distinct)
    ctx.step(n)         n operations of the implementation were executed and compared (transitions)
    ctx.outcome(label)  classification of the result, to show that the exploration is not vacuous

Nothing is sampled: the cases are split over worker processes by index, and all of them are run unless one fails (or the machine is
so slow that BUDGET_S passes, which the evidence then says). A case which gives no answer within CASE_LIMIT_S is a violation, except
where the module's LARGE(case) says that the case is a very large track.
"""
import array
import ast
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_LIMIT_S = 200
BUDGET_S = {'quick': 540, 'thorough': 6 * 3600}      # far above what a check takes; a slow machine still gets an answer
MEMORY_LIMIT = 3 << 30
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class CaseTimeout(BaseException):
    pass


class Context:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.steps += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


def load_repo(points=False):
    """Imports melodia from /repo/src and nothing else; with scheduling points in it, if wanted."""
    src = os.path.join(REPO, 'src')
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != src]
    sys.path.insert(0, src)
    from mc import rng
    rng.install()
    from mc import sched
    sched.install()
    if points or os.environ.get('VERIF_POINTS'):
        sched.install_points()
    import melodia
    got = os.path.abspath(melodia.__file__)
    if not got.startswith(src + os.sep):
        raise SystemExit(f'melodia was imported from {got}')


def known_open(property_id):
    """Lines `open: property=<id> case=<literal> :: <what fails>` of the known-findings file."""
    result = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                head = f'open: property={property_id} case='
                if line.startswith(head):
                    literal, _, what = line[len(head):].rstrip('\n').partition(' :: ')
                    result.append((ast.literal_eval(literal), what))
    return result


def evaluate(module, case, ctx):
    """Runs one case; any exception which leaves run_case is a violation too."""
    try:
        return module.run_case(case, ctx)
    except (KeyboardInterrupt, SystemExit):
        raise
    except CaseTimeout:
        if getattr(module, 'LARGE', lambda case: False)(case):
            # very large tracks are there for what happens to their content, not for the time it takes
            ctx.outcome('large case not finished in time')
            return None
        return f'no answer within {CASE_LIMIT_S} s'
    except BaseException as e:
        lines = traceback.format_exception(type(e), e, e.__traceback__)
        return 'unexpected exception: ' + ''.join(lines[:1] + lines[-6:])[-1500:]


def from_repo(e):
    """Did the exception come out of the code under test?"""
    src = os.path.join(REPO, 'src') + os.sep
    return any(f.filename.startswith(src) for f in traceback.extract_tb(e.__traceback__))


def _alarm(signum, frame):
    raise CaseTimeout()


def _worker(module, tier, index, n, stop, deadline, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    ctx = Context()
    violation = None
    samples = []
    total = 0
    t0 = time.time()
    known = {repr(c) for c, _ in known_open(module.ID)}
    harness_error = None
    late = False
    try:
        for i, case in enumerate(module.cases(tier)):
            total = i + 1
            if i % n != index:
                continue
            if ctx.traces % 16 == 0 and stop.is_set():
                break
            if time.time() > deadline:
                late = True
                break
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
            ctx.traces += 1
            message = evaluate(module, case, ctx)
            signal.setitimer(signal.ITIMER_REAL, 0)
            if ctx.traces in (1, 7, 50, 400, 3000, 20000, 150000):
                samples.append((i, _short(case)))
            if message is not None and repr(case) not in known:
                violation = (i, case, message)
                stop.set()
                break
    except BaseException as e:
        if from_repo(e):
            violation = (total, ('building the cases',), 'unexpected exception: ' + traceback.format_exc()[-1500:])
        else:
            harness_error = traceback.format_exc()
        stop.set()
    payload = {
        'states': array.array('q', ctx.states).tobytes(), 'steps': ctx.steps, 'traces': ctx.traces,
        'outcomes': ctx.outcomes, 'violation': violation, 'samples': samples, 'total': total,
        'error': harness_error, 'late': late, 'seconds': time.time() - t0,
    }
    conn.send(payload)
    conn.close()
    # skip interpreter teardown of big heaps
    os._exit(0)


def _short(case, limit=400):
    text = repr(case)
    return text if len(text) <= limit else text[:limit] + f'... ({len(text)} characters)'


def write_replay(module, case, message):
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok=True)
    literal = repr(case)
    name = module if isinstance(module, str) else module.ID
    digest = hashlib.sha256(literal.encode()).hexdigest()[:12]
    path = os.path.join(directory, f'{name}-{digest}.json')
    with open(path, 'w') as f:
        json.dump({
            'property': name, 'case': literal, 'observed': message,
            'replay_cmd': f'bash check.sh --replay {os.path.relpath(path, VERIF)}',
        }, f, indent=1)
        f.write('\n')
    return path


def run(module, tier, workers=None):
    t0 = time.time()
    if hasattr(module, 'prepare'):
        module.prepare(tier)
    n = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    mp = multiprocessing.get_context('fork')
    stop = mp.Event()
    jobs = []
    for w in range(n):
        parent, child = mp.Pipe(duplex=False)
        p = mp.Process(target=_worker, args=(module, tier, w, n, stop, t0 + BUDGET_S[tier], child))
        p.start()
        child.close()
        jobs.append((p, parent))
    results, died = [], []
    for w, (p, conn) in enumerate(jobs):
        try:
            results.append(conn.recv())
        except EOFError:
            p.join()
            died.append((w, p.exitcode))
            stop.set()
        p.join()
    for r in results:
        if r['error']:
            print(r['error'], file=sys.stderr)
            print('harness error', file=sys.stderr)
            return 2
    states = set()
    outcomes = {}
    steps = traces = 0
    samples = []
    violations = []
    for r in results:
        a = array.array('q')
        a.frombytes(r['states'])
        states.update(a)
        steps += r['steps']
        traces += r['traces']
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        samples += r['samples']
        if r['violation']:
            violations.append(r['violation'])
    samples.sort()
    total = max([r['total'] for r in results], default=0)
    late = any(r['late'] for r in results)
    complete = not violations and not died and not late and traces == total
    wall = time.time() - t0
    evidence = {
        'property': module.ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': steps, 'traces_validated_against_impl': traces,
            'exhaustive': complete, 'stopped_by_time_budget': late, 'rule': module.RULE,
            'distinct_outcomes': len(outcomes),
            'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
            'samples': [s for _, s in samples[:12]],
        },
        'assumptions': list(module.ASSUMPTIONS),
        'wall_s': round(wall, 3), 'violations': len(violations) + len(died),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{module.ID}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for case, what in known_open(module.ID):
        if evaluate(module, case, Context()) is not None:
            print(f'KNOWN-FINDING: property={module.ID} {what}')
    print(f'{module.ID} {tier}: traces={traces} states={len(states)} transitions={steps} '
          f'outcomes={len(outcomes)} exhaustive={complete} wall={wall:.1f}s')
    if violations:
        i, case, message = min(violations, key=lambda v: v[0])
        path = write_replay(module, case, message)
        print(f'case {i}: {_short(case)}')
        print(message)
        print(f'VIOLATION property={module.ID} replay={path}')
        return 1
    if died:
        # the implementation took the interpreter down (memory, stack): not an answer the property allows
        path = write_replay(module, ('worker died', died), f'worker processes ended with {died}')
        print(f'worker processes ended with {died}')
        print(f'VIOLATION property={module.ID} replay={path}')
        return 1
    if late:
        print(f'stopped after {BUDGET_S[tier]} s: the property held on everything explored until then')
        return 0
    if not complete:
        print('exploration incomplete', file=sys.stderr)
        return 2
    return 0


def replay(path):
    import importlib
    with open(path) as f:
        record = json.load(f)
    module = importlib.import_module('mc.checks.' + record['property'].lower())
    case = ast.literal_eval(record['case'])
    if hasattr(module, 'prepare'):
        module.prepare('quick')
    first, second = evaluate(module, case, Context()), evaluate(module, case, Context())
    print(f'case: {_short(case, 4000)}')
    if first is None and second is None:
        print('the property holds on this case')
        return 0
    print(first if first is not None else second)
    print(f'VIOLATION property={module.ID} replay={path}')
    return 1
