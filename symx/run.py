''' The runner: explores the obligations of one property in parallel, replays every counterexample
on the real, unshimmed code in a fresh process, and writes the evidence. '''

import importlib
import json
import multiprocessing
import multiprocessing.connection
import multiprocessing.pool
import os
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = 8

class Obligation:
    def __init__(self, name, harness, params=None, timeout=120, max_paths=200000, query_timeout=30, bound='', must=True):
        self.name, self.harness, self.params = name, harness, params or {}
        self.timeout, self.max_paths, self.query_timeout = timeout, max_paths, query_timeout
        self.bound = bound
        self.must = must  # An optional obligation (must=False) may be left undecided within its budget.

def _alarm(signum, frame):
    from . import engine as E
    raise E.Inconclusive('time budget exhausted')

def _watch_functions(seen):
    from . import env
    root = os.path.realpath(env.REPO) + os.sep
    mon = sys.monitoring
    try: mon.use_tool_id(mon.COVERAGE_ID, 'symx')
    except ValueError: return
    def start(code, offset):
        if code.co_filename.startswith(root):
            seen.add('%s:%s' % (os.path.relpath(code.co_filename, root), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)

def _run_one(args):
    module_name, ob = args
    from . import env, engine as E
    t0 = time.time()
    seen = set()
    out = {'name': ob.name, 'harness': ob.harness, 'params': ob.params, 'bound': ob.bound, 'must': ob.must}
    ctx = None
    try:
        env.install_shims()
        module = importlib.import_module('props.' + module_name)
        harness = getattr(module, ob.harness)
        _watch_functions(seen)
        sys.monitoring.restart_events()
        ctx = E.Ctx(deadline=t0 + ob.timeout, max_paths=ob.max_paths, query_timeout_ms=int(ob.query_timeout * 1000))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(ob.timeout) + 15)
        try:
            ctx.explore(lambda c: harness(c, **ob.params))
        finally:
            signal.alarm(0)
        if not ctx.stats.witnesses or not ctx.stats.checks:
            out.update(status='vacuous', reason='no feasible path reaches an assertion')
        else:
            out.update(status='discharged')
    except E.CounterExample as ce:
        out.update(status='counterexample', label=ce.label, assignment=ce.assignment, info=str(ce.info)[:2000])
    except E.Inconclusive as inc:
        out.update(status='inconclusive', reason=str(inc))
    except MemoryError:
        out.update(status='inconclusive', reason='out of memory')
    except Exception as error:  # pylint: disable=broad-except
        # Raised outside of a path (e.g. while importing, or building the objects of the harness).
        out.update(status='counterexample', label='raised %s' % type(error).__name__, assignment={}, info=traceback.format_exc(limit=-6))
    out['wall_s'] = round(time.time() - t0, 3)
    out['stats'] = ctx.stats.as_dict() if ctx is not None else {}
    out['samples'] = ctx.samples if ctx is not None else []
    out['functions'] = sorted(seen)
    return out

class Workers:
    ''' A pool of forked processes that can always be stopped, and that survives the loss of any of them. '''
    def __init__(self, module_name, size, tasks):
        self.module_name, self.size, self.tasks = module_name, size, tasks
        self.mp = multiprocessing.get_context('fork')
        self.live = {}  # connection -> [process, tasks left, obligation, kill time]
    def __enter__(self): return self
    def __exit__(self, *args):
        for entry in self.live.values(): entry[0].kill()
        for conn, entry in self.live.items():
            entry[0].join(5)
            conn.close()
        self.live = {}
    def _work(self, conn, parent):
        parent.close()
        while True:
            try: o = conn.recv()
            except EOFError: os._exit(0)
            if o is None: os._exit(0)
            conn.send(_run_one((self.module_name, o)))
    def _spawn(self):
        ours, theirs = self.mp.Pipe()
        p = self.mp.Process(target=self._work, args=(theirs, ours), daemon=True)
        p.start()
        theirs.close()
        self.live[ours] = [p, self.tasks, None, None]
        return ours
    def _drop(self, conn):
        entry = self.live.pop(conn)
        entry[0].kill()
        entry[0].join(5)
        conn.close()
    def run(self, obligations, deadline):
        todo = list(reversed(obligations))
        lost = lambda o, why: {'name': o.name, 'harness': o.harness, 'params': o.params, 'bound': o.bound, 'must': o.must, 'status': 'inconclusive', 'reason': why, 'wall_s': 0, 'stats': {}, 'samples': [], 'functions': []}
        while todo or any(entry[2] for entry in self.live.values()):
            if time.time() > deadline: return
            idle = [conn for conn, entry in self.live.items() if entry[2] is None]
            while todo and (idle or len(self.live) < self.size):
                conn = idle.pop() if idle else self._spawn()
                o = todo.pop()
                self.live[conn][1:] = [self.live[conn][1] - 1, o, time.time() + o.timeout + 60]
                conn.send(o)
            for conn in multiprocessing.connection.wait([conn for conn, entry in self.live.items() if entry[2]], timeout=max(0.1, min(5, deadline - time.time()))):
                o = self.live[conn][2]
                try: r = conn.recv()
                except (EOFError, OSError):
                    self._drop(conn)
                    yield lost(o, 'the worker was ended')
                    continue
                self.live[conn][2] = None
                if self.live[conn][1] <= 0: self._drop(conn)
                yield r
            for conn, entry in list(self.live.items()):
                if entry[2] and time.time() > entry[3]:
                    o = entry[2]
                    self._drop(conn)
                    yield lost(o, 'time budget exhausted (stuck)')

def _replay(spec, timeout=300):
    ''' Run a list of (module, harness, params, assignment) concretely in a fresh process on the real code. '''
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'replay.py'), '-'], input=json.dumps(spec), capture_output=True, text=True, timeout=timeout, env=env, cwd=ROOT)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return [{'outcome': 'timeout'} for _ in spec]
    except (ValueError, IndexError):
        return [{'outcome': 'error', 'detail': p.stdout[-500:] + p.stderr[-1500:]} for _ in spec]

def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                out.append(json.loads(line[len('finding: '):]))
    return out

def main(module_name, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module = importlib.import_module('props.' + module_name)
    prop = module.PROPERTY
    obligations = module.obligations(tier)
    if only: obligations = [o for o in obligations if only in o.name]
    total_budget = getattr(module, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3600)
    names = [o.name for o in obligations]
    assert len(set(names)) == len(names), 'duplicate obligation names'
    results, violations, mismatches = [], [], []
    known = [k for k in known_findings() if k['property'] == prop]
    done_known = set()
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)

    # Longest first.
    order = sorted(obligations, key=lambda o: -o.timeout)
    with Workers(module_name, min(JOBS, max(1, len(order))), 1 if tier == 'thorough' else 8) as pool:
        for r in pool.run(order, t0 + total_budget):
            results.append(r)
            if verbose: print('  %-70s %-14s %7.2fs paths=%s queries=%s %s' % (r['name'], r['status'], r['wall_s'], r['stats'].get('paths'), r['stats'].get('queries'), r.get('reason', '') or r.get('label', '')), flush=True)
            if r['status'] == 'counterexample':
                spec = {'property': prop, 'module': module_name, 'harness': r['harness'], 'params': r['params'], 'assignment': r['assignment'], 'obligation': r['name'], 'label': r['label'], 'info': r['info']}
                [rep] = _replay([spec])
                r['replay'] = rep
                if rep['outcome'] == 'fails':
                    k = next((k for k in known if k['obligation'] == r['name'] and k.get('label', r['label']) == r['label']), None)
                    if k is not None:
                        r['status'] = 'known-finding'
                        done_known.add(k['what'])
                        continue
                    spec['outcome'] = rep
                    path = os.path.join(ROOT, 'replays', '%s-%s.json' % (prop, ''.join(c if c.isalnum() else '_' for c in r['name'])[:80]))
                    with open(path, 'w') as f: json.dump(spec, f, indent=1)
                    violations.append((r, path))
                    if not verbose: break  # One confirmed violation settles it.
                else:
                    r['status'] = 'unconfirmed'
                    mismatches.append(r)
                    if verbose: print('     UNCONFIRMED', rep, r['label'], r['assignment'], r['info'])
    finished = {r['name'] for r in results}
    if not violations:
        for o in obligations:
            if o.name not in finished:
                results.append({'name': o.name, 'harness': o.harness, 'params': o.params, 'bound': o.bound, 'must': o.must, 'status': 'inconclusive', 'reason': 'total time budget exhausted', 'wall_s': 0, 'stats': {}, 'samples': [], 'functions': []})

    if verbose: print('  symbolic part took %.1fs' % (time.time() - t0))
    # Validate the encoding: run witnesses of explored paths through the real code.
    validated = 0
    if not violations:
        specs = []
        for r in results:
            if r['status'] == 'discharged':
                for a in r['samples'][:6 if tier == 'quick' else 12]:
                    specs.append({'module': module_name, 'harness': r['harness'], 'params': r['params'], 'assignment': a, 'obligation': r['name'], 'label': 'witness', 'info': '', 'property': prop})
        cap = getattr(module, 'WITNESSES', 160) if tier == 'quick' else 2000
        if len(specs) > cap:
            step = len(specs) / cap
            specs = [specs[int(i * step)] for i in range(cap)]
        chunks = [specs[i::JOBS] for i in range(JOBS)]
        with multiprocessing.pool.ThreadPool(JOBS) as tp:
            outs = tp.map(lambda c: _replay(c, timeout=120 if tier == 'quick' else 600) if c else [], chunks)
        for chunk, reps in zip(chunks, outs):
            for spec, rep in zip(chunk, reps):
                if rep['outcome'] == 'holds': validated += 1
                elif rep['outcome'] == 'fails':
                    spec['outcome'] = rep
                    spec['label'] = 'path witness fails on the real code: %s' % rep.get('detail', '')[:200]
                    path = os.path.join(ROOT, 'replays', '%s-witness-%s.json' % (prop, ''.join(c if c.isalnum() else '_' for c in spec['obligation'])[:80]))
                    with open(path, 'w') as f: json.dump(spec, f, indent=1)
                    violations.append(({'name': spec['obligation'], 'label': spec['label'], 'assignment': spec['assignment'], 'info': rep.get('detail')}, path))
                else:
                    if verbose: print('     witness replay:', rep, spec['obligation'], spec['assignment'])

    results.sort(key=lambda r: names.index(r['name']))
    discharged = [r for r in results if r['status'] == 'discharged']
    undecided = [r for r in results if r['status'] in ('inconclusive', 'vacuous', 'unconfirmed')]
    functions = sorted({f for r in results for f in r['functions']})
    S = lambda f: sum(r['stats'].get(f, 0) for r in results)
    samples = [{'obligation': r['name'], 'params': r['params'], 'path_witness': r['samples'][0] if r['samples'] else None} for r in discharged[:5]]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths'), 'transitions': S('forks') + S('merges'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'none': 'no obligation was discharged'}],
            'explanation': 'Symbolic execution of the real Python functions (from /repo\'s current source); states = feasible symbolic paths explored to their final assertion, '
                'transitions = solver decided forks and merged (if-then-else) definitions; every assertion on every path was decided by z3 over all integer values of the symbolic inputs within the bounds given.',
            'technique': getattr(module, 'TECHNIQUE', ''),
            'bounds': getattr(module, 'BOUNDS', ''),
            'stubs': getattr(module, 'STUBS', []),
            'obligations': len(obligations), 'discharged': len(discharged),
            'undecided': [{'name': r['name'], 'status': r['status'], 'reason': r.get('reason', r.get('label', ''))} for r in undecided],
            'paths_cut_by_assumptions': S('cut'), 'assertions_decided': S('checks'),
            'solver_queries': S('queries'), 'solver_seconds': round(S('solver_s'), 2),
            'functions_encoded': functions,
            'per_obligation': [{'name': r['name'], 'status': r['status'], 'bound': r['bound'], 'paths': r['stats'].get('paths'), 'assertions': r['stats'].get('checks'), 'queries': r['stats'].get('queries'), 'solver_s': r['stats'].get('solver_s'), 'wall_s': r['wall_s']} for r in results],
        },
        'assumptions': ['z3 is sound', 'Python evaluates the real functions on symbolic terms as it does on integers (validated by running path witnesses through the unmodified code)'] + list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if only is None:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(evidence, f, indent=1, default=str)
    for what in sorted(done_known): print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s: %d/%d obligations discharged, %d paths, %d queries, %.1fs solver, %d path witnesses validated, %.1fs' % (prop, tier, len(discharged), len(obligations), S('paths'), S('queries'), S('solver_s'), validated, time.time() - t0))
    for r in undecided: print('  undecided: %s [%s] %s' % (r['name'], r['status'], r.get('reason', r.get('label', ''))))
    if violations:
        for r, path in violations:
            print('  violated: %s: %s with %s' % (r['name'], r['label'], r['assignment']))
            print('  %s' % (str(r.get('replay', r.get('info')))[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][1]))
        return 1
    bad = [r for r in undecided if r['must']]
    if mismatches and any(not r['label'].startswith('raised') for r in mismatches):
        print('ERROR: a counterexample did not reproduce on the real code: the encoding is wrong')
        return 2
    musts = [o for o in obligations if o.must]
    if not discharged or len(bad) * 2 > max(1, len(musts)):
        print('ERROR: too few obligations could be decided')
        return 3
    return 0

def self_test():
    ''' The executor proves what is true, refutes what is false (with the right values) and is not vacuous. '''
    from . import env, engine as E
    env.install_shims()
    def ok(ctx):
        x, y = ctx.int('x'), ctx.int('y')
        ctx.assume(x > y)
        z = x if x % 2 == 0 else x + 1
        ctx.check(E.sand(z % 2 == 0, z >= x, E.smax(x, y) == x, 3 * (z // 3) <= z))
    def bad(ctx):
        x = ctx.int('x')
        if x > 1000: ctx.check(2 * x != 2 * 123457)
        else: ctx.check(True)
    s = E.Ctx(deadline=time.time() + 60).explore(ok)
    assert s.witnesses >= 2, s.as_dict()
    try: E.Ctx(deadline=time.time() + 60).explore(bad)
    except E.CounterExample as ce: assert ce.assignment == {'x': 123457}, ce.assignment
    else: raise AssertionError('missed a counterexample')
    print('self test passed')
    return 0
