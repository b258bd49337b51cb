#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--jobs N] [--only PATTERN]

Decides one property: every verification task of the property is discharged by
the deductive engine (dv/) on the package extracted from /repo's working tree.
Exit 0: held.  Exit 1 and a VIOLATION line: a named obligation failed."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if not os.environ.get('DV_INNER'):
    os.environ['DV_INNER'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    import shutil
    exe = shutil.which('python3-vt') or VT
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
import json, time, fnmatch, signal, subprocess, select, multiprocessing, traceback, random

PYPY = '/opt/venv-pypy/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class Native(object):
    """the real package in its own interpreter"""
    def __init__(self): self.p = None
    def start(self):
        exe = PYPY if os.path.exists(PYPY) else sys.executable
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
        self.p = subprocess.Popen([exe, os.path.join(HERE, 'dv', 'native.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=HERE)
        self.buf = b''
    def ask(self, q, timeout=60):
        if self.p is None or self.p.poll() is not None: self.start()
        try:
            self.p.stdin.write((json.dumps(q) + '\n').encode()); self.p.stdin.flush()
        except OSError:
            self.stop()
            return {'error': 'the real package could not be started'}
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {'error': 'no answer within %d s' % timeout}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r: continue
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                self.stop()
                return {'error': 'the real package stopped'}
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)
    def stop(self):
        if self.p is not None:
            try: self.p.kill(); self.p.wait()
            except OSError: pass
        self.p = None

# ---------------------------------------------------------------------- worker
G = {}
def setup_worker(pkgerr, thorough, deadline, stop):
    G.update(pkgerr=pkgerr, thorough=thorough, deadline=deadline, stop=stop, native=Native())

def attempt(tid, contracts_on, budget):
    from dv import contracts, engine as E, harness, term as T, mathmode
    t = harness.TASKS[tid]
    T.reset()
    contracts.STATE['enabled'] = contracts_on and t.kw.get('contracts', True)
    for k in [k for k, v in contracts.STATE['cache'].items() if isinstance(v, dict) and not v['ok'] and v['why'].startswith(('Budget', 'Unsupp'))]:
        del contracts.STATE['cache'][k]
    before = set(contracts.STATE['log'])
    dl = min(time.time() + budget, G['deadline'])
    e = E.Engine(tid, timeout_ms=30000 if not G['thorough'] else 120000, deadline=dl, math=t.kw.get('math', False))
    h = harness.Sym(contracts.STATE['pkg'], e)
    import faulthandler
    def alarm(*a):
        if os.environ.get("DV_TRACE"): faulthandler.dump_traceback()
        raise E.Budget('time budget exhausted in %s (no progress)' % tid)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, int(dl - time.time()) + 15))
    r = {'task': tid, 'status': None, 'why': '', 'failures': []}
    t0 = time.time()
    try:
        def first():
            was = contracts.STATE['enabled']
            contracts.STATE['enabled'] = False
            try: harness.used_before(contracts.STATE['pkg'], t)
            finally: contracts.STATE['enabled'] = was
        e.run(lambda: t.fn(h, *t.args), first)
        if e.failures:
            r['status'] = 'failed' if any(f.status == 'sat' for f in e.failures) else 'undecided'
            if r['status'] == 'undecided': r['why'] = 'solver gave up on ' + e.failures[0].name
            if e.cut and r['status'] == 'failed': r['cut'] = True
            r['failures'] = [(f.name, f.model, f.status, str(f.detail)) for f in e.failures]
        elif e.stats.obligations == 0:
            r['status'] = 'undecided'; r['why'] = 'no obligation was generated'
        else: r['status'] = 'proved'
    except (E.Budget, T.Unsupported) as x:
        r['status'] = 'undecided'; r['why'] = '%s: %s' % (type(x).__name__, x)
    except harness.Unfit as x:
        r['status'] = 'undecided'; r['why'] = 'Unfit: %s' % x
    except harness.Skip as x:
        r['status'] = 'undecided'; r['why'] = 'Skip: %s' % x
    except Exception as x:
        r['status'] = 'undecided'; r['why'] = 'engine error %s: %s' % (type(x).__name__, x)
        r['trace'] = traceback.format_exc()
    finally:
        signal.alarm(0)
        contracts.STATE['enabled'] = True
        contracts.STATE['busy'].clear()
        E._current[0] = None
    s = e.stats
    r.update(obligations=s.obligations, discharged=s.discharged, trivial=s.trivial, paths=s.paths, queries=s.queries,
             solver_s=s.solver_s, backend=s.by_backend, contracts=s.contracts_used, secs=time.time() - t0,
             contract_log={k: v for k, v in contracts.STATE['log'].items() if k not in before})
    return r

def run_task(tid):
    try:
        return run_task_(tid)
    except Exception as x:
        return {'task': tid, 'status': 'undecided', 'why': 'internal: %s' % x, 'trace': traceback.format_exc(), 'obligations': 0,
                'discharged': 0, 'secs': 0, 'failures': [], 'fuzz': None}

def run_task_(tid):
    from dv import harness
    t = harness.TASKS[tid]
    if G['stop'].is_set(): return {'task': tid, 'status': 'skipped'}
    left = G['deadline'] - time.time()
    budget = t.kw.get('budget', 150) * (4 if G['thorough'] else 1)
    if G['pkgerr']: r = {'task': tid, 'status': 'undecided', 'why': G['pkgerr'], 'obligations': 0, 'discharged': 0, 'secs': 0, 'failures': []}
    elif not t.sym: r = {'task': tid, 'status': 'bounded', 'why': 'bounded by design', 'obligations': 0, 'discharged': 0, 'secs': 0, 'failures': []}
    elif left < 5: r = {'task': tid, 'status': 'undecided', 'why': 'out of time', 'obligations': 0, 'discharged': 0, 'secs': 0, 'failures': []}
    else: r = attempt(tid, True, budget)
    n = G['native']
    seed0 = SEED * 1000003 % (1 << 30)
    def replay(r):
        for f in r['failures']:
            if f[1] is None: continue
            a = n.ask({'task': tid, 'inputs': f[1]})
            if a.get('failed'):
                return dict(inputs=a['inputs'], names=a['names'], obligation=f[0], how='counter-model of the verifier')
    if not t.native:
        return r
    if r['status'] == 'failed':
        v = replay(r)
        if v: r['violation'] = v; G['stop'].set(); return r
    if r['status'] in ('failed', 'undecided') and r.get('contracts') and left > 60:
        r2 = attempt(tid, False, budget)
        if r2['status'] == 'failed':
            r = r2
            v = replay(r)
            if v: r['violation'] = v; G['stop'].set(); return r
        elif r2['status'] == 'proved': r = r2
    if r.get('cut'):
        # behind a loop contract the state is only known by its invariant
        r['status'] = 'undecided'; r['why'] = 'not shown behind a loop contract: ' + r['failures'][0][0]
    # random inputs on the real package: a cross-check when proved, a stand-in when not
    if r['status'] == 'proved': secs, count = (2, 40) if not G['thorough'] else (20, 2000)
    elif r['status'] == 'bounded': secs, count = t.kw.get('secs', 20), t.kw.get('count', 5000)
    else: secs, count = 25, 200000
    if G['thorough'] and r['status'] == 'bounded': secs *= 5; count *= 5
    fixes = [{}]
    for f in r['failures']:
        if f[1]:
            words = {k: v for k, v in f[1].items() if not isinstance(v, dict)}
            fixes = [words, {k: v for k, v in words.items() if k == 'w'}] + fixes
    runs = checks = 0
    a = {}
    for fx in fixes:
        a = n.ask({'task': tid, 'seeds': [seed0, seed0 + count], 'fix': fx, 'secs': secs / len(fixes)}, timeout=secs + 60)
        runs += a.get('runs', 0); checks += a.get('checks', 0)
        if a.get('failed'):
            r['violation'] = dict(inputs=a['inputs'], names=a['names'], obligation='%s/%s' % (tid, a['names'][0][0]),
                                  how='random inputs on the real package')
            G['stop'].set()
            break
    if 'error' in a: r['nerr'] = a['error']
    r['fuzz'] = {'runs': runs, 'checks': checks}
    return r

# ---------------------------------------------------------------------- main
def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--thorough', action='store_true'); ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    prop = o.property
    thorough = o.thorough or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    from dv import report
    known = report.load_known()
    pkgerr = ''
    from dv import term as T
    from dv import contracts, load, harness
    import tasks
    try:
        tasks.load_all()
        p = load.Package()
        if prop == 'T01':
            try: p.load_console()
            except Exception: pass
        contracts.STATE['pkg'] = p
    except (Exception, T.Unsupported) as x:
        pkgerr = 'the package could not be extracted: %s: %s' % (type(x).__name__, x)
        if o.v: traceback.print_exc()
    ids = [t.id for t in harness.TASKS.values() if prop in t.props and (thorough or not t.kw.get('thorough'))]
    if o.only: ids = [i for i in ids if fnmatch.fnmatch(i, o.only)]
    if not ids:
        print('no tasks for', prop); sys.exit(2)
    ids.sort(key=lambda i: -harness.TASKS[i].weight)
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    deadline = t0 + (3600 if thorough else 540)
    jobs = min(o.jobs or int(os.environ.get('DV_JOBS', '0') or 0) or (os.cpu_count() or 4), len(ids))
    results = []
    with ctx.Pool(jobs, setup_worker, (pkgerr, thorough, deadline, stop)) as pool:
        for r in pool.imap_unordered(run_task, ids):
            results.append(r)
            if o.v:
                print('%-34s %-9s obl=%s/%s %.1fs %s %s' % (r['task'], r['status'], r.get('discharged'), r.get('obligations'), r.get('secs', 0), r.get('why', ''), r.get('fuzz')), flush=True)
                for f in r.get('failures', ())[:3]: print('     ', f)
                if 'trace' in r: print(r['trace'])
        pool.terminate()
    sys.exit(report.finish(prop, thorough, SEED, results, ids, known, time.time() - t0, pkgerr))

if __name__ == '__main__':
    main()
