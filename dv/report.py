"""Outcome of a check: evidence file, known findings, VIOLATION lines."""
import os, json, subprocess
from . import harness
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')

TRUSTED = [
    'dv/ (source extraction, path exploration, term simplifier; self-tested against CPython by tools/selftest.py)',
    'z3 (python3-vt) as the solver of the bit-vector obligations',
    'the Python language semantics as modelled by dv/lift.py and dv/sym.py (cross-checked natively on every run)',
    'spec/ (the specification functions)',
]

def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f: return json.load(f)
    except OSError:
        return {'findings': []}

def finish(prop, thorough, seed, results, ids, known, wall, pkgerr):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    bad = []
    for r in results:
        if r.get('violation'): bad.append((r, True))
        elif r['status'] == 'failed': bad.append((r, False))
    done = [r for r in results if r['status'] != 'skipped']
    proved = [r for r in done if r['status'] == 'proved' and not r.get('violation')]
    T = harness.TASKS
    # proved: tasks whose domain is the whole of the claim; tasks with a stated bound and
    # stand-ins are counted apart and never as proved
    full = [r for r in done if not T[r['task']].kw.get('bound') and r['status'] not in ('undecided', 'bounded')]
    part = [r for r in done if T[r['task']].kw.get('bound') and r['status'] not in ('undecided', 'bounded')]
    obl = sum(r.get('obligations', 0) for r in full)
    dis = sum(r.get('discharged', 0) for r in full)
    bobl = sum(r.get('obligations', 0) for r in part)
    bdis = sum(r.get('discharged', 0) for r in part)
    cobl = cdis = 0
    clog = {}
    for r in done:
        for k, v in r.get('contract_log', {}).items():
            clog.setdefault(k, v)
    for v in clog.values():
        cobl += v['obligations']; cdis += v['discharged'] if v['ok'] else 0
    backend = {}
    used = {}
    for r in done:
        for k, v in r.get('backend', {}).items(): backend[k] = backend.get(k, 0) + v
        for k, v in r.get('contracts', {}).items(): used[k] = used.get(k, 0) + v
    bounded = {r['task']: T[r['task']].kw['bound'] for r in done if T[r['task']].kw.get('bound')}
    standin = {r['task']: {'why': r['why'], 'native_runs': (r.get('fuzz') or {}).get('runs', 0)} for r in done
               if r['status'] in ('undecided', 'bounded')}
    fuzzruns = sum((r.get('fuzz') or {}).get('runs', 0) for r in done)
    fuzzchecks = sum((r.get('fuzz') or {}).get('checks', 0) for r in done)
    level = known_level(prop)
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3 /verif/check.py %s%s' % (prop, ' --thorough' if thorough else ''),
            'trusted_base': TRUSTED,
            'tasks': len(done), 'tasks_proved': sum(1 for r in full if r['status'] == 'proved' and not r.get('violation')),
            'bounded_checks': {'tasks': len(part), 'tasks_passed': sum(1 for r in part if r['status'] == 'proved' and not r.get('violation')),
                               'obligations': bobl, 'discharged': bdis,
                               'meaning': 'decided by the same verifier for all values, but only within the bound stated per task in bounded_tasks'},
            'obligations_by_backend': backend,
            'paths': sum(r.get('paths', 0) for r in done), 'solver_queries': sum(r.get('queries', 0) for r in done),
            'solver_s': round(sum(r.get('solver_s', 0) for r in done), 3),
            'callee_contracts': {'shapes_verified': sum(1 for v in clog.values() if v['ok']),
                                 'shapes_not_met': [k for k, v in clog.items() if not v['ok']][:20],
                                 'obligations': cobl, 'discharged': cdis, 'uses': used},
            'functions_under_contract': functions(done),
            'native_errors': sorted(set(r['nerr'] for r in done if r.get('nerr'))),
            'bounded_tasks': bounded, 'stand_ins': standin,
            'evaluations': fuzzruns, 'native_checks': fuzzchecks,
            'explanation': explanation(prop, full, part, done, standin),
            'samples': [dict(task=r['task'], obligations=r.get('obligations'), secs=round(r.get('secs', 0), 2)) for r in done[:5]],
        },
        'assumptions': assumptions(prop, done),
        'wall_s': round(wall, 2), 'violations': len(bad),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    for k in known.get('findings', ()):
        if prop in k['properties'] and probe(k):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r, confirmed in bad[:10]:
        path = os.path.join(EVID, 'replay', '%s.%s.json' % (prop, r['task'].replace('/', '_')))
        d = {'property': prop, 'task': r['task'], 'failures': r.get('failures'), 'why': r.get('why')}
        if confirmed:
            v = r['violation']
            d.update(inputs=v['inputs'], obligation=v['obligation'], failed_checks=v['names'], how=v['how'],
                     replay='python3 /verif/replay.py %s' % path)
        else:
            d.update(obligation=r['failures'][0][0], verifier_output=r['failures'], note='the counter-model did not reproduce on the real code')
        with open(path, 'w') as f: json.dump(d, f, indent=1, default=str)
        print('obligation failed: %s %s' % (d['obligation'], json.dumps(d.get('failed_checks') or r['failures'], default=str)[:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'))
    print('%s: %d tasks; %d of %d obligations discharged without a bound, %d of %d within stated bounds (+%d of callee contracts); '
          '%d stand-ins, %d native runs, %.1f s' % (prop, len(done), dis, obl, bdis, bobl, cdis, len(standin), fuzzruns, wall))
    for k, v in list(standin.items())[:20]: print('  stand-in (bounded) %s: %s; %d native runs' % (k, v['why'][:200], v['native_runs']))
    nerr = sorted(set(r['nerr'] for r in done if r.get('nerr')))
    if nerr: print('  the real package could not be run for the cross-check: %s' % nerr[:3])
    if bad: return 1
    # nothing decided at all is not a pass
    if not done or (not proved and fuzzruns == 0):
        path = os.path.join(EVID, 'replay', '%s.undecided.json' % prop)
        with open(path, 'w') as f: json.dump({'property': prop, 'why': pkgerr or 'no task could be decided', 'stand_ins': standin}, f, indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0

def known_level(prop):
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop: return c['level']
    except (OSError, ValueError): pass
    return 'proof'

def functions(done):
    out = set()
    for r in done:
        out.update(harness.TASKS[r['task']].kw.get('functions', ()))
        out.update(r.get('contracts', ()))
    return sorted(out)

def assumptions(prop, done):
    out = ['Python integers are modelled exactly (unbounded); no machine arithmetic is abstracted',
           'memory exhaustion, recursion limits and interpreter bugs are not modelled']
    for r in done:
        for a in harness.TASKS[r['task']].kw.get('assumes', ()):
            if a not in out: out.append(a)
    return out

def explanation(prop, full, part, done, standin):
    ok = lambda rs: sum(1 for r in rs if r['status'] == 'proved' and not r.get('violation'))
    return ('%d of %d verification tasks without a bound were discharged for all inputs of their domain by path-exhaustive symbolic '
            'execution of the extracted source against its contract, with solver-checked obligations; %d of %d tasks with a stated bound '
            '(bounded_tasks) were discharged for all values within that bound and are not counted as proved; %d tasks could not be decided '
            'and were only run natively on random inputs (stand_ins).  Every task was also run natively on the real package as a cross-check '
            '(evaluations).' % (ok(full), len(full), ok(part), len(part), len(standin)))

def probe(k):
    """is the listed deviation still there?"""
    exe = '/opt/venv-pypy/bin/python'
    if not os.path.exists(exe):
        import sys
        exe = sys.executable
    try:
        r = subprocess.run([exe, os.path.join(HERE, 'tools', 'known_probe.py'), k['id']], capture_output=True, text=True, timeout=60)
        return r.stdout.strip() == 'deviates'
    except (OSError, subprocess.TimeoutExpired):
        return False
