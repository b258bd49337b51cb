"""Runs verification tasks on the real, unmodified package under the interpreter
of the project's own tests.  Reads one JSON request per line, answers with one
JSON line.  Requests: {"task": id, "inputs": {...}} replays concrete inputs;
{"task": id, "seeds": [a, b], "fix": {...}, "secs": s} runs random inputs."""
import sys, os, json, signal, time, types, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(1, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
v = types.ModuleType('cmdis._version')
v.version = v.__version__ = '0'
sys.modules['cmdis._version'] = v

from dv import harness
from dv.harness import Nat, Skip, TASKS

class Real(object):
    def __init__(self):
        import importlib
        self._m = {}
        d = os.path.join(REPO, 'cmdis')
        importlib.import_module('cmdis')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f not in ('__init__.py', '__main__.py', '_version.py', 'setup.py'):
                self._m[f[:-3]] = importlib.import_module('cmdis.' + f[:-3])
    def __getattr__(self, n):
        if n == 'console' and n not in self._m: return self.load_console()
        try: return self.__dict__['_m'][n]
        except KeyError: raise AttributeError(n)
    def load_console(self):
        from dv import console
        m = self._m['console'] = console.load(REPO)
        return m

PKG = [None]
def pkg():
    if PKG[0] is None: PKG[0] = Real()
    return PKG[0]

class Hang(Exception): pass
def alarm(*a): raise Hang('did not finish within 20 s')
signal.signal(signal.SIGALRM, alarm)

def one(t, inputs=None, seed=None):
    h = Nat(pkg(), inputs, seed)
    try:
        if seed is None:
            signal.alarm(20)
            harness.used_before(pkg(), t)
        signal.alarm(20)
        t.fn(h, *t.args)
    except Skip:
        return None, h
    except harness.Unfit as e:
        return None, h
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        h.failed.append(('unexpected %s: %s' % (type(e).__name__, e), '%s:%s' % (tb[-1].filename, tb[-1].lineno)))
    finally: signal.alarm(0)
    return bool(h.failed), h

def answer(q):
    t = TASKS[q['task']]
    if 'inputs' in q:
        r, h = one(t, q['inputs'])
        return {'failed': bool(r), 'skipped': r is None, 'checks': h.checks, 'names': h.failed[:8], 'inputs': h.used}
    n = checks = skipped = 0
    t0 = time.time()
    signal.alarm(20)
    try: harness.used_before(pkg(), t)
    except Exception: pass
    for s in range(*q['seeds']):
        if time.time() - t0 > q.get('secs', 10): break
        r, h = one(t, dict(q.get('fix') or {}), s)
        n += 1
        checks += h.checks
        if r is None: skipped += 1
        if r:
            # confirm deterministically from the recorded inputs
            r2, h2 = one(t, h.used)
            if r2:
                return {'failed': True, 'names': h2.failed[:8], 'inputs': h.used, 'runs': n, 'checks': checks, 'seed': s}
    return {'failed': False, 'runs': n, 'checks': checks, 'skipped': skipped}

def main():
    import tasks
    tasks.load_all()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try: a = answer(q)
        except Exception as e:
            a = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()}
        out.write(json.dumps(a) + '\n')
        out.flush()

if __name__ == '__main__':
    main()
