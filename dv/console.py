"""The interactive console.  `cmdis/__main__.py` is Python 2 source that setup.py
has 2to3 convert when it is installed; the same standard converter (lib2to3) is
applied here to the file as it is in the tree, and nothing else."""
import ast, os, sys, types

PYPY = '/opt/venv-pypy/bin/python'
_memo = {}
def convert(src):
    try:
        ast.parse(src)
        return src
    except SyntaxError: pass
    if src in _memo: return _memo[src]
    import warnings
    warnings.simplefilter('ignore')
    try: from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    except ImportError: return elsewhere(src)
    t = RefactoringTool(get_fixers_from_package('lib2to3.fixes'))
    _memo[src] = r = str(t.refactor_string(src if src.endswith('\n') else src + '\n', '__main__.py'))
    return r

def elsewhere(src):
    """this interpreter has no lib2to3; the project's own has"""
    import subprocess, json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = 'import sys, json; sys.path.insert(0, %r); from dv import console; print(json.dumps(console.convert(json.load(sys.stdin))))' % here
    p = subprocess.run([PYPY, '-c', code], input=json.dumps(src).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode: raise ValueError('cannot convert the console: ' + p.stderr.decode()[-300:])
    _memo[src] = r = json.loads(p.stdout.decode())
    return r

def source(repo):
    path = os.path.join(repo, 'cmdis', '__main__.py')
    with open(path, encoding='utf-8') as f: return path, convert(f.read())

def load(repo):
    path, src = source(repo)
    m = types.ModuleType('cmdis.__main__')
    m.__file__ = path
    exec(compile(src, path, 'exec'), m.__dict__)
    return m
