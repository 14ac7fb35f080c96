#!/usr/bin/env python3
"""Development tool: small syntactic changes of /repo/ezodf that the unit tests do not notice,
run against the domains. Shows what the specifications do not look at yet. Not used by any check.

  mutate.py gen OUT.json            list all mutants
  mutate.py tests OUT.json          keep those that pass the tests (adds "alive")
  mutate.py run OUT.json [FILE..]   run the domains of the changed file on every surviving mutant
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/venv/bin/python'
FILES = [f for f in sorted(os.listdir(REPO + '/ezodf')) if f.endswith('.py')]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: '*', ast.FloorDiv: '*', ast.Div: '*'}


def mutants(fn):
    src = open(os.path.join(REPO, 'ezodf', fn), encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    raw = [l.encode() for l in lines]
    for l in raw:
        starts.append(starts[-1] + len(l) + 1)
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append({'file': fn, 'line': n.lineno, 'a': a, 'b': b, 'new': new, 'what': '%s: %s -> %s' % (what, text(n).split('\n')[0][:70], new.split('\n')[0][:70])})
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for s in f.body:
                for n in ast.walk(s):
                    infunc.add(n)
    for n in ast.walk(tree):
        if n in docs or n not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.Compare):
            add(n, '(%s)' % ' '.join([text(n.left)] + ['%s %s' % (CMP[type(o)] if k == 0 else {ast.Lt: '<', ast.LtE: '<='}.get(type(o), '=='), text(c)) for k, (o, c) in enumerate(zip(n.ops, n.comparators))]), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + op2.join('(%s)' % text(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'bin')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), 'const')
            if n.value:
                add(n, str(n.value - 1), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            if n.value == '':
                add(n, "'x'", 'const')
            elif len(n.value) == 1:
                add(n, "''", 'const')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value) + '[:]', 'slice')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'del')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, 'targets', [getattr(n, 'target', None)])[0], (ast.Attribute, ast.Subscript, ast.Name)):
            add(n, 'pass', 'del')
        elif isinstance(n, (ast.Delete, ast.Raise, ast.Continue, ast.Break)):
            add(n, 'pass', 'del')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, 'return None', 'ret')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + ['%s=%s' % (j.arg, text(j.value)) if j.arg else '**' + text(j.value) for j in n.keywords if j is not k]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'kw')
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                rest = [text(a) for a in n.args[:-1]] + ['%s=%s' % (j.arg, text(j.value)) for j in n.keywords if j.arg]
                add(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'arg')
            if isinstance(n.func, ast.Attribute) and len(n.args) == 1 and not n.keywords:
                add(n, text(n.args[0]), 'call')
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                add(n, text(n.func.value), 'call')
        elif isinstance(n, (ast.Try,)):
            pass
        elif isinstance(n, ast.For):
            add(n.iter, 'list(%s)[:1]' % text(n.iter), 'once')
            add(n.iter, 'list(%s)[::-1]' % text(n.iter), 'reverse')
    good = []
    for m in out:
        new = data[:m['a']] + m['new'].encode() + data[m['b']:]
        try:
            compile(new, fn, 'exec')
        except SyntaxError:
            continue
        good.append(m)
    return good


class Pool:
    def __init__(self, n):
        self.top = tempfile.mkdtemp(prefix='mut-')
        self.q = Queue()
        for k in range(n):
            d = os.path.join(self.top, 'r%d' % k)
            subprocess.check_call(['cp', '-a', REPO, d])
            self.q.put(d)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def apply(d, m):
    p = os.path.join(d, 'ezodf', m['file'])
    src = open(os.path.join(REPO, 'ezodf', m['file']), encoding='utf-8').read().encode()
    open(p, 'wb').write(src[:m['a']] + m['new'].encode() + src[m['b']:])
    return p


def restore(d, m):
    shutil.copyfile(os.path.join(REPO, 'ezodf', m['file']), os.path.join(d, 'ezodf', m['file']))


def tests(pool, m):
    d = pool.q.get()
    try:
        apply(d, m)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TMPDIR=d)
        try:
            r = subprocess.run(['timeout', '60', PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + [x for x in ('tests', 'integration_tests') if os.path.isdir(os.path.join(d, x))],
                               cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return r.returncode == 0
        finally:
            restore(d, m)
    finally:
        pool.q.put(d)


DOM = json.load(open(os.path.join(HERE, 'domains_of.json'))) if os.path.exists(os.path.join(HERE, 'domains_of.json')) else {}


def run(pool, m):
    """-> list of domains that notice"""
    d = pool.q.get()
    try:
        apply(d, m)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_OUT=os.path.join(d, '.out'), PYTHONDONTWRITEBYTECODE='1')
        for dom in DOM.get(m['file'], DOM['*']):
            r = subprocess.run(['timeout', '400', 'python3', os.path.join(HERE, 'nano.py'), dom], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return dom
            if r.returncode != 0:
                return '%s rc=%d %s' % (dom, r.returncode, r.stdout[-200:])
        return ''
    finally:
        restore(d, m)
        shutil.rmtree(os.path.join(d, '.out'), ignore_errors=True)
        pool.q.put(d)


if __name__ == '__main__':
    cmd, path = sys.argv[1:3]
    if cmd == 'gen':
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(path, 'w'), indent=0)
        print(len(ms))
    else:
        ms = json.load(open(path))
        n = int(os.environ.get('JOBS', '8' if cmd == 'tests' else '3'))
        pool = Pool(n)
        try:
            if cmd == 'tests':
                with ThreadPoolExecutor(n) as ex:
                    for m, ok in zip(ms, ex.map(lambda m: tests(pool, m), ms)):
                        m['alive'] = ok
                json.dump(ms, open(path, 'w'), indent=0)
                print(sum(m['alive'] for m in ms), 'of', len(ms))
            else:
                todo = [m for m in ms if m['alive'] and 'caught' not in m and (not sys.argv[3:] or m['file'] in sys.argv[3:])]
                with ThreadPoolExecutor(n) as ex:
                    for m, c in zip(todo, ex.map(lambda m: run(pool, m), todo)):
                        m['caught'] = c
                        print('%-9s %s:%d %s' % (c[:40] or 'SURVIVED', m['file'], m['line'], m['what']), flush=True)
                        json.dump(ms, open(path, 'w'), indent=0)
        finally:
            pool.close()
