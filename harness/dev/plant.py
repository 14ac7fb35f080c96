#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

  plant.py make FILE.py      write /verif/seeded/<id>/ from the BUGS list in FILE.py
  plant.py verify [ID..]     patch applies, tests pass, demo passes clean and fails patched
  plant.py probe FILE.py [ID..]  the same for edits without a demonstration
  plant.py catch [ID..]      run the property's quick check against a patched copy
Everything happens in scratch copies of /repo below /tmp, removed afterwards.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


class Copy:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='plant-')
        self.dir = os.path.join(self.top, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', self.dir])
        subprocess.check_call(['git', '-C', self.dir, 'checkout', '-q', '--', '.'])
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top)

    def run(self, cmd, **kw):
        return subprocess.run(cmd, cwd=self.dir, env=ENV, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, **kw)


def make(path):
    bugs = runpy.run_path(path)['BUGS']
    for b in bugs:
        d = os.path.join(SEEDED, b['id'])
        with Copy() as c:
            ok = True
            for fn, old, new in b['edits']:
                p = os.path.join(c.dir, 'ezodf', fn)
                s = open(p, encoding='utf-8', newline='').read()
                if '\r\n' in s:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    print(b['id'], 'EDIT MATCHES', s.count(old), fn); ok = False; break
                open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(['git', '-C', c.dir, 'diff'], stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# cwd: /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def baseline():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) or None


def verify(i):
    d = os.path.join(SEEDED, i)
    with Copy() as c:
        demo = ['sh', os.path.join(d, 'demo.sh')]
        r = c.run(demo)
        if r.returncode:
            return i, 'DEMO FAILS ON CLEAN: ' + r.stdout[-400:]
        r = c.run(['git', 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode:
            return i, 'PATCH: ' + r.stdout
        r = c.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', 'integration_tests'] if os.path.isdir(os.path.join(c.dir, 'integration_tests')) else [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], timeout=600)
        if r.returncode:
            return i, 'TESTS FAIL: ' + '\n'.join(r.stdout.splitlines()[-6:])
        r = c.run(demo)
        if r.returncode == 0:
            return i, 'DEMO PASSES WITH PATCH'
        return i, 'ok (%s)' % (r.stdout.strip().splitlines() or [''])[-1][:100]


def catch(i):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    with Copy() as c:
        r = c.run(['git', 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode:
            return i, 'PATCH: ' + r.stdout
        out = tempfile.mkdtemp(prefix='plant-out-')
        env = dict(ENV, VERIF_REPO=c.dir, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                   VERIF_TIER='quick', VERIF_OUT=out)
        r = subprocess.run(['python3', os.path.join(VERIF, 'harness', 'check.py'), prop], cwd=VERIF,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(out)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and v:
            return i, prop + ' caught: ' + v[0]
        return i, prop + ' MISSED rc=%d %s' % (r.returncode, r.stdout[-300:] if r.returncode else '')


def probe(b):
    """A change without a demonstration: do the tests pass, does the check notice?"""
    with Copy() as c:
        for fn, old, new in b['edits']:
            p = os.path.join(c.dir, 'ezodf', fn)
            s = open(p, encoding='utf-8', newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return b['id'], 'EDIT MATCHES %d %s' % (s.count(old), fn)
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        r = c.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + [t for t in ('tests', 'integration_tests') if os.path.isdir(os.path.join(c.dir, t))], timeout=600)
        if r.returncode:
            return b['id'], 'tests fail'
        msg = []
        for prop in b['property'].split():
            out = tempfile.mkdtemp(prefix='plant-out-')
            env = dict(ENV, VERIF_REPO=c.dir, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VERIF_OUT=out)
            r = subprocess.run(['python3', os.path.join(VERIF, 'harness', 'check.py'), prop], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(out)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg.append(prop + (' caught' if r.returncode == 1 and v else ' MISSED rc=%d %s' % (r.returncode, ' '.join(l for l in r.stdout.splitlines() if l.startswith('note')) if not r.returncode else r.stdout[-300:])))
        return b['id'], ', '.join(msg)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0])
    elif cmd == 'probe':
        with ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '3'))) as ex:
            for i, msg in ex.map(probe, [b for b in runpy.run_path(args[0])['BUGS'] if not args[1:] or b['id'] in args[1:]]):
                print('%-28s %s' % (i, msg), flush=True)
    else:
        ids = args or sorted(os.listdir(SEEDED))
        f, n = (verify, 6) if cmd == 'verify' else (catch, int(os.environ.get('PLANT_JOBS', '2')))
        bad = 0
        with ThreadPoolExecutor(n) as ex:
            for i, msg in ex.map(f, ids):
                print('%-28s %s' % (i, msg), flush=True)
