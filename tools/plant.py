"""Make a planted change in /verif/seeded/<id>: patch, demonstration, meta data.

A change is kept only after it is confirmed in a scratch copy of /repo: the
demonstration passes on the unchanged tree and fails with the change, and the
stable tests pass with the change.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def edit(path, old, new):
    s = open(path, newline='').read()
    crlf = '\r\n' in s
    s = s.replace('\r\n', '\n')
    pat = re.compile(r'\n(?:[ ]*\n)*'.join(re.escape(l) for l in re.sub(r'\n(?:[ ]*\n)+', '\n', old).split('\n')))
    assert len(pat.findall(s)) == 1, (len(pat.findall(s)), old)
    s = pat.sub(lambda m: new, s)
    open(path, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)


def stable(cwd):
    names = json.load(open('/opt/vp/BASELINE.json'))['stable']
    args = []
    for n in names:
        mod, test = n.split('::')
        parts = mod.split('.')
        args.append('/'.join(parts[:-1]) + '.py::' + parts[-1] + '::' + test)
    r = subprocess.run(
        ['/opt/venv/bin/python', '-m', 'pytest', '-s', '-q', '-p', 'no:cacheprovider'] + args,
        cwd=cwd, input='/repo/tests/data/CHAOS_test.mat\n'*100, text=True,
        capture_output=True, env=dict(os.environ, PYTHONPATH=cwd, MPLBACKEND='Agg',
                                      PYTHONDONTWRITEBYTECODE='1'))
    return r.returncode == 0, r.stdout[-1500:]


def plant(id_, prop, edits, demo, needs, breaks, tests=True):
    """edits: list of (file in chaosmagpy, old, new)."""
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        copy = tmp + '/repo'
        subprocess.run(['cp', '-a', REPO, copy], check=True)
        d = tmp + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)

        def run():
            return subprocess.run(['bash', d + '/demo.sh'], cwd=copy, text=True, capture_output=True)
        r = run()
        if r.returncode:
            print(id_, 'DEMO FAILS ON UNCHANGED TREE\n', r.stdout, r.stderr)
            return
        for f, old, new in edits:
            edit(copy + '/chaosmagpy/' + f, old, new)
        r = run()
        if r.returncode == 0:
            print(id_, 'DEMO PASSES WITH CHANGE')
            return
        last = (r.stderr.strip().splitlines() or ['?'])[-1]
        if tests:
            ok, out = stable(copy)
            if not ok:
                print(id_, 'STABLE TESTS FAIL', out)
                return
        diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True).stdout
        out = f'{HERE}/seeded/{id_}'
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        shutil.copy(d + '/demo.py', out)
        shutil.copy(d + '/demo.sh', out)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(out + '/meta.json', 'w'), indent=1)
        r = subprocess.run(['git', '-C', REPO, 'apply', '--check', out + '/patch.diff'])
        print(id_, 'kept' if r.returncode == 0 else 'DOES NOT APPLY', '|', last)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def caught(id_, tier='quick'):
    """Run the check of the property against a scratch copy with the change."""
    meta = json.load(open(f'{HERE}/seeded/{id_}/meta.json'))
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        copy = tmp + '/repo'
        subprocess.run(['cp', '-a', REPO, copy], check=True)
        subprocess.run(['git', '-C', copy, 'apply', f'{HERE}/seeded/{id_}/patch.diff'], check=True)
        p = subprocess.run(['bash', f'{HERE}/checks/run.sh', meta['property'], '--tier', tier],
                           text=True, capture_output=True, env=dict(os.environ, VERIF_REPO=copy))
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        print(id_, meta['property'], 'caught' if p.returncode == 1 and v else f'MISSED rc={p.returncode}',
              v[:1] or p.stdout[-300:] + p.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
    for i in ids:
        caught(i)
