"""Build seeded changes from a spec file and try the checks on them.

usage: plant.py SPEC.py [--check] [--keep] [ID ...]

SPEC.py defines BUGS, a list of dictionaries:
  id, prop, file (or per edit), edits=[(old, new)] or [(file, old, new)], needs, breaks, demo (python text), files={name: text}
Each is applied to a scratch copy of /repo, the stable tests and the demonstration are run in it, and when
everything confirms, seeded/<id>/ is written.  With --check the check of the property is run against the copy.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
BASE = os.environ.get('PLANT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"
'''
PRELUDE = '''import io, logging, os, sys, tempfile
import numpy as np
logging.disable(logging.CRITICAL)


def same(got, want, what=''):
    ok = np.array_equal(got, want) if isinstance(want, np.ndarray) else got == want
    if not ok:
        print('FAIL', what, 'got', repr(got), 'want', repr(want))
        sys.exit(1)


def near(got, want, what='', tol=1e-8):
    if got is None or np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=0, atol=tol):
        print('FAIL', what, 'got', repr(got), 'want', repr(want))
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'pass'):
        if k in b:
            return set(b[k])
    raise SystemExit('baseline?')


def blame_original(path, lineno):
    out = sh(['git', '-C', BASE, 'blame', '-s', '-L', f'{lineno},{lineno}', '--', path]).stdout
    return out.startswith('^') or out.split()[0] in ('7c31b05', '7c31b05'[:7])


def removed(diff):
    cur, res, n = None, [], 0
    for line in diff.splitlines():
        if line.startswith('--- '):
            cur = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-'):
            res.append((cur, n))
            n += 1
        elif line.startswith(' '):
            n += 1
    return res


def one(bug, check):
    work = tempfile.mkdtemp(prefix='plant.')
    msgs, ok = [], True
    try:
        copy = os.path.join(work, 'repo')
        sh(['cp', '-a', BASE, copy])
        for edit in bug['edits']:
            name, old, new = edit if len(edit) == 3 else (bug['file'], *edit)
            path = os.path.join(copy, 'parsevasp', name)
            text = open(path).read()
            if text.count(old) != 1:
                return bug['id'], False, [f'old text found {text.count(old)} times: {old[:60]!r}']
            open(path, 'w').write(text.replace(old, new))
        diff = sh(['git', '-C', copy, 'diff']).stdout
        rem = removed(diff)
        orig = [blame_original(*r) for r in rem]
        if not rem or not all(orig):
            ok = False
            msgs.append(f'removed lines {len(rem)}, of them original {sum(orig)}')
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        xml = os.path.join(work, 'j.xml')
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', f'--basetemp={work}/tmp', '-o',
            'junit_family=xunit2', f'--junitxml={xml}', 'tests'], cwd=copy, env=env)
        res = os.path.join(work, 'o.json')
        sh([PY, '/opt/vp/results.py', res, f'junit:{xml}'], env=dict(env, PYTHONPATH=''), cwd=copy)
        data = json.load(open(res))
        passed = set(next(data[k] for k in ('passed', 'pass') if k in data))
        miss = sorted(stable() - passed)
        if miss:
            ok = False
            msgs.append(f'tests fail: {miss[:3]} ({len(miss)})')
        ddir = os.path.join(work, 'demo')
        os.makedirs(ddir)
        open(os.path.join(ddir, 'demo.py'), 'w').write(PRELUDE + bug['demo'].lstrip('\n'))
        open(os.path.join(ddir, 'demo.sh'), 'w').write(DEMO_SH)
        for name, text in bug.get('files', {}).items():
            open(os.path.join(ddir, name), 'w').write(text)
        os.chmod(os.path.join(ddir, 'demo.sh'), 0o755)
        good = sh(['bash', os.path.join(ddir, 'demo.sh')], cwd=BASE)
        bad = sh(['bash', os.path.join(ddir, 'demo.sh')], cwd=copy)
        if good.returncode != 0:
            ok = False
            msgs.append('demo fails unpatched: ' + (good.stdout + good.stderr)[-600:])
        if bad.returncode == 0:
            ok = False
            msgs.append('demo passes patched')
        else:
            msgs.append('demo: ' + (bad.stdout + bad.stderr).strip()[-150:])
        if check and not miss:
            for prop in [bug['prop']] + bug.get('also', []):
                r = sh([PY, f'{VERIF}/mc/run.py', prop], env=dict(os.environ, VERIF_REPO=copy, VERIF_TIER='quick',
                       VERIF_OUT=os.path.join(work, 'out')), cwd=VERIF)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                msgs.append(f'{prop}: ' + ('CAUGHT ' + (r.stdout.split('VIOLATION')[1].splitlines()+['',''])[1][:110] if r.returncode == 1 and v else
                                          f'MISSED rc={r.returncode} {(r.stdout+r.stderr)[-200:] if r.returncode else ""}'))
        if ok:
            out = os.path.join(VERIF, 'seeded', bug['id'])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            for f in os.listdir(ddir):
                shutil.copy(os.path.join(ddir, f), out)
            json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return bug['id'], ok, msgs
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    check = '--check' in args
    args = [a for a in args if not a.startswith('--')]
    bugs = runpy.run_path(args[0])['BUGS']
    if args[1:]:
        bugs = [b for b in bugs if b['id'] in args[1:]]
    with cf.ThreadPoolExecutor(3 if check else 6) as ex:
        for f in [ex.submit(one, b, check) for b in bugs]:
            name, ok, msgs = f.result()
            print('OK ' if ok else 'BAD', name, '|', ' | '.join(msgs), flush=True)


if __name__ == '__main__':
    main()
