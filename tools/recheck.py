"""Run the check of a planted bug against a copy of /repo that carries it: recheck.py [--prop Cxx] [ID...]; writes tools-independent table to stdout."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def main():
    args = sys.argv[1:]
    prop = None
    if args and args[0] == '--prop':
        prop = args[1].split(',')
        args = args[2:]
    for name in sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, name, 'meta.json')))
        if args and name not in args or prop and meta['property'] not in prop:
            continue
        tmp = tempfile.mkdtemp(prefix='recheck_')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            done = subprocess.run(['git', '-C', repo, 'apply', os.path.join(SEEDED, name, 'patch.diff')], capture_output=True, text=True)
            if done.returncode:
                print(name, 'DOES NOT APPLY', done.stderr.strip()[:200], flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=os.path.join(tmp, 'out'), VERIF_TIER='quick')
            os.makedirs(env['VERIF_OUT'])
            done = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'mc/run.py'), meta['property']], capture_output=True, text=True, env=env)
            lines = [l.strip() for l in done.stdout.splitlines() if 'clause=' in l]
            ok = done.returncode == 1 and 'VIOLATION property=' + meta['property'] in done.stdout
            print('%-34s %s %s' % (name, 'CAUGHT' if ok else 'MISSED rc=%d' % done.returncode, lines[0][:160] if lines else done.stdout[-300:].replace('\n', ' | ') if not ok else ''), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
