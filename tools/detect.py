"""python3-vt tools/detect.py [ID...]: run each planted bug's own check (or --all checks) against a scratch clone with the bug applied"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
S = os.path.join(H, 'seeded')
ALL = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(S))


def run(sid):
    m = json.load(open(f'{S}/{sid}/meta.json'))
    b = tempfile.mkdtemp(prefix='det', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', b + '/r'], check=True)
        subprocess.run(['git', '-C', b + '/r', 'apply', f'{S}/{sid}/patch.diff'], check=True)
        r = subprocess.run(['python3-vt', 'run.py', m['property'], 'quick'], cwd=H, env=dict(os.environ, VERIF_REPO=b + '/r', VERIF_OUT=b), capture_output=True, text=True)
        last = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'ERROR' in l or 'failed' in l]
        return f"{sid} [{m['property']}] exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'} {' | '.join(last)[:300]}"
    finally:
        shutil.rmtree(b)


with ThreadPoolExecutor(2) as ex:
    for o in ex.map(run, ids):
        print(o, flush=True)
