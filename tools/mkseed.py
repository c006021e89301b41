"""python3 tools/mkseed.py FILE [ID...]: (re)create seeded/<ID> from the definitions in FILE and confirm that each
demonstration passes on the unchanged tree and fails with the change.  Definitions: SEEDS = [dict(id, prop, edits=[(file, old, new)],
main, needs, breaks, crates)]."""
import sys, os, json, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
T = os.path.join(H, 'tools/seed')


def clone():
    s = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', s + '/r'], check=True)
    return s, s + '/r'


def demo(d, repo):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=600)
    return r.returncode, (r.stdout + r.stderr)[-250:]


def make(s):
    d = os.path.join(H, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    base, r = clone()
    try:
        for f in s.get('crates', ('h.rs',)):
            shutil.copy(os.path.join(T, f), os.path.join(d, f))
        for a, b in (('Cargo.toml', 'Cargo.toml.in'), ('Cargo.lock', 'Cargo.lock'), ('demo.sh', 'demo.sh')):
            shutil.copy(os.path.join(T, a), os.path.join(d, b))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(s['main'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        c0, o0 = demo(d, r)
        for f, old, new in s['edits']:
            t = open(f'{r}/{f}').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(f'{r}/{f}', 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout)
        c1, o1 = demo(d, r)
        compiles = 'error' not in o1.split('panicked')[0]
        return f"{s['id']}: unchanged {c0} changed {c1} {'OK' if c0 == 0 and c1 not in (0, 124) and compiles else 'BAD'}" + (
            '' if c0 == 0 and c1 and compiles else f'\n--- {o0}\n--- {o1}')
    except Exception as x:
        return f"{s['id']}: EXC {x!r}"
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    L = runpy.run_path(sys.argv[1])['SEEDS']
    L = [s for s in L if len(sys.argv) == 2 or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(make, L):
            print(o, flush=True)
