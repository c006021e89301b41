"""python3 tools/refac.py FILE [NAME...]: behaviour-preserving edits (REFAC = [dict(n, props, edits)]); every listed check must stay quiet."""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))


def make(s):
    base = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    r = base + '/r'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        for f, old, new in s['edits']:
            t = open(f'{r}/{f}').read()
            assert t.count(old) == 1, (s['n'], f, t.count(old), old)
            open(f'{r}/{f}', 'w').write(t.replace(old, new))
        out = []
        if '--build' in sys.argv:
            e = dict(os.environ, CARGO_TARGET_DIR=base + '/t', CARGO_NET_OFFLINE='true')
            os.makedirs(base + '/d')
            T = os.path.join(H, 'tools/seed')
            open(base + '/d/Cargo.toml', 'w').write(open(T + '/Cargo.toml').read().replace('@REPO@', r))
            shutil.copy(T + '/Cargo.lock', base + '/d')
            open(base + '/d/main.rs', 'w').write('fn main() {}')
            c = subprocess.run(['cargo', 'check', '--offline', '-q'], cwd=base + '/d', env=e, capture_output=True, text=True)
            if c.returncode:
                out.append('DOES NOT COMPILE ' + '\n'.join(l for l in c.stderr.splitlines() if 'error' in l or '-->' in l)[-500:])
        for p in s['props']:
            e = dict(os.environ, VERIF_REPO=r, VERIF_OUT=base + '/o')
            c = subprocess.run(['python3-vt', 'run.py', p], cwd=H, env=e, capture_output=True, text=True)
            if c.returncode:
                out.append(f'{p} exit {c.returncode} ' + ' | '.join(c.stdout.splitlines()[:6])[:700])
        return f"{s['n']}: " + ('quiet' if not out else '\n   '.join(['ALARM'] + out))
    except Exception as x:
        return f"{s['n']}: EXC {x!r}"
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    L = runpy.run_path(sys.argv[1])['REFAC']
    w = [a for a in sys.argv[2:] if not a.startswith('--')]
    L = [s for s in L if not w or s['n'] in w]
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(make, L):
            print(o, flush=True)
