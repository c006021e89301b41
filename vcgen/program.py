"""Load the syn dump of /repo's current sources and index it."""
import json, os, subprocess, sys, glob

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
DUMPER = os.path.join(HERE, '..', 'dumper')


class ToolError(Exception):
    """the machinery cannot decide (lost anchor, unsupported construct): error exit, never an alarm"""


def dumper_bin():
    b = os.path.join(DUMPER, 'target', 'release', 'rsdump')
    if not os.path.exists(b):
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(DUMPER, 'target'))
        env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
        r = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=DUMPER, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError('building the source dumper failed:\n' + r.stdout)
    return b


def source_files():
    out = []
    for pat in ('common/*/src/*.rs', 'controller/src/**/*.rs', 'liquidity_layer/src/**/*.rs',
                'price_aggregator/src/**/*.rs'):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(set(out))


class Fn:
    __slots__ = ('name', 'crate', 'file', 'sig', 'body', 'attrs', 'line', 'owner', 'kind')

    def __repr__(s):
        return f'{s.crate}::{s.owner}::{s.name}'


class Program:
    def __init__(self, ast=None):
        if ast is None:
            files = source_files()
            r = subprocess.run([dumper_bin()] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise ToolError('source does not parse: ' + r.stderr)
            ast = json.loads(r.stdout)
        self.fns = {}      # (crate, name) -> [Fn]   trait/free functions
        self.impls = {}    # (struct, name) -> [Fn]
        self.structs = {}  # name -> [(crate, fields)]
        self.enums = {}
        self.consts = {}
        self.drops = {}    # struct -> (crate, Fn)
        self.types = {}
        self.endpoints = {}  # crate -> list of Fn
        self.allow = {}
        for f in ast:
            rel = os.path.relpath(f['file'], REPO)
            crate = rel.split('/')[0]
            if crate == 'common':
                crate = 'common' if '/proxies/' not in rel else 'proxies'
            self._items(f['items'], crate, rel)

    def _fn(self, x, crate, rel, owner, kind):
        f = Fn()
        f.name = x['sig']['n']; f.crate = crate; f.file = rel; f.sig = x['sig']; f.body = x['b']
        f.attrs = x['attrs']; f.line = x['l']; f.owner = owner; f.kind = kind
        return f

    def _items(self, items, crate, rel):
        for it in items:
            k = it.get('k')
            if any('cfg (test)' in a or 'cfg(test)' in a for a in it.get('attrs', []) or []):
                continue
            if k == 'trait':
                for x in it['fns']:
                    self.fns.setdefault((crate, x['sig']['n']), []).append(self._fn(x, crate, rel, it['n'], 'trait'))
            elif k == 'fn':
                self.fns.setdefault((crate, it['sig']['n']), []).append(self._fn(it, crate, rel, '', 'free'))
            elif k == 'impl':
                t = it['ty']
                if t.get('k') != 'path':
                    continue
                name = t['p'][-1][0]
                tr = it['trait'][-1][0] if it['trait'] else None
                for x in it['fns']:
                    fn = self._fn(x, crate, rel, name, 'impl')
                    if tr == 'Drop' and fn.name == 'drop':
                        self.drops[(crate, name)] = fn
                    else:
                        self.impls.setdefault((crate, name, fn.name), []).append(fn)
                for c in it['consts']:
                    self.consts.setdefault((crate, name + '::' + c['n']), c)
            elif k == 'struct':
                self.structs.setdefault(it['n'], []).append((crate, it['f'], it.get('g', [])))
            elif k == 'enum':
                self.enums.setdefault(it['n'], []).append((crate, it['v']))
            elif k == 'const':
                self.consts.setdefault((crate, it['n']), it)
            elif k == 'type':
                self.types.setdefault(it['n'], it['t'])
            elif k == 'mod' and it.get('items'):
                self._items(it['items'], crate, rel)

    def lookup(self, crate, name, must=True):
        for c in (crate, 'common'):
            l = self.fns.get((c, name))
            if l:
                l2 = [f for f in l if f.body is not None] or l
                if len(l2) > 1:
                    raise ToolError(f'ambiguous function {c}::{name}')
                return l2[0]
        if must:
            raise ToolError(f'function {name} not found for crate {crate}')
        return None

    def impl(self, crate, struct, name):
        for c in (crate, 'common'):
            l = self.impls.get((c, struct, name))
            if l:
                return l[0]
        for (c, s, n), l in self.impls.items():
            if s == struct and n == name and c != 'proxies':
                return l[0]
        return None

    def struct(self, name, crate=None):
        l = self.structs.get(name)
        if not l:
            return None
        for c in (crate, 'common', 'price_aggregator'):
            for e in l:
                if e[0] == c:
                    return e
        return l[0]

    def enum(self, name, crate=None):
        l = self.enums.get(name)
        if not l:
            return None
        for c in (crate, 'common'):
            for e in l:
                if e[0] == c:
                    return e
        return l[0]

    def const(self, crate, name):
        for c in (crate, 'common'):
            if (c, name) in self.consts:
                return self.consts[(c, name)]
        for (c, n), v in self.consts.items():
            if n == name and c != 'proxies':
                return v
        return None

    def endpoint_fns(self, crate):
        """every function of a crate exposed on chain: [(endpoint attr kind, Fn)]"""
        out = []
        for (c, n), l in self.fns.items():
            if c != crate:
                continue
            for f in l:
                kinds = [a.split('(')[0].strip() for a in f.attrs]
                for k in ('endpoint', 'view', 'init', 'upgrade', 'callback'):
                    if k in kinds and f.body is not None:
                        out.append((k, f))
        return out

    def mapper_info(self, fn):
        for a in fn.attrs:
            h = a.split('(')[0].strip()
            if h in ('storage_mapper', 'storage_mapper_from_address'):
                return h, a[a.index('"') + 1:a.rindex('"')]
        return None
