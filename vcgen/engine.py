"""Symbolic executor / verification-condition generator over the syn AST.

Direct-style interpreter: a path is one deterministic run; `branch` consults the
decision prefix, and every path is enumerated by re-execution.  Loops over
symbolic sequences are cut by (inferred, then checked) inductive summaries.
"""
import re
import itertools
import z3
from terms import *
from values import *
from program import ToolError

U64 = 2 ** 64
RANGES = {'u64': U64, 'usize': 2 ** 32, 'u32': 2 ** 32, 'u8': 256, 'u16': 65536, 'u128': 2 ** 128}


class Revert(Exception):
    def __init__(s, msg=''):
        s.msg = msg


class Infeasible(Exception):
    pass


class ReturnSig(Exception):
    def __init__(s, v):
        s.v = v


class BreakSig(Exception):
    def __init__(s, label, v):
        s.label = label; s.v = v


class ContinueSig(Exception):
    def __init__(s, label):
        s.label = label


class Scope:
    __slots__ = ('d', 'p', 'locs')

    def __init__(s, p=None):
        s.d = {}; s.p = p; s.locs = []

    def find(s, n):
        x = s
        while x is not None:
            if n in x.d:
                return x.d[n]
            x = x.p
        return None


def lit_uid(s):
    return z3.Const('lit:' + s, U)


EGLD = lit_uid('EGLD-000000')
ZERO_ADDR = lit_uid('zero_address')
EMPTY_BUF = lit_uid('')

INT_KINDS = {'BigUint', 'BigInt', 'u64', 'u32', 'u8', 'u16', 'usize', 'i64', 'i32', 'u128', 'NumDecimals', 'isize'}
OPQ_KINDS = {'ManagedAddress', 'EgldOrEsdtTokenIdentifier', 'TokenIdentifier', 'ManagedBuffer', 'ManagedArgBuffer',
             'CodeMetadata', 'EsdtTokenIdentifier', 'TokenId', 'ManagedByteArray'}
PAYMENT_FIELDS = ('token_identifier', 'token_nonce', 'amount')


class Config:
    """what one contract check tells the executor"""

    def __init__(self, crate):
        self.crate = crate
        self.contracts = {}         # function name or Struct::name -> handler(ex, args)
        self.scales = {}            # leaf name -> scale
        self.hooks = []             # fn(ex, event)
        self.external = None        # fn(ex, tx) -> value
        self.explore_reverts = False
        self.fresh_hook = None      # fn(ex, name, keys, value) -> None  (type invariants)
        self.max_paths = 4000
        self.loop_exit = None       # (ex, info) -> facts that hold when a loop has ended
        self.merge = None           # fn -> bool: join the paths of this pure function
        self.max_unroll = 70
        self.feas_timeout = 400
        self.overrides = {}         # storage cell name -> fn(ex, keys) -> V
        self.methods = {}           # builtin method override (receiver kind, name)
        self.iter_events = False    # record iterations over storage maps
        self.loop_entry = None      # fn(ex, info): obligations at the entry of a loop
        self.while_hook = None      # fn(ex, tag) -> None | fn()   same for a while loop
        self.iter_hook = None       # fn(ex, element, tag) -> None | fn()   around the body of an arbitrary loop iteration


class Path:
    pass


class Exec:
    def __init__(self, prog, cfg):
        self.prog = prog
        self.cfg = cfg
        self.crate = cfg.crate
        self.solver = z3.Solver()
        self.solver_pc = []
        self.leafs, self.leafkeep = {}, []
        self.solver.set('timeout', cfg.feas_timeout)
        self.sums = {}
        self.inlined = set()
        self.nomerge = set()
        self.used = set()
        self.obligations = []
        self.obl_seen = set()
        self.funs = {}
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.store = {}
        self.nloc = 0
        self.pc = []
        self.qf = []           # quantified facts
        self.storage = {}      # cell name -> tuple of writes
        self.epoch = {}        # cell name -> havoc epoch
        self.gepoch = 0
        self.trace = ()
        self.moved = set()
        self.nfresh = 0
        self.asserted = set()
        self.bal = ()
        self.depth = 0
        self.dec = None
        self.dk = ()
        self.ghost = {}
        self.ncall = 0
        self.brs = ()
        self.loopidx = ()
        self.epctx = {}
        self.quiet = False
        self.nested_cache = {}
        self.runid, self.runids = 0, itertools.count(1)

    SNAP = ('nloc', 'gepoch', 'trace', 'nfresh', 'bal', 'dk', 'ncall', 'brs', 'loopidx')

    def snapshot(self):
        d = {k: getattr(self, k) for k in self.SNAP}
        d['store'] = dict(self.store); d['pc'] = list(self.pc); d['storage'] = dict(self.storage)
        d['epoch'] = dict(self.epoch); d['moved'] = set(self.moved); d['asserted'] = set(self.asserted)
        d['ghost'] = dict(self.ghost); d['qf'] = list(self.qf); d['epctx'] = dict(self.epctx)
        return d

    def restore(self, d):
        for k in self.SNAP:
            setattr(self, k, d[k])
        self.store = dict(d['store']); self.pc = list(d['pc']); self.storage = dict(d['storage'])
        self.epoch = dict(d['epoch']); self.moved = set(d['moved']); self.asserted = set(d['asserted'])
        self.ghost = dict(d['ghost']); self.qf = list(d['qf']); self.epctx = dict(d['epctx'])

    # ------------------------------------------------------------- path logic
    def assume(self, c):
        c = cv(c)
        if is_c(c):
            if not c:
                raise Infeasible()
            return
        c = simp(c)
        if is_c(c):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def feasible(self, c):
        """incremental: the part of the path condition shared with the last query stays asserted"""
        s = self.solver
        st = self.solver_pc
        n = 0
        for x, y in zip(st, self.pc):
            if x is not y and not x.eq(z(y)):
                break
            n += 1
        if len(st) > n:
            s.pop(len(st) - n)
            del st[n:]
        for x in self.pc[n:]:
            s.push()
            x = z(x)
            s.add(x)
            st.append(x)
        s.push()
        try:
            s.add(z(c))
            return s.check() != z3.unsat
        finally:
            s.pop()

    def branch(self, c):
        c = cv(c)
        if is_c(c):
            return bool(c)
        c = simp(c)
        if is_c(c):
            return bool(c)
        d = self.dec
        if d is None:
            raise ToolError('branch outside enumeration')
        if d.i < len(d.prefix):
            v, forced = d.prefix[d.i]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise Infeasible()
            forced = not (t and f)
            v = t
            if not forced:
                d.work.append(list(d.prefix) + [(False, False)])
            d.prefix.append((v, forced))
        d.i += 1
        self.dk = self.dk + (v,)
        if not forced:
            self.pc.append(c if v else z3.Not(c))
            self.brs = self.brs + (c if v else z3.Not(c),)
        return v

    def choose(self, n):
        """demonic choice among n alternatives"""
        d = self.dec
        if n == 1:
            return 0
        if d.i < len(d.prefix):
            v, _ = d.prefix[d.i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                d.work.append(list(d.prefix) + [(k, False)])
            d.prefix.append((0, False))
        d.i += 1
        self.dk = self.dk + (v,)
        return v

    def require(self, c, msg=''):
        if self.cfg.explore_reverts:
            if not self.branch(c):
                raise Revert(msg)
        else:
            self.assume(c)

    def enum(self, thunk):
        """enumerate all paths of thunk from the current state; returns [(kind, value, snapshot)]"""
        saved = self.snapshot()
        sdec = self.dec
        out = []
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            self.restore(saved)
            D = Path(); D.prefix = list(prefix); D.i = 0; D.work = work
            self.dec = D
            n += 1
            if n > self.cfg.max_paths:
                raise ToolError('too many paths')
            try:
                v = thunk(); kind = 'ok'
            except ReturnSig as r:
                kind, v = 'return', r.v
            except BreakSig as r:
                kind, v = 'break', (r.label, r.v)
            except ContinueSig as r:
                kind, v = 'continue', r.label
            except Revert as r:
                kind, v = 'revert', r.msg
            except Infeasible:
                self.ninfeasible = getattr(self, 'ninfeasible', 0) + 1
                continue
            out.append((kind, v, self.snapshot()))
        self.restore(saved)
        self.dec = sdec
        return out

    def event(self, kind, **kw):
        e = dict(kw); e['kind'] = kind
        self.trace = self.trace + (e,)
        if not self.quiet:
            for h in self.cfg.hooks:
                h(self, e)

    def oblige(self, name, goal, where=''):
        if self.quiet:
            return
        goal = simp(goal) if not is_c(goal) else goal
        key = (name, frozenset([z(x).get_id() for x in self.pc]), z(goal).get_id(), where)   # terms stay alive in the list below
        if key in self.obl_seen:
            return
        self.obl_seen.add(key)
        self.obligations.append(dict(name=name, pc=[z(x) for x in self.pc], qf=list(self.qf), goal=goal if not is_c(goal) else z(goal), where=where))

    # ---------------------------------------------------------------- symbols
    def fn(self, name, sorts, rng):
        k = (name, tuple(s.name() for s in sorts), rng.name())
        if k not in self.funs:
            self.funs[k] = z3.Function(name, *sorts, rng) if sorts else z3.Const(name, rng)
        return self.funs[k]

    def leaf(self, name, keys, sort):
        ks = [z(k) for k in keys]
        if '!' in name:
            ks += self.loopidx
        elif '@' in name:
            ks += self.epctx.get(name.split('@')[1], ())
        ck = (name, sort.get_id() if sort is not I else 0, tuple([k.get_id() for k in ks]))
        r = self.leafs.get(ck)
        if r is None:
            f = self.fn(name, [k.sort() for k in ks], sort)
            r = f(*ks) if ks else f
            self.leafs[ck] = r
            self.leafkeep.append(ks)
        return r

    def fact(self, c):
        c = cv(c)
        if is_c(c):
            return
        h = c.get_id()
        if h in self.asserted:
            return
        self.asserted.add(h)
        self.pc.append(c)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(c)

    def fresh_name(self, base):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def fresh_int(self, base, kind='BigUint'):
        t = self.leaf(self.fresh_name(base), (), I)
        self.int_range(t, kind)
        return t

    def int_range(self, t, kind):
        if kind in ('BigUint', 'Dec'):
            self.fact(t >= 0)
        elif kind in RANGES:
            self.fact(t >= 0); self.fact(t < RANGES[kind])

    def keyterms(self, vals):
        out = []
        for v in vals:
            v = self.val(v)
            if isinstance(v, (Int, Bool, Opq)):
                out.append(v.t)
            elif isinstance(v, Enum):
                out.append(v.tag)
            elif isinstance(v, (Struct, Tup)):
                out += [t for _, t in leaves(v)]
            else:
                raise ToolError(f'storage key {v!r}')
        return tuple(out)

    def tyname(self, ty):
        while ty and ty.get('k') == 'ref':
            ty = ty['t']
        if ty and ty.get('k') == 'path':
            return ty['p'][-1][0], ty['p'][-1][1]
        return (ty or {}).get('k'), []

    def scale_for(self, name, keys):
        sc = self.cfg.scales
        base = re.sub(r'@[^@]*@', '', name)
        for k in (name, base, base.split('.')[-1]):
            if k in sc:
                v = sc[k]
                return v(self, name, keys) if callable(v) else v
        last = base.split('.')[-1].split('!')[0]
        if last.endswith('_ray'):
            return 27
        if last.endswith('_wad'):
            return 18
        if last.endswith('_bps'):
            return 4
        t = self.leaf(name + '.scale', keys, I)
        self.fact(t >= 0); self.fact(t <= 27)
        return t

    def fresh(self, ty, name, keys=()):
        while ty.get('k') == 'ref':
            ty = ty['t']
        if ty['k'] == 'tuple':
            return Tup([self.fresh(t, f'{name}.{i}', keys) for i, t in enumerate(ty['e'])]) if ty['e'] else UNIT
        n, g = self.tyname(ty)
        v = self._fresh(ty, n, g, name, keys)
        if self.cfg.fresh_hook:
            self.cfg.fresh_hook(self, name, keys, v)
        return v

    def _fresh(self, ty, n, g, name, keys):
        if n in ('ManagedDecimal', 'ManagedDecimalSigned'):
            r = self.leaf(name + '.raw', keys, I)
            if n == 'ManagedDecimal':
                self.fact(r >= 0)
            return Dec(r, self.scale_for(name, keys), n == 'ManagedDecimalSigned')
        if n in INT_KINDS:
            t = self.leaf(name, keys, I)
            k = 'usize' if n == 'NumDecimals' else n
            self.int_range(t, k)
            return Int(t, k)
        if n == 'bool':
            return Bool(self.leaf(name, keys, z3.BoolSort()))
        if n in OPQ_KINDS:
            return Opq(self.leaf(name, keys, U), n)
        if n in ('Option', 'OptionalValue', 'ManagedOption'):
            return Opt(self.leaf(name + '.some', keys, z3.BoolSort()), self.fresh(g[-1], name + '.v', keys))
        if n in ('ManagedVec', 'MultiValueEncoded', 'Vec', 'MultiValueManagedVec'):
            return self.fresh_vec(g[-1], name, keys)
        if n in ('EgldOrEsdtTokenPayment', 'EsdtTokenPayment', 'EgldOrEsdtTokenPaymentRefs'):
            return self.fresh_payment(name, keys)
        if n in ('MultiValue2', 'MultiValue3', 'MultiValue4', 'MultiValue5', 'MultiValue6'):
            return Tup([self.fresh(t, f'{name}.{i}', keys) for i, t in enumerate(g)])
        if n == 'ManagedMapEncoded':
            raise ToolError('fresh ManagedMapEncoded ' + name)
        st = self.prog.struct(n, self.crate)
        if st:
            return Struct(n, {fn: self.fresh(ft, f'{name}.{fn}', keys) for fn, ft in st[1]
                              if fn != 'sc_ref'})
        en = self.prog.enum(n, self.crate)
        if en:
            t = self.leaf(name, keys, I)
            self.fact(t >= 0); self.fact(t < len(en[1]))
            return Enum(n, t)
        if n in ('State', 'StateOnedex', 'StateXExchange'):
            t = self.leaf(name, keys, I)
            self.fact(t >= 0); self.fact(t < 4)
            return Enum("State", t)
        if n in self.prog.types:
            return self.fresh(self.prog.types[n], name, keys)
        raise ToolError(f'fresh value of type {n} ({name})')

    def fresh_payment(self, name, keys=()):
        a = self.leaf(name + '.amount', keys, I)
        nn = self.leaf(name + '.token_nonce', keys, I)
        self.int_range(a, 'BigUint'); self.int_range(nn, 'u64')
        return Struct('EgldOrEsdtTokenPayment', {
            'token_identifier': Opq(self.leaf(name + '.token_identifier', keys, U), 'EgldOrEsdtTokenIdentifier'),
            'token_nonce': Int(nn, 'u64'), 'amount': Int(a, 'BigUint')})

    def fresh_vec(self, ety, name, keys=()):
        ln = self.leaf(name + '.len', keys, I)
        self.fact(ln >= 0)
        self.fact(ln < 2 ** 31)         # collections hold fewer than 2^31 entries
        return Vec(Seq(name, ln, self.pin(lambda ex, i: ex.fresh(ety, name + '.at', tuple(keys) + (i,)))))

    # ----------------------------------------------------------------- places
    def alloc(self, v):
        self.nloc += 1
        self.store[self.nloc] = v
        return self.nloc

    def bind(self, sc, name, v):
        loc = self.alloc(v)
        sc.d[name] = loc
        sc.locs.append(loc)
        return loc

    def val(self, v):
        while isinstance(v, Ref):
            v = self.load(v)
        return v

    def load(self, r):
        v = self.store[r.loc]
        for i, p in enumerate(r.path):
            if isinstance(v, Ref):
                v = self.val(v)
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        v = self.val(v)
        if isinstance(p, tuple) and p[0] == 'idx':
            return self.vec_get(v, p[1])
        if isinstance(p, tuple) and p[0] == 'optv':
            return v.v
        if isinstance(v, Struct):
            if p in v.f:
                return v.f[p]
            raise ToolError(f'no field {p} in {v.n}')
        if isinstance(v, Tup):
            return v.e[int(p)]
        if isinstance(v, Marker):
            return self.marker_field(v, p)
        if isinstance(v, Vec) and p == 'payments':
            return v
        raise ToolError(f'projection .{p} of {v!r}')

    def upd(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if isinstance(v, Ref):
            self.assign(Ref(v.loc, v.path + tuple(path)), nv)
            return v
        if isinstance(p, tuple) and p[0] == 'idx':
            cur = self.vec_get(v, p[1])
            return self.vec_set(v, p[1], self.upd(cur, path[1:], nv))
        if isinstance(p, tuple) and p[0] == 'optv':
            return Opt(v.some, self.upd(v.v, path[1:], nv))
        if isinstance(v, Struct):
            f = dict(v.f); f[p] = self.upd(f[p], path[1:], nv)
            return Struct(v.n, f)
        if isinstance(v, Tup):
            e = list(v.e); e[int(p)] = self.upd(e[int(p)], path[1:], nv)
            return Tup(e)
        raise ToolError(f'update .{p} of {v!r}')

    def assign(self, r, nv):
        base = self.store[r.loc]
        if not r.path and isinstance(base, Ref) and not getattr(r, 'direct', False):
            # `x = v` where x holds a &mut is only legal for *x; callers pass deref'd places
            pass
        self.store[r.loc] = self.upd(base, r.path, nv)

    def place(self, e, sc):
        """evaluate an expression to a Ref when it denotes a place, else None"""
        k = e['k']
        if k == 'path' and len(e['p']) == 1:
            loc = sc.find(e['p'][0][0])
            return Ref(loc) if loc is not None else None
        if k == 'field':
            b = self.place(e['e'], sc)
            if b is None:
                return None
            b = self.deref_ref(b)
            v = self.load(b)
            if isinstance(v, (Struct, Tup)):
                return Ref(b.loc, b.path + (e['n'],))
            return None
        if k == 'un' and e['o'] == '*':
            b = self.place(e['e'], sc)
            if b is None:
                v = self.ev(e['e'], sc)
                return v if isinstance(v, Ref) else None
            return self.deref_ref(b)
        if k == 'index':
            b = self.place(e['e'], sc)
            if b is None:
                return None
            b = self.deref_ref(b)
            i = self.val(self.ev(e['i'], sc))
            return Ref(b.loc, b.path + (('idx', i.t),))
        return None

    def deref_ref(self, r):
        v = self.load(r)
        while isinstance(v, Ref):
            r = v
            v = self.load(r)
        return r

    # ------------------------------------------------------------- statements
    def block(self, stmts, sc0):
        sc = Scope(sc0)
        try:
            v = UNIT
            for i, s in enumerate(stmts):
                last = i == len(stmts) - 1
                k = s['k']
                if k == 'let':
                    self.let(s, sc)
                    v = UNIT
                elif k == 'expr':
                    r = self.ev(s['e'], sc)
                    v = r if (last and not s['semi']) else UNIT
                    if not last and not s['semi']:
                        v = UNIT
                elif k == 'item':
                    it = s['i']
                    if it['k'] == 'const':
                        self.bind(sc, it['n'], self.ev(it['e'], sc))
                    elif it['k'] in ('use', 'skip'):
                        pass
                    else:
                        raise ToolError('nested item ' + it['k'])
            if isinstance(v, Ref) and v.loc in sc.locs:
                v = self.val(v)
        except (Revert, Infeasible, ToolError):
            raise
        except (ReturnSig, BreakSig, ContinueSig) as sig:
            if isinstance(sig, ReturnSig) and isinstance(sig.v, Ref) and sig.v.loc in sc.locs:
                sig.v = self.val(sig.v)
            self.drop_scope(sc)
            raise
        self.drop_scope(sc)
        return v

    def drop_scope(self, sc):
        for loc in reversed(sc.locs):
            self.drop_loc(loc)

    def drop_loc(self, loc):
        if loc in self.moved:
            return
        v = self.store.get(loc)
        if isinstance(v, Struct) and (self.crate, v.n) in self.prog.drops:
            self.moved.add(loc)
            fn = self.prog.drops[(self.crate, v.n)]
            self.call_fn(fn, [Ref(loc)])

    def let(self, s, sc):
        if s['i'] is None:
            def names(p):
                if p['k'] == 'ident':
                    self.bind(sc, p['n'], UNIT)
                elif p['k'] == 'typed':
                    names(p['p'])
                elif p['k'] == 'tuple':
                    for q in p['e']:
                        names(q)
            names(s['p'])
            return
        p = s['p']
        if p['k'] == 'ident' and p.get('ref'):
            r = self.place(s['i'], sc)
            self.bind(sc, p['n'], r if r is not None else self.ev(s['i'], sc))
            return
        if p['k'] == 'typed' and p['p']['k'] == 'wild' or p['k'] == 'wild':
            self.ev_novalue(s['i'], sc)
            return
        v = self.ev(s['i'], sc)
        if p['k'] == 'typed':
            v = self.coerce(v, p['t'])
        if s.get('else') is not None:
            if not self.match(p, v, sc):
                self.ev(s['else'], sc)
                raise ToolError('let-else fallthrough')
            return
        if not self.match(p, v, sc):
            raise ToolError('irrefutable pattern failed')

    def ev_novalue(self, e, sc):
        """`let _ = e`: does not move a place"""
        if self.place_static(e):
            return
        self.ev(e, sc)

    def place_static(self, e):
        return e['k'] == 'path' and len(e['p']) == 1

    def coerce(self, v, ty):
        n, g = self.tyname(ty)
        w = self.val(v)
        if isinstance(w, Int) and n in INT_KINDS and w.k is None:
            return Int(w.t, 'usize' if n == 'NumDecimals' else n)
        return v

    # --------------------------------------------------------------- patterns
    def match(self, p, v, sc):
        k = p['k']
        if k == 'typed':
            return self.match(p['p'], v, sc)
        if k == 'wild' or k == 'rest':
            return True
        if k == 'ident':
            if p.get('sub'):
                if not self.match(p['sub'], v, sc):
                    return False
            n = p['n']
            if n == 'None':
                w = self.val(v)
                return self.branch(Not(w.some))
            c = self.prog.const(self.crate, n)
            if c is not None and n.isupper():
                return self.branch(self.v_eq(v, self.ev(c['e'], Scope())))
            self.bind(sc, n, v)
            return True
        if k == 'ref':
            return self.match(p['t'], self.val(v), sc)
        if k == 'tuple' or k == 'slice':
            isref = isinstance(v, Ref)
            w = self.val(v)
            if isinstance(w, Struct):   # payments into tuple
                w = Tup(list(w.f.values()))
                isref = False
            if isinstance(w, Unit):
                return not p['e']
            ps = p['e']
            if any(q['k'] == 'rest' for q in ps):
                j = [q['k'] for q in ps].index('rest')
                ps = ps[:j] + [{'k': 'wild'}] * (len(w.e) - len(ps) + 1) + ps[j + 1:]
            for i, q in enumerate(ps):
                el = Ref(v.loc, v.path + (str(i),)) if isref else w.e[i]
                if not self.match(q, el, sc):
                    return False
            return True
        if k == 'or':
            return any(self.match(q, v, sc) for q in p['e'])
        if k == 'lit':
            return self.branch(self.v_eq(v, self.lit(p['v'])))
        if k == 'range':
            w = self.val(v)
            lo = self.val(self.ev(p['a'], sc)).t if p['a'] else None
            hi = self.val(self.ev(p['b'], sc)).t if p['b'] else None
            c = True
            if lo is not None:
                c = And(c, ge(w.t, lo))
            if hi is not None:
                c = And(c, le(w.t, hi) if p['incl'] else lt(w.t, hi))
            return self.branch(c)
        if k == 'path':
            w = self.val(v)
            nm = p['p'][-1][0]
            if isinstance(w, Opt) and nm == 'None':
                return self.branch(Not(w.some))
            if isinstance(w, Opt) and nm == 'Some':
                return self.branch(w.some)
            if isinstance(w, Enum):
                return self.branch(eq(w.tag, self.variant_tag(w.n, nm)))
            c = self.path_value(p['p'], Scope())
            return self.branch(self.v_eq(v, c))
        if k == 'tstruct':
            nm = p['p'][-1][0]
            isref = isinstance(v, Ref)
            w = self.val(v)
            if isinstance(w, Opt):
                if nm == 'Some':
                    if not self.branch(w.some):
                        return False
                    r = self.deref_ref(v) if isref else None
                    return self.match(p['e'][0], Ref(r.loc, r.path + (('optv',),)) if isref else w.v, sc)
                return self.branch(Not(w.some))
            if isinstance(w, Res):
                if nm == 'Ok':
                    return self.branch(w.ok) and self.match(p['e'][0], w.v, sc)
                return self.branch(Not(w.ok)) and self.match(p['e'][0], w.e, sc)
        if k == 'struct':
            isref = isinstance(v, Ref)
            w = self.val(v)
            for fnm, q in p['f']:
                el = Ref(v.loc, v.path + (fnm,)) if isref else w.f[fnm]
                if not self.match(q, el, sc):
                    return False
            return True
        raise ToolError(f'pattern {k} on {v!r}')

    def variant_tag(self, enum, var):
        en = self.prog.enum(enum, self.crate)
        if en:
            for i, v in enumerate(en[1]):
                if v['n'] == var:
                    return i
        b = {'Ordering': ('Less', 'Equal', 'Greater'), 'Sign': ('Minus', 'NoSign', 'Plus')}.get(enum, ())
        if var in b:
            return b.index(var)
        raise ToolError(f'variant {enum}::{var}')

    # ------------------------------------------------------------ expressions
    def lit(self, v):
        t = v['t']
        if t == 'int':
            s = v.get('s') or None
            return Int(int(v['v']), s)
        if t == 'bool':
            return Bool(v['v'])
        if t in ('str', 'bytes', 'char'):
            return Opq(lit_uid(v['v']), 'lit')
        raise ToolError('literal ' + str(v))

    def ev(self, e, sc):
        return getattr(self, 'e_' + e['k'], self.e_unsupported)(e, sc)

    def e_unsupported(self, e, sc):
        raise ToolError(f"unsupported expression {e['k']} at line {e.get('l')}")

    def e_lit(self, e, sc):
        return self.lit(e['v'])

    def e_path(self, e, sc):
        p = e['p']
        if len(p) == 1:
            n = p[0][0]
            loc = sc.find(n)
            if loc is not None:
                v = self.store[loc]
                if isinstance(v, Struct) and (self.crate, v.n) in self.prog.drops:
                    self.moved.add(loc)
                return v
            if n == 'self':
                return SELF
        return self.path_value(p, sc)

    def path_value(self, p, sc):
        n = p[-1][0]
        if len(p) == 1:
            if n == 'None':
                return Opt(False)
            if n == 'ReturnsResult' or n.startswith('Returns') or n == 'PhantomData':
                return Marker(n)
        else:
            q = p[-2][0]
            if self.prog.enum(q, self.crate):
                return Enum(q, self.variant_tag(q, n))
            if q in ('OptionalValue', 'Option') and n == 'None':
                return Opt(False)
            if q == 'Ordering':
                return Enum('Ordering', {'Less': 0, 'Equal': 1, 'Greater': 2}[n])
            if q == 'Sign':
                return Enum('Sign', {'Minus': 0, 'NoSign': 1, 'Plus': 2}[n])
            if q in RANGES and n == 'MAX':
                return Int(RANGES[q] - 1, q)
            if q == 'CodeMetadata':
                return Opq(lit_uid('CodeMetadata::' + n))
            if q in ('EsdtLocalRole', 'EsdtTokenType', 'State', 'StateOnedex', 'StateXExchange'):
                en = self.prog.enum('State')
                if n in [v['n'] for v in en[1]] if en else False:
                    return Enum('State', self.variant_tag('State', n))
                return Opq(lit_uid(q + '::' + n))
        for nm in ('::'.join(s[0] for s in p[-2:]), n):
            c = self.prog.const(self.crate, nm)
            if c is not None:
                v = self.ev(c['e'], Scope())
                if isinstance(v, Int) and v.k is None:
                    v = Int(v.t, self.tyname(c['t'])[0])
                return v
        f = self.prog.lookup(self.crate, n, must=False)
        if f is not None:
            return Marker('fnptr', f)
        if n.startswith('Returns') or n.endswith('Proxy') or n[:1].isupper():
            return Marker(n)
        raise ToolError(f"unresolved path {'::'.join(s[0] for s in p)}")

    def e_ref(self, e, sc):
        if e['m']:
            r = self.place(e['e'], sc)
            if r is not None:
                return self.deref_ref(r)
            return Ref(self.alloc(self.ev(e['e'], sc)))
        r = self.place(e['e'], sc)
        if r is not None:
            return self.val(self.load(r))
        return self.ev(e['e'], sc)

    def e_field(self, e, sc):
        r = self.place(e, sc)
        if r is not None:
            return self.load(r)
        b = self.val(self.ev(e['e'], sc))
        return self.proj(b, e['n'])

    def e_tuple(self, e, sc):
        return Tup([self.ev(x, sc) for x in e['e']]) if e['e'] else UNIT

    def e_array(self, e, sc):
        return Vec(None, [self.ev(x, sc) for x in e['e']])

    def e_block(self, e, sc):
        if e.get('label'):
            try:
                return self.block(e['b'], sc)
            except BreakSig as b:
                if b.label == e['label']:
                    return b.v
                raise
        return self.block(e['b'], sc)

    def cond(self, e, sc):
        """evaluate a condition (with let chains); returns python bool after branching; bindings go to sc"""
        if e['k'] == 'letc':
            return self.match(e['p'], self.ev_scrut(e['e'], sc), sc)
        if e['k'] == 'bin' and e['o'] == '&&':
            return self.cond(e['a'], sc) and self.cond(e['b'], sc)
        if e['k'] == 'bin' and e['o'] == '||':
            return self.cond(e['a'], sc) or self.cond(e['b'], sc)
        if e['k'] == 'un' and e['o'] == '!' and e['e']['k'] in ('bin', 'un') :
            return not self.cond(e['e'], sc)
        return self.branch(self.val(self.ev(e, sc)).t)

    def ev_scrut(self, e, sc):
        if e['k'] == 'ref' and e['m']:
            return self.e_ref(e, sc)
        if e['k'] == 'ref':
            return self.ev(e, sc)
        if e['k'] == 'path' and len(e['p']) == 1:
            r = self.place(e, sc)
            if r is not None:
                v = self.store[r.loc]
                return v
        return self.ev(e, sc)

    def e_if(self, e, sc):
        s = Scope(sc)
        if self.cond(e['c'], s):
            return self.block(e['t'], s)
        if e['e'] is not None:
            return self.ev(e['e'], sc)
        return UNIT

    def e_letc(self, e, sc):
        return Bool(self.match(e['p'], self.ev_scrut(e['e'], sc), sc))

    def e_matches(self, e, sc):
        s = Scope(sc)
        r = self.match(e['p'], self.ev_scrut(e['e'], sc), s)
        if r and e['g']:
            r = self.branch(self.val(self.ev(e['g'], s)).t)
        return Bool(r)

    def e_match(self, e, sc):
        v = self.ev_scrut(e['e'], sc)
        for a in e['arms']:
            s = Scope(sc)
            if self.match(a['p'], v, s):
                if a['g'] is not None and not self.cond(a['g'], s):
                    continue
                return self.ev(a['b'], s)
        raise Infeasible()

    def e_return(self, e, sc):
        raise ReturnSig(self.ev(e['e'], sc) if e['e'] else UNIT)

    def e_break(self, e, sc):
        raise BreakSig(e['label'], self.ev(e['e'], sc) if e['e'] else UNIT)

    def e_continue(self, e, sc):
        raise ContinueSig(e['label'])

    def e_closure(self, e, sc):
        return Clo(e['p'], e['b'], sc)

    def call_clo(self, c, args):
        if isinstance(c, Marker) and c.n == 'fnptr':
            return self.call_fn(c.x, args)
        if isinstance(c, Marker):
            return self.static_call(c.n.split('::'), args, [])
        sc = Scope(c.env)
        for p, a in zip(c.params, args):
            if not self.match(p, a, sc):
                raise ToolError('closure pattern')
        try:
            v = self.ev(c.body, sc)
        except ReturnSig as r:
            v = r.v
        if isinstance(v, Ref):
            v = self.val(v) if v.loc in sc.locs else v
        return v

    def e_assign(self, e, sc):
        v = self.ev(e['b'], sc)
        if e['a']['k'] == 'path' and e['a']['p'][-1][0] == '_':
            return UNIT
        if e['a']['k'] == 'tuple':
            for i, x in enumerate(e['a']['e']):
                self.assign_place(x, self.val(v).e[i], sc)
            return UNIT
        self.assign_place(e['a'], v, sc)
        return UNIT

    def assign_place(self, a, v, sc):
        if a['k'] == 'path':
            r = self.place(a, sc)
            if r is None:
                if a['p'][-1][0] == '_':
                    return
                raise ToolError('assign to non-place')
            self.drop_loc(r.loc)
            self.store[r.loc] = v
            self.moved.discard(r.loc)
            return
        r = self.place(a, sc)
        if r is None:
            raise ToolError('assign to non-place')
        self.assign(r, v)

    def e_cast(self, e, sc):
        v = self.val(self.ev(e['e'], sc))
        n, _ = self.tyname(e['t'])
        if isinstance(v, Int):
            k = 'usize' if n == 'NumDecimals' else n
            t = v.t
            if k in RANGES:
                src = RANGES.get(v.k)
                if src is None or src > RANGES[k]:
                    if is_c(t):
                        t = t % RANGES[k]
                    elif v.k is not None:
                        t = z(t) % RANGES[k]
            return Int(t, k)
        if isinstance(v, Enum):
            return Int(v.tag, n)
        if isinstance(v, Bool):
            return Int(ite(v.t, 1, 0), n)
        raise ToolError('cast')

    def e_try(self, e, sc):
        v = self.val(self.ev(e['e'], sc))
        if isinstance(v, Opt):
            if self.branch(v.some):
                return v.v
            raise ReturnSig(Opt(False))
        if isinstance(v, Res):
            if self.branch(v.ok):
                return v.v
            raise ReturnSig(Res(False, None, v.e))
        raise ToolError('? on ' + repr(v))

    def e_index(self, e, sc):
        r = self.place(e, sc)
        if r is not None:
            b = self.val(self.load(Ref(r.loc, r.path[:-1])))
            i = r.path[-1][1]
        else:
            b = self.val(self.ev(e['e'], sc))
            i = self.val(self.ev(e['i'], sc))
            if isinstance(i, Iter):
                raise ToolError('slice index')
            i = i.t
        self.require(And(le(0, i), lt(i, self.vec_len(b))), 'index out of bounds')
        return self.vec_get(b, i)

    def e_range(self, e, sc):
        lo = self.val(self.ev(e['a'], sc)) if e['a'] else Int(0)
        hi = self.val(self.ev(e['b'], sc)) if e['b'] else None
        h = None if hi is None else (add(hi.t, 1) if e['incl'] else hi.t)
        k = lo.k or (hi.k if hi else None)
        return Iter('range', k, lo.t, h)

    def e_struct(self, e, sc):
        n = e['p'][-1][0]
        f = {}
        if e.get('rest'):
            f.update(self.val(self.ev(e['rest'], sc)).f)
        for k, x in e['f']:
            v = self.ev(x, sc)
            f[k] = v if isinstance(v, Ref) and n == 'Cache' else self.val(v)
        if n == 'Self':
            n = self.self_ty[-1]
        st = self.prog.struct(n, self.crate)
        if st:
            order = [x for x, _ in st[1]]
            for fn_, ft in st[1]:
                if fn_ in f and isinstance(f[fn_], Int) and f[fn_].k is None:
                    f[fn_] = self.coerce(f[fn_], ft)
            f = {k: f[k] for k in order if k in f}
        return Struct(n, f)

    self_ty = [None]

    def e_macro(self, e, sc):
        n = e['n']
        a = e['a']
        if n == 'require':
            if self.cfg.explore_reverts:
                if not self.cond(a[0], Scope(sc)):
                    raise Revert(self.msg_of(a[1]) if len(a) > 1 else 'require')
            else:
                self.assume_cond(a[0], sc)
            return UNIT
        if n in ('sc_panic', 'panic', 'unreachable', 'todo', 'unimplemented'):
            raise Revert(self.msg_of(a[0]) if a else n)
        if n in ('sc_format', 'format'):
            for x in (a or [])[1:]:
                self.ev(x, sc)
            key = '|'.join([str(a[0]['v'].get('v')) if a and a[0]['k'] == 'lit' else '?'] +
                           [str(self.val(self.ev(x, sc))) for x in (a or [])[1:]])
            return Opq(self.leaf('fmt:' + key, (), U), 'ManagedBuffer')
        if n in ('debug_assert', 'assert', 'sc_assert'):
            if self.cfg.explore_reverts:
                if not self.cond(a[0], Scope(sc)):
                    raise Revert('assert')
            else:
                self.assume_cond(a[0], sc)
            return UNIT
        if n in ('sc_print', 'println', 'debug_assert_eq'):
            return UNIT
        raise ToolError('macro ' + n)

    def assume_cond(self, c, sc):
        if c['k'] == 'bin' and c['o'] == '&&':
            self.assume_cond(c['a'], sc); self.assume_cond(c['b'], sc)
            return
        if c['k'] == 'bin' and c['o'] == '||' or c['k'] == 'letc':
            if not self.cond(c, Scope(sc)):
                raise Revert('require')
            return
        self.assume(self.val(self.ev(c, sc)).t)

    def msg_of(self, x):
        if x['k'] == 'lit':
            return str(x['v'].get('v'))
        if x['k'] == 'path':
            return x['p'][-1][0]
        return '?'

    # -------------------------------------------------------------- operators
    def e_un(self, e, sc):
        o = e['o']
        if o == '*':
            v = self.ev(e['e'], sc)
            return self.val(v)
        v = self.val(self.ev(e['e'], sc))
        if o == '!':
            if isinstance(v, Bool):
                return Bool(Not(v.t))
            raise ToolError('bitwise not')
        if o == '-':
            if isinstance(v, Int):
                return Int(sub(0, v.t), v.k or 'i64')
            if isinstance(v, Dec):
                return Dec(sub(0, v.raw), v.scale, True)
        raise ToolError('unary ' + o)

    def pure(self, e):
        k = e['k']
        if k in ('lit', 'path'):
            return True
        if k in ('field', 'un', 'ref'):
            return self.pure(e['e'])
        if k == 'bin' and e['o'] in ('==', '!=', '<', '<=', '>', '>=', '&&', '||'):
            return self.pure(e['a']) and self.pure(e['b'])
        return False

    def e_bin(self, e, sc):
        o = e['o']
        if o in ('&&', '||'):
            a = self.val(self.ev(e['a'], sc))
            if is_c(a.t):
                if (o == '&&') != bool(a.t):
                    return a
                return self.val(self.ev(e['b'], sc))
            if self.pure(e['b']):
                b = self.val(self.ev(e['b'], sc))
                return Bool(And(a.t, b.t) if o == '&&' else Or(a.t, b.t))
            if self.branch(a.t):
                return Bool(True) if o == '||' else self.val(self.ev(e['b'], sc))
            return Bool(False) if o == '&&' else self.val(self.ev(e['b'], sc))
        if o.endswith('=') and o not in ('==', '!=', '<=', '>='):
            b = self.val(self.ev(e['b'], sc))
            r = self.place(e['a'], sc)
            if r is None:
                raise ToolError('compound assignment to non-place')
            r = self.deref_ref(r)
            cur = self.val(self.load(r))
            self.assign(r, self.binop(o[:-1], cur, b, assign=True))
            return UNIT
        a = self.val(self.ev(e['a'], sc))
        b = self.val(self.ev(e['b'], sc))
        return self.binop(o, a, b)

    def v_eq(self, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Dec) and isinstance(b, Dec):
            return self.cmp_dec('==', a, b)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return veq(a, b)
        if isinstance(a, Opt) and isinstance(b, Opt):
            inner = True
            if a.v is not None and b.v is not None:
                inner = self.v_eq(a.v, b.v)
            return And(eq(a.some, b.some), Or(Not(a.some), inner))
        try:
            return veq(a, b)
        except TypeError as x:
            raise ToolError(str(x))

    def cmp_dec(self, o, a, b):
        s, t = a.scale, b.scale
        x, y = a.raw, b.raw
        if not same(s, t):
            if is_c(x) and x == 0 and o in ('==', '!='):
                pass
            elif is_c(y) and y == 0:
                pass
            elif is_c(x) and x == 0:
                pass
            elif is_c(s) and is_c(t):
                m = max(s, t)
                x = mul(x, 10 ** (m - s)); y = mul(y, 10 ** (m - t))
            else:
                if self.branch(eq(s, t)):
                    pass
                elif self.branch(lt(s, t)):
                    x = rs(x, s, t)      # exact up-scaling
                else:
                    y = rs(y, t, s)
        return {'==': eq, '!=': lambda p, q: Not(eq(p, q)), '<': lt, '<=': le, '>': gt, '>=': ge}[o](x, y)

    def binop(self, o, a, b, assign=False):
        if o in ('==', '!='):
            c = self.v_eq(a, b)
            return Bool(c if o == '==' else Not(c))
        if isinstance(a, Dec) and isinstance(b, Dec):
            return self.dec_op(o, a, b, assign)
        if isinstance(a, Dec) and isinstance(b, Int):
            if o == '/':
                if is_c(b.t) and b.t == 0:
                    raise Revert('division by zero')
                if not is_c(b.t):
                    self.require(gt(b.t, 0), 'division by zero')
                return Dec(fdiv(a.raw, b.t), a.scale, a.signed)
        if isinstance(a, Bool) and isinstance(b, Bool):
            if o in ('&', '|', '^'):
                return Bool({'&': And, '|': Or, '^': lambda p, q: Not(eq(p, q))}[o](a.t, b.t))
        if isinstance(a, Int) and isinstance(b, Int):
            return self.int_op(o, a, b)
        if isinstance(a, Enum) and isinstance(b, Enum):
            return Bool({'<': lt, '<=': le, '>': gt, '>=': ge}[o](a.tag, b.tag))
        if isinstance(a, Opq) and isinstance(b, Opq) and o in ('|', '&', '^'):
            return Opq(self.leaf('bits' + o, (a.t, b.t), U), a.k)
        if isinstance(a, Opq) and isinstance(b, Opq) and o in ('<', '>', '<=', '>='):
            raise ToolError('ordering of opaque values')
        raise ToolError(f'operator {o} on {a!r}, {b!r}')

    def dec_op(self, o, a, b, assign):
        sg = a.signed or b.signed
        if o in ('<', '<=', '>', '>='):
            return Bool(self.cmp_dec(o, a, b))
        R = rs_signed if sg else rs
        if o in ('+', '-'):
            s, t = a.scale, b.scale
            x, y, sc = a.raw, b.raw, s
            if not same(s, t):
                if assign:
                    if is_c(y) and y == 0:
                        return a
                    if not (is_c(s) and is_c(t)) and self.branch(eq(s, t)):
                        pass
                    else:
                        y = R(y, t, s)
                elif is_c(s) and is_c(t):
                    sc = max(s, t)
                    x, y = R(x, s, sc), R(y, t, sc)
                elif self.branch(eq(s, t)):
                    pass
                elif self.branch(lt(s, t)):
                    x, sc = R(x, s, t), t
                else:
                    y = R(y, t, s)
            if o == '+':
                return Dec(add(x, y), sc, sg)
            if not sg:
                self.require(ge(x, y), 'cannot subtract because result would be negative')
            return Dec(sub(x, y), sc, sg)
        if o == '*':
            if assign:
                return Dec(fdiv(mul(a.raw, b.raw), p10(b.scale)), a.scale, sg)
            return Dec(self.nl(mul(a.raw, b.raw), not sg), add(a.scale, b.scale), sg)
        if o == '/':
            if sg:
                self.require(Not(eq(b.raw, 0)), 'division by zero')
                return Dec(tdiv(a.raw, b.raw), sub(a.scale, b.scale), sg)
            self.require(gt(b.raw, 0), 'division by zero')
            if assign:
                return Dec(fdiv(mul(a.raw, p10(b.scale)), b.raw), a.scale)
            sc = sub(a.scale, b.scale)
            if is_c(sc) and sc < 0:
                raise ToolError('negative decimal scale')
            return Dec(self.nl(fdiv(a.raw, b.raw)), sc)
        raise ToolError('decimal operator ' + o)

    def nl(self, t, nonneg=True):
        if nonneg and not is_c(t):
            self.fact(t >= 0)
        return t

    def int_op(self, o, a, b):
        k = a.k or b.k
        if a.k in ('BigUint', 'BigInt') or b.k in ('BigUint', 'BigInt'):
            k = a.k if a.k in ('BigUint', 'BigInt') else b.k
        x, y = a.t, b.t
        if o in ('<', '<=', '>', '>='):
            return Bool({'<': lt, '<=': le, '>': gt, '>=': ge}[o](x, y))
        if o == '+':
            return self.wrap(add(x, y), k)
        if o == '-':
            if k == 'BigUint':
                self.require(ge(x, y), 'cannot subtract because result would be negative')
                return Int(sub(x, y), k)
            return self.wrap(sub(x, y), k)
        if o == '*':
            if k == 'BigInt':
                return Int(mul(x, y), k)
            return self.wrap(self.nl(mul(x, y), k not in ('i64', 'i32')), k)
        if o == '/':
            if k in ('BigInt', 'i64', 'i32'):
                self.require(Not(eq(y, 0)), 'division by 0')
                return Int(tdiv(x, y), k)
            self.require(gt(y, 0), 'division by 0')
            return Int(self.nl(fdiv(x, y)), k)
        if o == '%':
            self.require(gt(y, 0), 'division by 0')
            if is_c(x) and is_c(y):
                return Int(x % y, k)
            if is_c(y):
                return Int(z(x) % y, k)
            q = fdiv(x, y)
            r = self.fresh_int('mod', 'BigUint')
            self.fact(r < z(y)); self.fact(r == z(sub(x, mul(q, y))))
            return Int(r, k)
        if o == '>>' and is_c(y):
            return Int(fdiv(x, 2 ** y), k)
        if o == '<<' and is_c(y):
            return self.wrap(mul(x, 2 ** y), k)
        if o == '&' and is_c(y) and (y + 1) & y == 0:
            return Int(z(x) % (y + 1), k)
        if o == '&' and is_c(y) and y == 1:
            return Int(z(x) % 2, k)
        raise ToolError('integer operator ' + o)

    def wrap(self, t, k):
        """deployed profile has overflow-checks off: machine integers wrap"""
        if k not in RANGES:
            return Int(t, k)
        m = RANGES[k]
        if is_c(t):
            return Int(t % m, k)
        inr = z3.And(t >= 0, t < m)
        if self.branch(inr):
            return Int(t, k)
        if self.branch(t < 0):
            return Int(t + m, k)
        return Int(t % m, k)

    # ---------------------------------------------------------------- vectors
    def vec_len(self, v):
        n = len(v.items)
        return add(v.base.len, n) if v.base is not None else n

    def vec_get(self, v, i):
        if not isinstance(v, Vec):
            raise ToolError(f'index into {v!r}')
        for j, w in reversed(v.ups):
            if same(i, j):
                return w
            if is_c(i) and is_c(j):
                continue
            if self.branch(eq(i, j)):
                return w
        if v.base is None:
            if is_c(i):
                if i >= len(v.items) or i < 0:
                    raise Revert('index out of bounds')
                return v.items[i]
            for j in range(len(v.items)):
                if self.branch(eq(i, j)):
                    return v.items[j]
            raise Revert('index out of bounds')
        bl = v.base.len
        if v.items and self.branch(ge(i, bl)):
            for j in range(len(v.items)):
                if self.branch(eq(i, add(bl, j))):
                    return v.items[j]
            raise Revert('index out of bounds')
        return v.base.elem(self, i)

    def vec_set(self, v, i, w):
        if v.base is None and is_c(i):
            it = list(v.items)
            it[i] = w
            return Vec(None, it)
        return Vec(v.base, v.items, v.ups + ((i, w),))
