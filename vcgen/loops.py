"""Loops.  Concrete trip counts are executed; symbolic ones are cut by an inferred
summary: the set of modified locations is found by a fixpoint, those locations are
havocked at the head of an arbitrary iteration, accumulators whose increment does
not depend on other modified state become sums, pushes become mapped sequences,
and every early exit is kept as a separate continuation."""
import z3
from terms import *
from values import *
from program import ToolError
from engine import *

FRESH_SUB = '!'


def pushed(v):
    return v.items if isinstance(v, Vec) else v.writes
DEBUG = False


_CONSTS = {}


def consts_of(t):
    """names of the uninterpreted constants and functions occurring in a term (memoised)"""
    if not z3.is_expr(t):
        return frozenset()
    i = t.get_id()
    r = _CONSTS.get(i)
    if r is not None:
        return r[1]
    st = [t]
    while st:
        x = st[-1]
        if x.get_id() in _CONSTS:
            st.pop()
            continue
        ch = [x.body()] if z3.is_quantifier(x) else x.children()
        todo = [c for c in ch if c.get_id() not in _CONSTS]
        if todo:
            st.extend(todo)
            continue
        acc = frozenset()
        for c in ch:
            m = _CONSTS[c.get_id()][1]
            if not m <= acc:
                acc = acc | m if acc else m
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc = acc | {x.decl().name()}
        _CONSTS[x.get_id()] = (x, acc)
        st.pop()
    return _CONSTS[i][1]


def map_leaves(v, f):
    """apply f to every term leaf of a value"""
    if v is None:
        return None
    if isinstance(v, Int):
        return Int(f(v.t), v.k)
    if isinstance(v, Bool):
        return Bool(f(v.t))
    if isinstance(v, Dec):
        return Dec(f(v.raw), f(v.scale), v.signed)
    if isinstance(v, Opq):
        return Opq(f(v.t), v.k)
    if isinstance(v, Enum):
        return Enum(v.n, f(v.tag))
    if isinstance(v, Struct):
        return Struct(v.n, {k: map_leaves(w, f) for k, w in v.f.items()})
    if isinstance(v, Tup):
        return Tup([map_leaves(w, f) for w in v.e])
    if isinstance(v, Opt):
        return Opt(f(v.some), map_leaves(v.v, f))
    if isinstance(v, (Unit, SelfV, Marker, Clo, Ref)):
        return v
    if isinstance(v, Mapper):
        return Mapper(v.kind, v.name, tuple(f(k) for k in v.keys), v.ty, v.addr)
    if isinstance(v, Vec) and v.base is None:
        return Vec(None, [map_leaves(w, f) for w in v.items])
    raise TypeError(f'map_leaves {v!r}')


def struct_same(a, b):
    """identical values (syntactically)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Int, Bool, Opq, Dec, Enum, Unit)):
        if isinstance(a, Dec):
            return same(a.raw, b.raw) and same(a.scale, b.scale)
        if isinstance(a, Enum):
            return same(a.tag, b.tag)
        if isinstance(a, Unit):
            return True
        if isinstance(a, (Bool, Opq)):
            x, y = cv(a.t), cv(b.t)
            return x == y if is_c(x) and is_c(y) else (not is_c(x) and not is_c(y) and x.eq(y))
        return same(a.t, b.t)
    if isinstance(a, Struct):
        return a.n == b.n and a.f.keys() == b.f.keys() and all(struct_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Tup):
        return len(a.e) == len(b.e) and all(struct_same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Opt):
        x, y = cv(a.some), cv(b.some)
        sm = x == y if is_c(x) and is_c(y) else (not is_c(x) and not is_c(y) and x.eq(y))
        if not sm:
            return False
        if is_c(x) and not x:
            return True
        return (a.v is None) == (b.v is None) and (a.v is None or struct_same(a.v, b.v))
    if isinstance(a, Vec):
        return a.base is b.base and len(a.items) == len(b.items) and len(a.ups) == len(b.ups) and \
            all(struct_same(x, y) for x, y in zip(a.items, b.items)) and \
            all(same(i, j) and struct_same(x, y) for (i, x), (j, y) in zip(a.ups, b.ups))
    if isinstance(a, MapV):
        return a.base is b.base and len(a.writes) == len(b.writes)
    if isinstance(a, Ref):
        return a.loc == b.loc and a.path == b.path
    if isinstance(a, Iter):
        return a.x is b.x and same(a.lo, b.lo) and same(a.hi, b.hi) and len(a.maps) == len(b.maps)
    if isinstance(a, Mapper):
        return a.name == b.name
    return False


def rebuilt(t, cs):
    a = (z3.Ast * len(cs))(*[c.as_ast() for c in cs])
    return z3.z3._to_expr_ref(z3.Z3_update_term(t.ctx_ref(), t.as_ast(), len(cs), a), t.ctx)


def commuted(t, memo=None):
    """the arguments of every half-up product in a fixed order"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = t
    if z3.is_app(t) and t.num_args():
        cs = [commuted(c, memo) for c in t.children()]
        if t.decl().name() == 'mulh' and cs[1].sexpr() > cs[2].sexpr():
            cs[1], cs[2] = cs[2], cs[1]
        if any(not a.eq(b) for a, b in zip(cs, t.children())):
            r = rebuilt(t, cs)
    memo[k] = r
    return r


class Unswitch(Exception):
    def __init__(s, conds):
        s.conds = conds


class LoopMixin:
    # ------------------------------------------------------------ entry points
    def e_for(self, e, sc):
        it = self.iter_of(self.ev(e['e'], sc))
        label = e.get('label')

        def body(x):
            s = Scope(sc)
            if not self.match(e['p'], x, s):
                raise ToolError('for pattern')
            try:
                self.block(e['b'], s)
            except ContinueSig as c:
                if c.label is not None and c.label != label:
                    raise
        try:
            self.loop_over(it, body, ('for', e.get('l')))
        except BreakSig as b:
            if b.label is not None and b.label != label:
                raise
        return UNIT

    def e_while(self, e, sc):
        return self.gen_while(e, sc, e['c'])

    def e_loop(self, e, sc):
        return self.gen_while(e, sc, None)

    def gen_while(self, e, sc, cond):
        label = e.get('label')
        class Exit(Exception):
            pass

        def body(_x):
            s = Scope(sc)
            if cond is not None and not self.cond(cond, s):
                raise BreakSig('#cond', UNIT)
            try:
                self.block(e['b'], s)
            except ContinueSig as c:
                if c.label is not None and c.label != label:
                    raise
        try:
            # concrete execution as long as the condition is decided
            for _ in range(self.cfg.max_unroll):
                if cond is not None and not self.cond_concrete(cond, sc):
                    break
                if cond is None:
                    break
                body(None)
            else:
                pass
            self.sym_loop(None, body, ('while', e.get('l')), cond=(cond, sc))
        except BreakSig as b:
            if b.label == '#cond':
                return UNIT
            if b.label is not None and b.label != label:
                raise
            return b.v
        return UNIT

    def cond_concrete(self, cond, sc):
        """is the loop condition decided (true) without branching?"""
        if cond['k'] == 'letc' or not self.pure_cond(cond):
            return False
        try:
            v = self.val(self.ev(cond, Scope(sc)))
        except (ToolError, Revert):
            return False
        return isinstance(v, Bool) and is_c(v.t)

    def pure_cond(self, e):
        k = e['k']
        if k == 'mcall':
            return e['n'] in ('len', 'is_empty') and self.pure_cond(e['r'])
        if k in ('lit', 'path'):
            return True
        if k in ('field', 'un', 'ref'):
            return self.pure_cond(e['e'])
        if k == 'bin':
            return e['o'] in ('==', '!=', '<', '<=', '>', '>=') and self.pure_cond(e['a']) and self.pure_cond(e['b'])
        return False

    def loop_over(self, it, body, tag):
        lo, hi = cv(it.lo), cv(it.hi)
        if is_c(lo) and is_c(hi) and hi - lo <= self.cfg.max_unroll:
            for i in range(lo, hi):
                body(self.iter_elem(it, i))
            return
        if it.kind == 'vec' and it.x.base is not None and it.x.items and not is_c(lo) is None:
            # symbolic prefix then concrete tail
            bl = it.x.base.len
            if is_c(lo) and lo == 0 and same(hi, self.vec_len(it.x)):
                pre = Iter('vec', it.x, 0, bl, it.maps)
                self.sym_loop(pre, body, tag)
                for j in range(len(it.x.items)):
                    body(self.iter_elem(it, add(bl, j)))
                return
        self.sym_loop(it, body, tag)

    # --------------------------------------------------------------- havocking
    def like(self, v, name, keys=()):
        """fresh value with the shape of v"""
        if isinstance(v, Dec):
            r = self.leaf(name + '.raw', keys, I)
            if not v.signed:
                self.fact(r >= 0)
            return Dec(r, v.scale, v.signed)
        if isinstance(v, Int):
            t = self.leaf(name, keys, I)
            self.int_range(t, v.k or 'none')
            return Int(t, v.k)
        if isinstance(v, Bool):
            return Bool(self.leaf(name, keys, z3.BoolSort()))
        if isinstance(v, Opq):
            return Opq(self.leaf(name, keys, U), v.k)
        if isinstance(v, Enum):
            return Enum(v.n, self.leaf(name, keys, I))
        if isinstance(v, Struct):
            return Struct(v.n, {k: (w if isinstance(w, (SelfV, Marker)) else self.like(w, f'{name}.{k}', keys))
                                for k, w in v.f.items()})
        if isinstance(v, Tup):
            return Tup([self.like(w, f'{name}.{k}', keys) for k, w in enumerate(v.e)])
        if isinstance(v, Opt):
            return Opt(self.leaf(name + '.some', keys, z3.BoolSort()),
                       None if v.v is None else self.like(v.v, name + '.v', keys))
        if isinstance(v, Unit):
            return v
        if isinstance(v, Ref):
            raise ToolError('loop changes a reference')
        if isinstance(v, Vec):
            ex = None
            if v.items:
                ex = v.items[-1]
            elif v.ups:
                ex = v.ups[-1][1]
            ln = self.leaf(name + '.len', keys, I)
            self.int_range(ln, 'usize')
            if ex is not None and v.base is None:
                return Vec(Seq(name, ln, self.pin(lambda x, i: x.like(ex, name + '.at', tuple(keys) + (i,)))))
            if v.base is not None:
                b = v.base
                return Vec(Seq(name, ln, self.pin(lambda x, i: x.like(b.elem(x, i), name + '.at', tuple(keys) + (i,)))))
            raise ToolError('loop fills a vector of unknown element shape')
        if isinstance(v, MapV):
            if v.writes:
                ex = v.writes[-1][1]
                s = Seq(name, 0, self.pin(lambda x, kt: x.like(ex, name + '.at', tuple(keys) + tuple(kt))))
                s.ctx = tuple(keys)
                return MapV(s, ())
            if v.base is not None:
                b = v.base
                s = Seq(name, 0, self.pin(lambda x, kt: x.like(b.elem(x, kt), name + '.at', tuple(keys) + tuple(kt))))
                s.ctx = tuple(keys)
                return MapV(s, ())
            raise ToolError('loop fills a map of unknown shape')
        raise ToolError(f'havoc of {v!r}')

    def pin(self, f):
        """elements of a sequence depend on the iteration that made it, not on the one that reads it"""
        ctx = self.loopidx

        def g(x, *a):
            old, x.loopidx = x.loopidx, ctx
            try:
                return f(x, *a)
            finally:
                x.loopidx = old
        return g

    def havoc_diff(self, pre, post, name, prev=None, keys=()):
        """value equal to pre except for fresh leaves where post (or prev) differs"""
        if prev is None:
            prev = pre
        if struct_same(pre, post) and struct_same(pre, prev):
            return pre
        if struct_same(prev, post) and not struct_same(pre, prev):
            return prev
        if isinstance(pre, Struct) and isinstance(post, Struct) and pre.n == post.n:
            return Struct(pre.n, {k: self.havoc_diff(pre.f[k], post.f[k], f'{name}.{k}', prev.f[k], keys) for k in pre.f})
        if isinstance(pre, Tup) and isinstance(post, Tup) and len(pre.e) == len(post.e):
            return Tup([self.havoc_diff(a, b, f'{name}.{i}', p, keys)
                        for i, (a, b, p) in enumerate(zip(pre.e, post.e, prev.e))])
        if isinstance(pre, Dec) and isinstance(post, Dec):
            if not same(pre.scale, post.scale):
                if is_c(pre.raw) and pre.raw == 0:
                    d = self.like(post, name, keys)
                    return d
                d = self.like(pre, name, keys)
                s = self.leaf(name + '.scale', keys, I)
                self.fact(s >= 0); self.fact(s <= 27)
                return Dec(d.raw, s, pre.signed)
            return self.like(pre, name, keys)
        if isinstance(pre, Opt) and isinstance(post, Opt):
            ex = pre.v if pre.v is not None else post.v
            o = self.like(Opt(True, ex), name, keys)
            return o
        if isinstance(prev, (Vec, MapV)) and prev is not pre and prev.base is not None and prev.base.name == name and \
                not (prev.items or prev.ups if isinstance(prev, Vec) else prev.writes) and \
                (isinstance(prev, MapV) or not is_c(prev.base.len) and z3.is_app(prev.base.len) and prev.base.len.decl().name() == name + '.len' or
                 isinstance(post, Vec) and same(self.vec_len(post), prev.base.len)):
            return prev          # already an arbitrary value of this shape
        if isinstance(pre, Vec):
            if pre.base is None and not pre.items and not pre.ups:
                return self.like(post, name, keys)
            if isinstance(post, Vec) and post.base is pre.base and len(post.items) == len(pre.items) == 0:
                b = pre.base     # only element updates
                ex = post.ups[-1][1]
                return Vec(Seq(name, b.len, self.pin(lambda x, i: x.like(ex, name + '.at', tuple(keys) + (i,)))))
            return self.like(post if post.items else pre, name, keys)
        if isinstance(pre, MapV):
            return self.like(post if post.writes else pre, name, keys)
        if isinstance(pre, Iter):
            return Iter(pre.kind, pre.x, self.leaf(name + '.lo', keys, I), pre.hi, pre.maps)
        if isinstance(pre, Unit):
            return self.like(post, name, keys)
        return self.like(pre, name, keys)

    # ---------------------------------------------------------------- summary
    def sym_loop(self, it, body, tag, cond=None):
        key = (self.runid, self.dk, self.nfresh, self.nloc, tag, self.loopidx, self.quiet, self.ncall)
        hit = self.nested_cache.get(key)
        if hit is None:
            state = self.snapshot()
            try:
                hit = self.analyse_loop(it, body, tag, cond)
            except Unswitch as u:
                hit = u
                self.restore(state)
            self.nested_cache[key] = hit
        if isinstance(hit, Unswitch):
            # a condition that does not change during the loop decides the shape of the result
            for c in hit.conds:
                self.branch(c)
            return self.sym_loop(it, body, tag, cond)
        exits, after = hit
        k = self.choose(1 + len(exits)) if after is not None else 1 + self.choose(len(exits))
        dec, dk = self.dec, self.dk
        snap = after if k == 0 else exits[k - 1][2]
        if snap is None:
            raise Infeasible()
        self.restore(snap)
        self.dec = dec
        self.dk = dk
        if k:
            kind, v, _ = exits[k - 1]
            if kind == 'break':
                raise BreakSig(*v)
            if kind == 'return':
                raise ReturnSig(v)
            if kind == 'continue':
                raise ContinueSig(v)
            if kind == 'revert':
                raise Revert(v)

    def analyse_loop(self, it, body, tag, cond):
        pre = self.snapshot()
        pre_nloc = self.nloc
        depth = len(self.loopidx)
        iname = f'i{depth}~{self.nfresh}'
        self.nfresh += 1
        idx = z3.Int(iname)
        if it is not None:
            lo, hi = z(it.lo), z(it.hi)
        else:
            lo, hi = z3.IntVal(0), self.leaf(f'trip!{self.nfresh}', (), I)
        pre = self.snapshot()
        oldidx = self.loopidx
        hav = {}       # loc -> havocked value
        cells = set()
        balmod = [False]
        quiet = self.quiet
        eps = {}

        def run(final, hv):
            self.restore(pre)
            self.loopidx = oldidx + (idx,)
            self.quiet = quiet or not final
            rid, self.runid = self.runid, next(self.runids)
            def thunk():
                for loc, v in hv.items():
                    self.store[loc] = v
                self.epctx[f'L{iname}'] = oldidx + (idx,)
                for v in hv.values():
                    self.nonneg_like(v)
                for c in cells:
                    self.epoch[c] = f'L{iname}'
                    self.storage[c] = ()
                    g = 'len:' + c
                    if g in self.ghost:
                        self.ghost[g] = ()
                for c in eps:
                    ext = c == 'ext:*'
                    self.epoch[c] = f'L{iname}'
                    for n in list(self.storage):
                        if n.startswith('ext:') == ext:
                            self.storage[n] = ()
                    for n in list(self.epoch):
                        if n.startswith('ext:') == ext and n not in ('ext:*', 'own:*'):
                            del self.epoch[n]
                if balmod[0]:
                    self.ghost['balep'] = f'L{iname}'
                    self.bal = ()
                self.fact(idx >= lo)
                if it is not None or hi_known[0] is not None:
                    self.fact(idx < (hi if it is not None else hi_known[0]))
                self.brs = ()
                self.trace = ()
                if it is not None:
                    x = self.iter_elem(it, idx)
                    self.cur_loop = dict(pre=pre, hav=hv, idx=idx, lo=lo, hi=hi, name=iname, it=it)
                    hk = self.cfg.iter_hook(self, x, tag) if self.cfg.iter_hook and not self.quiet else None
                    body(x)
                    if hk:
                        hk()
                else:
                    self.cur_loop = dict(pre=pre, hav=hv, idx=idx, lo=lo, hi=None, name=iname, it=None)
                    hk = self.cfg.while_hook(self, tag) if self.cfg.while_hook and not self.quiet else None
                    body(idx)
                    if hk:
                        hk()
                return None
            try:
                return self.enum(thunk)
            finally:
                self.loopidx = oldidx
                self.quiet = quiet
                self.runid = rid

        hi_known = [None]
        for rnd in range(8):
            outs = run(False, hav)
            changed = False
            for kind, v, s in outs:
                if kind not in ('ok', 'continue'):
                    continue
                for loc in range(1, pre_nloc + 1):
                    if loc not in pre['store']:
                        continue
                    a = hav.get(loc, pre['store'][loc])
                    b = s['store'][loc]
                    if not struct_same(a, b):
                        self.restore(pre)
                        nv = self.havoc_diff(pre['store'][loc], b, f'h{iname}.{loc}', hav.get(loc), oldidx)
                        if loc not in hav or not struct_same(nv, hav[loc]):
                            hav[loc] = nv
                            changed = True
                for c in set(s['storage']) | set(s['epoch']):
                    if c in ('ext:*', 'own:*'):
                        if s['epoch'].get(c) != pre['epoch'].get(c) and c not in eps:
                            eps[c] = True
                            changed = True
                        continue
                    base = () if c in cells else pre['storage'].get(c, ())
                    ep = f'L{iname}' if c in cells else pre['epoch'].get(c)
                    if s['storage'].get(c, ()) != base or (s['epoch'].get(c) != ep and c in s['epoch']):
                        if c not in cells:
                            cells.add(c)
                            changed = True
                bb = () if balmod[0] else pre['bal']
                if not balmod[0] and (s['bal'] != bb or s['ghost'].get('balep') != pre['ghost'].get('balep')):
                    balmod[0] = True
                    changed = True
                for e in ('ext:*', 'own:*'):
                    pass
            if eps and rnd >= 0:
                pass
            if not changed:
                break
        else:
            raise ToolError(f'loop summary does not stabilise {tag}')
        hnames = set()
        for loc, v in hav.items():
            for t in self.term_leaves(v):
                hnames |= {n for n in consts_of(t) if n.startswith(f'h{iname}.')}
        hprefix = f'h{iname}.'
        if DEBUG:
            print('LOOP', iname, tag, {l: (repr(pre['store'][l])[:80], repr(v)[:80]) for l, v in hav.items()}, 'cells', cells, eps)

        def dep(t):
            if is_c(t):
                return False
            return any(n.startswith(hprefix) or f'@L{iname}@' in n
                       for n in consts_of(t))
        # ---- refine accumulators
        oks = [(v, s) for kind, v, s in outs if kind in ('ok', 'continue')]
        refined = {}
        linked = {}
        if oks:
            for loc, hv in hav.items():
                refined[loc] = self.refine(hv, pre['store'][loc], [s['store'][loc] for _, s in oks],
                                           [s['brs'] for _, s in oks], idx, lo, dep, oldidx, iname)
            linked = self.link(hav, refined, pre, oks)
            bad = [l for l in hav if not refined.get(l) and isinstance(pre['store'][l], (Vec, MapV)) and
                   not struct_same(hav[l], pre['store'][l]) and len({len(pushed(s['store'][l])) for _, s in oks}) > 1]
            if bad:
                inv, seen = [], set()
                for _, s in oks:
                    for c in s['brs']:
                        b = c.arg(0) if z3.is_not(c) else c
                        if b.get_id() not in seen and not dep(b) and iname not in consts_of(b) and \
                                not any(iname + '.' in n or '!' in n for n in consts_of(b)):
                            seen.add(b.get_id())
                            inv.append(b)
                for b in inv:
                    groups = {}
                    for _, s in oks:
                        pol = None
                        for c in s['brs']:
                            if c.eq(b):
                                pol = True
                            elif z3.is_not(c) and c.arg(0).eq(b):
                                pol = False
                        groups.setdefault(pol, []).append(s)
                    if all(len({len(pushed(s['store'][l])) for s in g}) == 1 for g in groups.values() for l in bad):
                        raise Unswitch([b])
                if inv:
                    raise Unswitch(inv)
        # ---- while loops: trip count from the condition
        if cond is not None and cond[0] is not None:
            hi_known[0] = self.trip_count(cond, refined, idx, pre, dep, hav, iname)
        # ---- final run with refined heads
        headv = {}
        for loc, hv in hav.items():
            headv[loc] = refined[loc](idx) if refined.get(loc) else hv
        for loc, (vl, f) in linked.items():
            headv[loc] = f(headv[vl])
        if self.cfg.loop_entry and not quiet:
            def entry():
                self.cfg.loop_entry(self, dict(pre=pre, hav=headv, idx=idx, lo=lo, hi=hi, name=iname, it=it))
            self.restore(pre)
            self.enum(entry)
        outs = run(True, headv)
        self.restore(pre)
        bound = hi if it is not None else (hi_known[0] if hi_known[0] is not None else hi)
        # facts valid for every completed iteration
        facts = []
        for kind, v, s in outs:
            if kind in ('ok', 'continue'):
                facts.append(And(*[c for c in s['pc'][len(pre['pc']):] if not self.mentions(c, hprefix, iname)]))
        quant = None
        if facts:
            f = Or(*facts)
            if not is_c(f):
                quant = (idx, lo, bound, f, oldidx)
        traces = [(s['trace'], s['pc'][len(pre['pc']):], kind) for kind, v, s in outs if s['trace']]
        exits = []
        for kind, v, s in outs:
            if kind in ('break', 'return') or (kind == 'continue' and v is not None):
                if kind == 'break' and v[0] == '#cond' and hi_known[0] is not None:
                    continue
                s2 = dict(s)
                s2['trace'] = pre['trace'] + (dict(kind='loop', idx=idx, lo=lo, hi=idx, it=it, paths=traces),) + s['trace']
                s2['brs'] = pre['brs'] + s['brs']
                s2['loopidx'] = oldidx
                if quant:
                    s2['qf'] = s['qf'] + [(idx, lo, idx, quant[3], oldidx)]
                exits.append((kind, v, s2))
        # ---- state after normal termination
        after = None
        if it is not None or hi_known[0] is not None:
            self.restore(pre)
            for loc, hv in hav.items():
                if refined.get(loc):
                    self.store[loc] = refined[loc](bound)
                else:
                    self.store[loc] = self.rename_h(hv, hprefix, f'a{iname}.')
            for loc, (vl, f) in linked.items():
                self.store[loc] = f(self.store[vl])
            self.epctx[f'A{iname}'] = oldidx
            for c in cells:
                self.epoch[c] = f'A{iname}'
                self.storage[c] = ()
                if 'len:' + c in self.ghost:
                    self.ghost['len:' + c] = ()
            for c in eps:
                self.havoc_all(c == 'ext:*')
            if balmod[0]:
                self.ghost['balep'] = f'A{iname}'
                self.bal = ()
            self.fact(z(bound) >= lo)
            if not facts:
                self.fact(z(bound) <= lo)       # no iteration completes
            self.trace = pre['trace'] + (dict(kind='loop', idx=idx, lo=lo, hi=bound, it=it, paths=traces),)
            if quant:
                self.qf.append(quant)
            if self.cfg.loop_exit and not quiet:
                self.cfg.loop_exit(self, dict(pre=pre, hav=headv, idx=idx, lo=lo, hi=bound, name=iname, it=it))
            after = self.snapshot()
        if after is None and not exits:
            raise Infeasible()
        self.restore(pre)
        return exits, after

    def mentions(self, c, hprefix, iname):
        return any(n.startswith(hprefix) or f'@L{iname}@' in n for n in consts_of(c))

    def term_leaves(self, v):
        try:
            return [t for _, t in leaves(v) if not is_c(t)]
        except TypeError:
            return []

    def rename_h(self, v, p, q):
        def f(t):
            if is_c(t):
                return t
            subs = []
            seen = set()
            st = [t]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(p):
                    d = x.decl()
                    n2 = z3.Function(q + d.name()[len(p):], *[d.domain(j) for j in range(d.arity())], d.range())(*x.children()) \
                        if d.arity() else z3.Const(q + d.name()[len(p):], x.sort())
                    subs.append((x, n2))
                st.extend(x.children())
            return cv(z3.substitute(t, *subs)) if subs else t
        try:
            r = map_leaves(v, f)
        except TypeError:
            return self.like_vec(v, q)
        self.nonneg_like(r)
        return r

    def nonneg_like(self, v):
        if isinstance(v, Dec):
            if not v.signed and not is_c(v.raw):
                self.fact(v.raw >= 0)
        elif isinstance(v, Int):
            if v.k and not is_c(v.t):
                self.int_range(v.t, v.k)
        elif isinstance(v, Struct):
            for w in v.f.values():
                self.nonneg_like(w)
        elif isinstance(v, Tup):
            for w in v.e:
                self.nonneg_like(w)
        elif isinstance(v, Opt) and v.v is not None:
            self.nonneg_like(v.v)
        elif isinstance(v, Vec) and v.base is not None and not is_c(v.base.len):
            self.int_range(v.base.len, 'usize')
        elif isinstance(v, Enum) and not is_c(v.tag):
            en = self.prog.enum(v.n, self.crate)
            self.fact(v.tag >= 0)
            if en:
                self.fact(v.tag < len(en[1]))

    def like_vec(self, v, q):
        if isinstance(v, Vec):
            return self.like(v, self.fresh_name(q + 'v'))
        if isinstance(v, MapV):
            b = v.base
            nm = self.fresh_name(q + 'm')
            return MapV(Seq(nm, 0, self.pin(lambda x, kt: x.like(b.elem(x, kt), nm + '.at', tuple(kt)))), ())
        if isinstance(v, Iter):
            return v
        if isinstance(v, Struct):
            return Struct(v.n, {k: (w if isinstance(w, (SelfV, Marker, Ref)) else
                                    (self.like_vec(w, q) if isinstance(w, (Vec, MapV, Struct, Iter)) else
                                     self.rename_h(w, '\0', q))) for k, w in v.f.items()})
        if isinstance(v, Tup):
            return Tup([self.like_vec(w, q) if isinstance(w, (Vec, MapV, Struct)) else w for w in v.e])
        raise ToolError(f'havoc after loop of {v!r}')

    # ---- accumulators -----------------------------------------------------
    def refine(self, hv, prev, posts, brss, idx, lo, dep, ctx, iname):
        """closed form of a modified location at the head of iteration `k`; None if unknown"""
        if isinstance(prev, Struct) and isinstance(hv, Struct):
            parts = {}
            for k in prev.f:
                if struct_same(prev.f[k], hv.f[k]):
                    parts[k] = (lambda v: (lambda b: v))(prev.f[k])
                else:
                    r = self.refine(hv.f[k], prev.f[k], [p.f[k] for p in posts], brss, idx, lo, dep, ctx, iname)
                    parts[k] = r or (lambda v: (lambda b: v if b is idx else self.rename_h(v, f'h{iname}.', f'a{iname}.')))(hv.f[k])
            return lambda b: Struct(prev.n, {k: parts[k](b) for k in prev.f})
        if isinstance(prev, Tup) and isinstance(hv, Tup):
            parts = []
            for j in range(len(prev.e)):
                if struct_same(prev.e[j], hv.e[j]):
                    parts.append((lambda v: (lambda b: v))(prev.e[j]))
                else:
                    r = self.refine(hv.e[j], prev.e[j], [p.e[j] for p in posts], brss, idx, lo, dep, ctx, iname)
                    parts.append(r or (lambda v: (lambda b: v if b is idx else self.rename_h(v, f'h{iname}.', f'a{iname}.')))(hv.e[j]))
            return lambda b: Tup([p(b) for p in parts])
        if isinstance(prev, (Int, Dec)):
            if isinstance(prev, Dec):
                if not all(isinstance(p, Dec) and same(p.scale, hv.scale) for p in posts):
                    return None
                h, ps, p0 = hv.raw, [p.raw for p in posts], prev.raw
            else:
                h, ps, p0 = hv.t, [p.t for p in posts], prev.t
            if is_c(h):
                return None
            ds = [simp(sub(p, h)) for p in ps]
            if any(dep(d) for d in ds):
                return None
            t = self.merge_terms(ds, brss, dep)
            if t is None:
                return None
            def mk(b):
                s = self.sum_term(t, idx, lo, b, ctx)
                r = simp(add(p0, s))
                return Dec(r, hv.scale, prev.signed) if isinstance(prev, Dec) else Int(r, prev.k)
            return mk
        if isinstance(prev, Vec) and prev.base is None and not prev.ups and isinstance(hv, Vec):
            # pushes: every path appends exactly one element
            items = []
            for p in posts:
                if not (isinstance(p, Vec) and p.base is hv.base and len(p.items) == 1 and not p.ups):
                    return None
                items.append(p.items[0])
            merged = self.merge_values(items, brss, dep)
            if merged is None:
                return None
            n0 = len(prev.items)
            if n0:
                return None

            def mkv(b):
                def elem(ex, j):
                    return map_leaves(merged, lambda t: t if is_c(t) else
                                      cv(z3.substitute(t, (idx, z(add(lo, j))))))
                s = Seq(f'push{iname}', simp(sub(b, lo)), elem)
                s.mapped = True
                return Vec(s)
            return mkv
        if isinstance(prev, MapV) and prev.base is None and not prev.writes and isinstance(hv, MapV):
            # every path adds exactly one entry: the map {key(i) -> value(i)}
            ks, vs = [], []
            for p in posts:
                if not (isinstance(p, MapV) and p.base is hv.base and len(p.writes) == 1):
                    return None
                ks.append(p.writes[0][0]); vs.append(p.writes[0][1])
            k, w = self.merge_values(ks, brss, dep), self.merge_values(vs, brss, dep)
            if k is None or w is None or not isinstance(k, Opq):
                return None

            def mkm(b):
                at = lambda v, j: map_leaves(v, lambda t: t if is_c(t) else cv(z3.substitute(t, (idx, z(j)))))
                nm = f'put{iname}' + ('' if b is not idx else '.head')
                s = Seq(nm, 0, lambda ex, kt: at(w, ex.leaf(nm + '.wit', tuple(ctx) + tuple(kt), I)))
                s.ctx = tuple(ctx)
                s.put = (lambda j: at(k, j).t, lo, b)
                return MapV(s)
            return mkm
        if isinstance(prev, Bool):
            return None
        return None

    def link(self, hav, refined, pre, oks):
        """accumulators that grow by a component of the element every iteration pushes onto a sequence:
        {location: (location of the sequence, value as a function of the sequence)}"""
        vecs = []
        for vl, hv in hav.items():
            p0 = pre['store'][vl]
            if refined.get(vl) or not (isinstance(p0, Vec) and p0.base is None and not p0.items and not p0.ups and isinstance(hv, Vec)):
                continue
            ws = [s['store'][vl] for _, s in oks]
            if all(isinstance(w, Vec) and w.base is hv.base and len(w.items) == 1 and not w.ups for w in ws):
                try:
                    ls = [dict(leaves(w.items[0])) for w in ws]
                except TypeError:
                    continue
                vecs.append((vl, ls))
        out = {}
        for loc, hv in hav.items():
            p0 = pre['store'][loc]
            if refined.get(loc) or not isinstance(hv, (Dec, Int)):
                continue
            get = lambda v: v.raw if isinstance(v, Dec) else v.t
            if is_c(get(hv)):
                continue
            ps = [s['store'][loc] for _, s in oks]
            if isinstance(hv, Dec) and not all(isinstance(q, Dec) and same(q.scale, hv.scale) for q in ps):
                continue
            ds = [simp(sub(get(q), get(hv))) for q in ps]
            for vl, ls in vecs:
                for path in ls[0]:
                    if all(path in l and not isinstance(l[path], bool) and (is_c(l[path]) or z3.is_int(l[path])) and same(simp(l[path]), d) for l, d in zip(ls, ds)):
                        def f(vec, p0=p0, hv=hv, path=path):
                            i = z3.Int('dummy.i')
                            t = dict(leaves(vec.base.elem(self, i)))[path]
                            r = simp(add(get(p0), self.sum_term(t, i, 0, vec.base.len, self.loopidx)))
                            return Dec(r, hv.scale, hv.signed) if isinstance(hv, Dec) else Int(r, hv.k)
                        out[loc] = (vl, f)
                        break
                if loc in out:
                    break
        return out

    def merge_terms(self, ts, brss, dep):
        if all(same(t, ts[0]) for t in ts[1:]):
            return ts[0]
        if any(dep(c) for b in brss for c in b):
            # conditions common to all paths that depend on havocked state are harmless only if equal terms
            return None
        r = ts[-1]
        for t, b in list(zip(ts, brss))[:-1]:
            r = ite(And(*b), t, r)
        return r

    def merge_values(self, vs, brss, dep):
        try:
            ls = [leaves(v) for v in vs]
        except TypeError:
            return None
        if any([p for p, _ in l] != [p for p, _ in ls[0]] for l in ls):
            return None
        if any(not is_c(t) and dep(t) for l in ls for _, t in l):
            return None
        out = []
        for col in zip(*[[t for _, t in l] for l in ls]):
            col = list(col)
            if all((is_c(x) and is_c(col[0]) and x == col[0]) or (not is_c(x) and not is_c(col[0]) and x.eq(col[0])) for x in col):
                out.append(col[0])
                continue
            if any(dep(c) for b in brss for c in b):
                return None
            r = col[-1]
            for t, b in list(zip(col, brss))[:-1]:
                r = ite(And(*b), t, r)
            out.append(r)
        itr = iter(out)
        return map_leaves(vs[0], lambda _t: next(itr))

    def sum_term(self, t, idx, lo, hi, ctx):
        """SUM_{idx in [lo,hi)} t"""
        t = simp(t)
        lo, hi = simp(lo), simp(hi)
        if is_c(t) or not any(x.eq(idx) for x in self._vars(t)):
            n = simp(sub(hi, lo))
            return mul(n, t)
        canon = z3.Int('i#')
        body = commuted(z3.substitute(t, (idx, canon)))
        k = body.sexpr()
        free = self._vars(body)
        ctx = tuple(c for c in ctx if is_c(c) or not z3.is_const(c) or any(x.eq(c) for x in free))
        reg = self.sums
        if k not in reg:
            f = z3.Function(f'SUM{len(reg)}', *([I, I] + [I] * len(ctx)), I)
            reg[k] = dict(f=f, i=canon, term=body, ctx=ctx)
        f = reg[k]['f']
        r = f(z(lo), z(hi), *[z(c) for c in ctx])
        if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and \
                {str(body.arg(1)), str(body.arg(2))} == {'0', '1'}:
            n = z(hi) - z(lo)
            self.fact(z3.And(r >= 0, z3.Or(r <= n, z3.And(n < 0, r == 0))))
        return r

    def _vars(self, t):
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not z3.is_expr(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
        return out

    def trip_count(self, cond, refined, idx, pre, dep, hav, iname):
        """loops of the form `while c < T { ...; c += 1 }`: number of iterations"""
        self.restore(pre)
        for loc, hv in hav.items():
            self.store[loc] = refined[loc](idx) if refined.get(loc) else hv
        if not self.pure_cond(cond[0]):
            self.restore(pre)
            return None
        try:
            c = self.val(self.ev(cond[0], Scope(cond[1]))).t
        except ToolError:
            c = None
        self.restore(pre)
        if c is None or is_c(c) or dep(c):
            return None
        c = z3.simplify(c)
        neg = False
        if z3.is_not(c):
            neg = True
            c = c.arg(0)
        if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)):
            return None
        a, b = c.arg(0), c.arg(1)
        op = '<=' if z3.is_le(c) else '>=' if z3.is_ge(c) else '<' if z3.is_lt(c) else '>'
        if neg:
            op = {'<=': '>', '>=': '<', '<': '>=', '>': '<='}[op]
        # normalise to  a < b  or  a <= b
        if op in ('>', '>='):
            a, b = b, a
            op = '<' if op == '>' else '<='
        # b - a as function of idx must be  K - idx
        d = z3.simplify(b - a + idx)
        if any(x.eq(idx) for x in self._vars(d)):
            return None
        n = d if op == '<' else d + 1
        n = z3.simplify(n)
        return z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
