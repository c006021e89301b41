"""Calls, framework built-ins (managed types, storage mappers, transactions) of the executor.

The semantics given here to the framework (multiversx-sc 0.59) are the assumed
contracts on dependencies; they are listed in every evidence file.
"""
import z3
from terms import *
from values import *
from program import ToolError
from engine import *

CTOR_OPQ = ('ManagedAddress', 'EgldOrEsdtTokenIdentifier', 'TokenIdentifier', 'ManagedBuffer', 'EsdtTokenIdentifier',
            'TokenId', 'ManagedArgBuffer')
PAY = ('EgldOrEsdtTokenPayment', 'EsdtTokenPayment', 'EgldOrEsdtTokenPaymentRefs', 'EsdtTokenPaymentRefs')


def ident_words(keys):
    return '|'.join(str(k) for k in keys)


class LibMixin:
    # ================================================================= calls
    def call_fn(self, fn, args):
        key = fn.name if fn.kind != 'impl' else f'{fn.owner}::{fn.name}'
        h = self.cfg.contracts.get(key)
        if h is not None:
            r = h(self, args)
            if r is not NotImplemented:
                return r
        if fn.body is None:
            return self.abstract_fn(fn, args)
        self.inlined.add(f'{fn.file}:{key}')
        self.ncall += 1
        if self.cfg.merge and self.cfg.merge(fn) and key not in self.nomerge:
            return self.merged_call(fn, args, key)
        return self.inline_call(fn, args, key)


    def merged_call(self, fn, args, key):
        """execute a side-effect free function on all its paths and join the results"""
        ck = ('merge', self.runid, key, self.dk, self.nfresh, self.nloc, self.ncall, self.loopidx, self.quiet)
        hit = self.nested_cache.get(ck)
        if hit is None:
            pre = self.snapshot()
            ni = getattr(self, 'ninfeasible', 0)
            outs = self.enum(lambda: self.inline_call(fn, args, key))
            self.restore(pre)
            hit = self.join(pre, outs, key, getattr(self, 'ninfeasible', 0) > ni)
            self.nested_cache[ck] = hit
        if hit == 'no':
            return self.inline_call(fn, args, key)
        v, snap = hit
        if v is None:
            raise Revert('every path of ' + key + ' reverts')
        dec, dk, nc = self.dec, self.dk, self.ncall
        self.restore(snap)
        self.dec, self.dk, self.ncall = dec, dk, nc
        return v

    def join(self, pre, outs, key, dropped=False):
        oks = [(v, s) for k, v, s in outs if k == 'ok']
        rest = [k for k, v, s in outs if k != 'ok']
        if any(k != 'revert' for k in rest) or (rest and self.cfg.explore_reverts):
            return 'no'
        if not oks:
            return (None, None)
        npc, nbr = len(pre['pc']), len(pre['brs'])
        for v, s in oks:
            if s['storage'] != pre['storage'] or s['bal'] != pre['bal'] or any(e['kind'] != 'event' for e in s['trace'][len(pre['trace']):]) or \
                    s['epoch'] != pre['epoch'] or s['ghost'] != pre['ghost'] or len(s['qf']) != len(pre['qf']):
                self.nomerge.add(key)
                return 'no'
        differ = [l for l, x in pre['store'].items() if any(s['store'].get(l) is not x for v, s in oks)]
        if len(oks) == 1:
            v, s = oks[0]
            return (v, dict(s))
        bs = [s['brs'][nbr:] for _, s in oks]
        m = self.merge_values([v for v, _ in oks], bs, lambda c: False)
        if m is None:
            return 'no'
        newst = {}
        for l in differ:
            try:
                w = self.merge_values([s['store'][l] for _, s in oks], bs, lambda c: False)
            except TypeError:
                w = None
            if w is None:
                self.nomerge.add(key)
                return 'no'
            newst[l] = w
        self.restore(pre)
        self.store.update(newst)
        for v, s in oks:
            b = s['brs'][nbr:]
            ids = {x.get_id() for x in b}
            fs = [x for x in s['pc'][npc:] if x.get_id() not in ids]
            if fs:
                self.assume(Implies(And(*b), And(*fs)))
        if rest or dropped:
            self.assume(Or(*[And(*s['brs'][nbr:]) for _, s in oks]))
        self.nfresh = max(s['nfresh'] for _, s in oks)
        self.nloc = max(s['nloc'] for _, s in oks)
        return (m, self.snapshot())

    def inline_call(self, fn, args, key):
        self.depth += 1
        if self.depth > 60:
            raise ToolError('call depth (recursion?) at ' + key)
        sc = Scope()
        params = fn.sig['a']
        pi = 0
        saved = self.self_ty
        sst = self.self_ty = [fn.owner]
        scrate = self.crate
        try:
            for p in params:
                if p.get('self'):
                    a = args[pi]; pi += 1
                    if fn.kind == 'impl':
                        if not p['ref']:
                            a = self.val(a)
                        self.bind(sc, 'self', a)
                    continue
                a = args[pi]; pi += 1
                ty = p['t']
                if ty.get('k') == 'ref':
                    if not ty.get('m'):
                        a = self.val(a)
                else:
                    a = self.val(a)
                    a = self.coerce(a, ty)
                if not self.match(p['p'], a, sc):
                    raise ToolError('parameter pattern')
            if pi != len(args):
                raise ToolError(f'arity of {key}: {pi} parameters, {len(args)} arguments')
            try:
                v = self.block(fn.body, sc)
            except ReturnSig as r:
                v = r.v
            if isinstance(v, Ref) and (fn.sig['r'] or {}).get('k') != 'ref':
                v = self.val(v)
            self.drop_scope(sc)
            if fn.sig['r']:
                v = self.coerce(v, fn.sig['r']) if isinstance(v, Int) else v
            return v
        finally:
            self.self_ty = saved
            self.depth -= 1

    def abstract_fn(self, fn, args):
        mi = self.prog.mapper_info(fn)
        if mi:
            n, g = self.tyname(fn.sig['r'])
            keys = [self.val(a) for a in args[1:]]
            if mi[0] == 'storage_mapper_from_address':
                kt = self.keyterms(keys)
                return Mapper(n, 'ext:' + mi[1], kt, g, addr=kt[0])
            return Mapper(n, mi[1], self.keyterms(keys), g)
        for a in fn.attrs:
            h = a.split('(')[0].strip()
            if h == 'event':
                self.event('event', name=a[a.index('"') + 1:a.rindex('"')], args=[self.val(x) for x in args[1:]])
                return UNIT
            if h == 'proxy':
                return Tx({'to': self.val(args[1]).t, 'proxy': '@' + fn.crate})
        raise ToolError(f'abstract function {fn}')

    # ----------------------------------------------------------- method calls
    def e_mcall(self, e, sc):
        n = e['n']
        r = e['r']
        # receiver as a place where possible (methods taking &mut self)
        pl = self.place(r, sc)
        if pl is not None:
            recv = self.deref_ref(pl)
        else:
            recv = self.ev(r, sc)
        rv = self.val(recv)
        if isinstance(rv, SelfV):
            args = [self.ev(a, sc) for a in e['a']]
            return self.self_call(n, args, e)
        if isinstance(rv, Struct):
            fn = self.prog.impl(self.crate, rv.n, n)
            if fn is not None:
                byval = not (fn.sig['a'] and fn.sig['a'][0].get('ref'))
                args = [self.ev(a, sc) for a in e['a']]
                if byval:
                    return self.call_fn(fn, [rv] + args)
                if not isinstance(recv, Ref):
                    recv = Ref(self.alloc(recv))
                return self.call_fn(fn, [recv] + args)
        if n in ('clone', 'clone_value') and not e['a']:
            return rv
        args = [self.ev(a, sc) for a in e['a']]
        if not isinstance(rv, (Opt, Res)) and r['k'] == 'mcall' and r['n'] in ('get', 'first', 'last') and \
                n in ('ok_or', 'unwrap', 'unwrap_or_else', 'expect', 'cloned', 'copied'):
            # slice access: the bounds were required by the access itself (out of bounds ends in a panic either way)
            return Res(True, rv, args[0]) if n == 'ok_or' else (Opt(True, rv) if n in ('cloned', 'copied') else rv)
        ov = self.cfg.methods.get((type(rv).__name__, n)) or (isinstance(rv, Marker) and
                                                             self.cfg.methods.get((rv.n, n)))
        if ov:
            return ov(self, recv, args)
        m = getattr(self, 'm_' + type(rv).__name__, None)
        if m is None:
            raise ToolError(f'method {n} on {rv!r} line {e.get("l")}')
        v = m(n, recv, rv, args, e)
        if v is NotImplemented:
            raise ToolError(f'method .{n}() on {type(rv).__name__} {rv!r} line {e.get("l")}')
        return v

    def self_call(self, n, args, e=None):
        h = self.cfg.contracts.get(n)
        if h is not None:
            r = h(self, [SELF] + args)
            if r is not NotImplemented:
                return r
        fn = self.prog.lookup(self.crate, n, must=False)
        if fn is not None:
            return self.call_fn(fn, [SELF] + args)
        if n in ('blockchain', 'call_value', 'send', 'tx', 'types', 'proxy_factory', 'send_raw'):
            if n == 'tx':
                return Tx({})
            return Marker(n)
        if n in ('require_not_paused', 'require_paused', 'is_paused', 'not_paused'):
            p = self.paused()
            if n == 'require_not_paused':
                self.event('require_not_paused')
                self.require(Not(p), 'Contract is paused')
                return UNIT
            if n == 'require_paused':
                self.require(p, 'Contract is not paused')
                return UNIT
            return Bool(p if n == 'is_paused' else Not(p))
        if n == 'set_paused':
            self.write_cell('pause_module:paused', (), self.val(args[0]))
            return UNIT
        if n in ('pause_endpoint', 'unpause_endpoint'):
            self.event('pausecall', name=n)
            self.write_cell('pause_module:paused', (), Bool(n == 'pause_endpoint'))
            return UNIT
        if n in ('pause_event', 'unpause_event'):
            return UNIT
        if n == 'require_caller_has_role' or n == 'has_role':
            raise ToolError('access control module')
        raise ToolError(f'contract function {n}')

    def paused(self):
        v = self.read_cell('pause_module:paused', (), {'k': 'path', 'p': [['bool', []]]})
        return v.t

    def e_call(self, e, sc):
        f = e['f']
        if f['k'] != 'path':
            c = self.val(self.ev(f, sc))
            return self.call_clo(c, [self.ev(a, sc) for a in e['a']])
        p = f['p']
        n = p[-1][0]
        if len(p) == 1:
            loc = sc.find(n)
            if loc is not None:
                return self.call_clo(self.val(self.store[loc]), [self.ev(a, sc) for a in e['a']])
            if n == 'drop':
                a = e['a'][0]
                r = self.place(a, sc)
                if r is not None and not r.path and not isinstance(self.store[r.loc], Ref):
                    self.drop_loc(r.loc)
                    self.moved.add(r.loc)
                else:
                    v = self.val(self.ev(a, sc))
                    if isinstance(v, Struct) and (self.crate, v.n) in self.prog.drops:
                        self.drop_loc(self.alloc(v))
                return UNIT
        args = [self.ev(a, sc) for a in e['a']]
        segs = [s[0] for s in p]
        return self.static_call(segs, args, p)

    def static_call(self, segs, args, p):
        n = segs[-1]
        q = segs[-2] if len(segs) > 1 else None
        if q == 'Self':
            q = self.self_ty[-1]
            if args and isinstance(self.val(args[0]), SelfV):
                return self.self_call(n, args[1:])
        if q in ('Result', 'Option') and n in ('Ok', 'Err', 'Some'):
            q = None
        if q is None or q == 'super' or q == 'crate':
            if n in ('Some', 'Ok', 'Err'):
                a = args[0]
                if n == 'Some':
                    return Opt(True, a)
                return Res(n == 'Ok', a if n == 'Ok' else None, a if n == 'Err' else None)
            fn = self.prog.lookup(self.crate, n, must=False)
            if fn is not None:
                return self.call_fn(fn, args)
            st = self.prog.struct(n, self.crate)
            if st:
                return Struct(n, {fld[0]: self.val(a) for fld, a in zip(st[1], args)})
            raise ToolError('call of ' + n)
        if q in ('Option', 'OptionalValue', 'ManagedOption'):
            if n in ('Some', 'some'):
                return Opt(True, self.val(args[0]))
            if n in ('none', 'None'):
                return Opt(False)
            if n == 'from':
                x = self.val(args[0])
                return x if isinstance(x, Opt) else Opt(True, x)
        if self.prog.struct(q, self.crate) or self.prog.enum(q, self.crate):
            fn = self.prog.impl(self.crate, q, n)
            if fn is not None:
                return self.call_fn(fn, args)
        if self.prog.struct(q, self.crate) and n == 'new':
            pass
        a = [self.val(x) for x in args]
        if q in ('BigUint', 'BigInt', 'ManagedDecimal', 'ManagedDecimalSigned'):
            if n == 'zero':
                return Int(0, q)
            if n in ('from', 'from_u64'):
                return Int(a[0].t, q)
            if n == 'from_raw_units':
                return Dec(a[0].t, a[1].t, q == 'ManagedDecimalSigned')
            if n == 'from_biguint' and q == 'BigInt':
                return Int(a[0].t, q)
        if q in RANGES or q in ('i64', 'usize'):
            if n in ('from', 'try_from'):
                return Int(a[0].t, q)
        if q in PAY and n == 'new':
            return Struct('EgldOrEsdtTokenPayment', dict(zip(PAYMENT_FIELDS, a)))
        if q in PAY and n in ('no_payment',):
            return Struct('EgldOrEsdtTokenPayment', dict(zip(PAYMENT_FIELDS, (Opq(EGLD), Int(0, 'u64'), Int(0, 'BigUint')))))
        if q in ('ManagedVec', 'MultiValueEncoded', 'Vec', 'ArrayVec', 'MultiValueManagedVec'):
            if n == 'new' or n == 'with_capacity' or n == 'new_const':
                return Vec(None, ())
            if n == 'from_single_item':
                return Vec(None, (a[0],))
            if n == 'from':
                return a[0]
        if q == 'ManagedMapEncoded' and n == 'new':
            return MapV(None, ())
        if q == 'ManagedArgBuffer' and n == 'new':
            return Opq(lit_uid('args[]'), q)
        if q == 'EgldOrEsdtTokenIdentifier':
            if n == 'egld':
                return Opq(EGLD, q)
            if n in ('esdt', 'from'):
                return Opq(a[0].t, q)
        if q in CTOR_OPQ:
            if n == 'zero' and q == 'ManagedAddress':
                return Opq(ZERO_ADDR, q)
            if n == 'new':
                return Opq(EMPTY_BUF, q)
            if n in ('from', 'new_from_bytes', 'from_esdt_bytes'):
                if isinstance(a[0], Opq):
                    return Opq(a[0].t, q)
                raise ToolError(f'{q}::{n} on {a[0]!r}')
        if q.startswith('MultiValue') and n in ('from',):
            return a[0] if isinstance(a[0], Tup) else Tup(a)
        if q in ('core', 'mem') and n == 'drop':
            return UNIT
        if n in ('min', 'max') and len(a) == 2 and isinstance(a[0], Int):
            return Int((imin if n == 'min' else imax)(a[0].t, a[1].t), a[0].k or a[1].k)
        if q.endswith('Proxy') or q in ('ReturnsResult',):
            return Marker('::'.join(segs))
        fn = self.prog.impl(self.crate, q, n)
        if fn is not None:
            return self.call_fn(fn, args)
        fn = self.prog.lookup(self.crate, n, must=False)
        if fn is not None:
            return self.call_fn(fn, args)
        raise ToolError('static call ' + '::'.join(segs))

    def e_repeat(self, e, sc):
        v = self.ev(e['e'], sc)
        n = self.val(self.ev(e['n'], sc)).t
        if not is_c(n) or n > 256:
            raise ToolError('array repeat')
        return Vec(None, [v] * n)

    def marker_field(self, v, p):
        if v.n == 'back_transfers' and p == 'payments':
            return v.x
        raise ToolError(f'field {p} of {v!r}')

    # ================================================================ scalars
    def m_Int(self, n, recv, v, a, e):
        w = [self.val(x) for x in a]
        big = v.k in ('BigUint', 'BigInt', None)
        if n in ('add', 'sub', 'mul', 'div', 'rem'):
            return self.binop({'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[n], v, w[0])
        if n in ('add_assign', 'sub_assign', 'mul_assign', 'div_assign'):
            self.assign(recv, self.binop({'a': '+', 's': '-', 'm': '*', 'd': '/'}[n[0]], v, w[0], assign=True))
            return UNIT
        if n == 'eq':
            return Bool(self.v_eq(v, w[0]))
        if n == 'ne':
            return Bool(Not(self.v_eq(v, w[0])))
        if n in ('lt', 'le', 'gt', 'ge'):
            return Bool({'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[n](v.t, w[0].t))
        if n == 'cmp':
            return Enum('Ordering', ite(lt(v.t, w[0].t), 0, ite(eq(v.t, w[0].t), 1, 2)))
        if n == 'partial_cmp':
            return Opt(True, Enum('Ordering', ite(lt(v.t, w[0].t), 0, ite(eq(v.t, w[0].t), 1, 2))))
        if n == 'is_zero':
            return Bool(eq(v.t, 0))
        if n == 'pow':
            ex = w[0].t
            if is_c(v.t) and is_c(ex):
                return Int(v.t ** ex, v.k)
            if is_c(v.t) and v.t == 10:
                t = p10(ex)
                self.fact(ge(t, 1))
                return Int(t, v.k)
            if is_c(ex) and ex <= 4:
                r = 1
                for _ in range(ex):
                    r = mul(r, v.t)
                return Int(r, v.k)
            raise ToolError('pow')
        if n == 'sqrt':
            t = SQRT(z(v.t))
            self.fact(t >= 0)
            return Int(t, v.k)
        if n == 'sign':
            return Enum('Sign', ite(lt(v.t, 0), 0, ite(eq(v.t, 0), 1, 2)))
        if n in ('into_big_uint', 'magnitude', 'abs', 'unsigned_abs'):
            return Int(ite(lt(v.t, 0), sub(0, v.t), v.t), 'BigUint')
        if n in ('to_u64',):
            return Opt(lt(v.t, U64), Int(v.t, 'u64'))
        if n in ('min', 'max'):
            return Int((imin if n == 'min' else imax)(v.t, w[0].t), v.k or w[0].k)
        if n in ('into', 'as_ref', 'borrow', 'to_owned', 'clone', 'into_big_int'):
            return v
        if n == 'saturating_sub':
            return Int(imax(sub(v.t, w[0].t), 0), v.k)
        if n == 'saturating_add' and v.k in RANGES:
            return Int(imin(add(v.t, w[0].t), RANGES[v.k] - 1), v.k)
        if n == 'checked_sub':
            return Opt(ge(v.t, w[0].t), Int(sub(v.t, w[0].t), v.k))
        if n == 'checked_add' and v.k in RANGES:
            s = add(v.t, w[0].t)
            return Opt(lt(s, RANGES[v.k]), Int(s, v.k))
        if n == 'abs_diff':
            return Int(ite(ge(v.t, w[0].t), sub(v.t, w[0].t), sub(w[0].t, v.t)), v.k)
        if n in ('wrapping_sub', 'wrapping_add') and v.k in RANGES:
            return self.wrap((sub if n == 'wrapping_sub' else add)(v.t, w[0].t), v.k)
        if n == 'to_bytes_be_buffer' or n == 'to_bytes_be':
            return Opq(self.leaf('bytes_be', (v.t,), U), 'ManagedBuffer')
        return NotImplemented

    def m_Bool(self, n, recv, v, a, e):
        if n in ('into', 'clone', 'as_ref'):
            return v
        if n == 'then' or n == 'then_some':
            if self.branch(v.t):
                return Opt(True, self.call_clo(a[0], []) if n == 'then' else self.val(a[0]))
            return Opt(False)
        if n == 'not':
            return Bool(Not(v.t))
        if n == 'eq':
            return Bool(self.v_eq(v, a[0]))
        return NotImplemented

    def m_Dec(self, n, recv, v, a, e):
        w = [self.val(x) for x in a]
        if n in ('into_raw_units', 'raw_units', 'as_raw_units'):
            return Int(v.raw, 'BigInt' if v.signed else 'BigUint')
        if n == 'scale':
            return Int(v.scale, 'usize')
        if n == 'trunc':
            return Int(fdiv(v.raw, p10(v.scale)), 'BigUint')
        if n == 'rescale':
            s = w[0].t
            r = (rs_signed if v.signed else rs)(v.raw, v.scale, s)
            if not v.signed and not is_c(r):
                self.fact(ge(r, 0))
            return Dec(r, s, v.signed)
        if n in ('add', 'sub', 'mul', 'div'):
            return self.binop({'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[n], v, w[0])
        if n in ('add_assign', 'sub_assign', 'mul_assign', 'div_assign'):
            self.assign(recv, self.binop({'a': '+', 's': '-', 'm': '*', 'd': '/'}[n[0]], v, w[0], assign=True))
            return UNIT
        if n in ('eq', 'ne'):
            c = self.v_eq(v, w[0])
            return Bool(c if n == 'eq' else Not(c))
        if n in ('lt', 'le', 'gt', 'ge'):
            return Bool(self.cmp_dec({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[n], v, w[0]))
        if n in ('cmp', 'partial_cmp'):
            o = Enum('Ordering', ite(self.cmp_dec('<', v, w[0]), 0, ite(self.cmp_dec('==', v, w[0]), 1, 2)))
            return o if n == 'cmp' else Opt(True, o)
        if n == 'into_signed':
            return Dec(v.raw, v.scale, True)
        if n == 'into_unsigned_or_fail':
            self.require(ge(v.raw, 0), 'negative decimal')
            return Dec(v.raw, v.scale, False)
        if n == 'sign':
            return Enum('Sign', ite(lt(v.raw, 0), 0, ite(eq(v.raw, 0), 1, 2)))
        if n in ('clone', 'as_ref', 'to_owned', 'into'):
            return v
        return NotImplemented

    def m_Enum(self, n, recv, v, a, e):
        if n in ('clone', 'as_ref', 'into'):
            return v
        if n in ('eq', 'ne'):
            c = self.v_eq(v, a[0])
            return Bool(c if n == 'eq' else Not(c))
        if v.n == 'Ordering' and n in ('is_lt', 'is_gt', 'is_eq', 'is_le', 'is_ge', 'is_ne'):
            return Bool({'is_lt': eq(v.tag, 0), 'is_eq': eq(v.tag, 1), 'is_gt': eq(v.tag, 2), 'is_le': le(v.tag, 1),
                         'is_ge': ge(v.tag, 1), 'is_ne': Not(eq(v.tag, 1))}[n])
        fn = self.prog.impl(self.crate, v.n, n)
        if fn is not None:
            return self.call_fn(fn, [v] + a)
        return NotImplemented

    IDENT_OPQ = ('clone', 'as_ref', 'into', 'as_managed_buffer', 'into_name', 'into_managed_buffer', 'unwrap_esdt',
                 'into_esdt_option', 'to_owned', 'clone_value', 'as_address', 'to_boxed_bytes', 'borrow', 'name', 'as_name')

    def m_Opq(self, n, recv, v, a, e):
        if n == 'unwrap_esdt':
            self.require(Not(eq(v.t, EGLD)), 'token is EGLD')
            return v
        if n in self.IDENT_OPQ:
            return v
        if n == 'is_egld':
            return Bool(eq(v.t, EGLD))
        if n == 'is_esdt':
            return Bool(Not(eq(v.t, EGLD)))
        if n == 'as_esdt_option':
            return Opt(Not(eq(v.t, EGLD)), v)
        if n == 'is_zero':
            return Bool(eq(v.t, ZERO_ADDR))
        if n == 'is_empty':
            return Bool(eq(v.t, EMPTY_BUF))
        if n in ('is_valid', 'is_valid_esdt_identifier'):
            return Bool(self.leaf('token_is_valid', (v.t,), z3.BoolSort()))
        if n == 'ticker':
            t = self.leaf('token_ticker', (v.t,), U)
            self.fact(z(Not(eq(t, EGLD))))          # tickers carry no dash and no random suffix
            return Opq(t, 'ManagedBuffer')
        if n in ('eq', 'ne'):
            c = self.v_eq(v, a[0])
            return Bool(c if n == 'eq' else Not(c))
        if n == 'len':
            t = self.leaf('buffer_len', (v.t,), I)
            self.int_range(t, 'usize')
            return Int(t, 'usize')
        if n in ('push_arg', 'append_bytes', 'append', 'append_u64_be', 'push_arg_raw'):
            w = self.val(a[0])
            t = Opq(self.leaf('append:' + (ident_words([x for _, x in leaves(w)]) if not isinstance(w, Opq) else 'b'),
                              (v.t,) + ((w.t,) if isinstance(w, Opq) else ()), U), v.k)
            self.assign(recv, t)
            return UNIT
        if n == 'concat':
            return Opq(self.leaf('concat', (v.t, self.val(a[0]).t), U), v.k)
        return NotImplemented

    def m_Unit(self, n, recv, v, a, e):
        return NotImplemented

    def m_Tup(self, n, recv, v, a, e):
        if n in ('into_tuple', 'clone', 'into', 'into_inner'):
            return v
        return NotImplemented

    def m_Struct(self, n, recv, v, a, e):
        if n in ('clone', 'as_ref', 'into', 'as_refs', 'borrow', 'into_inner'):
            return v
        if v.n == 'EgldOrEsdtTokenPayment':
            if n in ('into_tuple', 'into_parts'):
                return Tup([v.f[k] for k in PAYMENT_FIELDS])
            if n == 'unwrap_esdt':
                self.require(Not(eq(v.f['token_identifier'].t, EGLD)), 'payment is EGLD')
                return v
            if n == 'as_tuple':
                return Tup([v.f[k] for k in PAYMENT_FIELDS])
            if n == 'is_empty':
                return Bool(eq(v.f['amount'].t, 0))
        if n in ('eq', 'ne'):
            c = self.v_eq(v, a[0])
            return Bool(c if n == 'eq' else Not(c))
        return NotImplemented

    def m_Opt(self, n, recv, v, a, e):
        if n in ('is_some',):
            return Bool(v.some)
        if n in ('is_none',):
            return Bool(Not(v.some))
        if n == 'is_some_and':
            if self.branch(v.some):
                return self.val(self.call_clo(a[0], [v.v]))
            return Bool(False)
        if n in ('into_option', 'as_ref', 'clone', 'as_mut', 'cloned', 'as_deref', 'into', 'copied'):
            if n == 'as_mut' and isinstance(recv, Ref):
                return Opt(v.some, Ref(recv.loc, recv.path + (('optv',),)) if v.v is not None else None)
            if n in ('clone', 'cloned', 'copied') and isinstance(v.v, Ref):
                return Opt(v.some, self.val(v.v))
            return v
        if n in ('unwrap', 'expect', 'unwrap_or_else', 'unwrap_or', 'unwrap_or_default', 'unwrap_unchecked',
                 'unwrap_or_sc_panic'):
            if n == 'unwrap_unchecked':
                self.oblige('unwrap_unchecked: the value is present', v.some)
                if v.v is None:
                    raise ToolError('unwrap_unchecked of None')
                self.assume(v.some)   # undefined otherwise
                return v.v
            if self.branch(v.some):
                return v.v
            if n == 'unwrap_or':
                return a[0]
            if n == 'unwrap_or_else':
                return self.call_clo(a[0], [])
            if n == 'unwrap_or_default':
                return self.default_like(v.v)
            raise Revert('unwrap on None')
        if n == 'ok_or':
            return Res(v.some, v.v, a[0])
        if n in ('map', 'and_then'):
            if self.branch(v.some):
                r = self.call_clo(a[0], [v.v])
                return Opt(True, self.val(r)) if n == 'map' else r
            return Opt(False)
        if n == 'map_or':
            if self.branch(v.some):
                return self.call_clo(a[1], [v.v])
            return a[0]
        if n == 'map_or_else':
            if self.branch(v.some):
                return self.call_clo(a[1], [v.v])
            return self.call_clo(a[0], [])
        if n == 'or':
            if self.branch(v.some):
                return v
            return self.val(a[0])
        if n == 'or_else':
            return v if self.branch(v.some) else self.call_clo(a[0], [])
        if n == 'filter':
            if self.branch(v.some) and self.branch(self.val(self.call_clo(a[0], [v.v])).t):
                return v
            return Opt(False)
        if n in ('eq', 'ne'):
            c = self.v_eq(v, a[0])
            return Bool(c if n == 'eq' else Not(c))
        if n == 'take':
            self.assign(recv, Opt(False))
            return v
        return NotImplemented

    def m_Res(self, n, recv, v, a, e):
        if n in ('is_ok', 'is_err'):
            return Bool(v.ok if n == 'is_ok' else Not(v.ok))
        if n in ('unwrap', 'expect', 'unwrap_or_else', 'unwrap_or'):
            if self.branch(v.ok):
                return v.v
            if n == 'unwrap_or':
                return a[0]
            if n == 'unwrap_or_else':
                return self.call_clo(a[0], [v.e])
            raise Revert('unwrap on Err')
        if n == 'ok':
            return Opt(v.ok, v.v)
        return NotImplemented

    def default_like(self, v):
        if isinstance(v, Int):
            return Int(0, v.k)
        if isinstance(v, Bool):
            return Bool(False)
        raise ToolError('default of ' + repr(v))

    def m_Clo(self, n, recv, v, a, e):
        if n == 'clone':
            return v
        return NotImplemented

    # ================================================================ vectors
    def m_Vec(self, n, recv, v, a, e):
        w = [self.val(x) for x in a]
        if n == 'len':
            return Int(self.vec_len(v), 'usize')
        if n == 'is_empty':
            return Bool(eq(self.vec_len(v), 0))
        if n in ('get', 'get_mut'):
            i = w[0].t
            self.require(And(le(0, i), lt(i, self.vec_len(v))), 'index out of bounds')
            if isinstance(e, dict) and e.get('opt'):
                pass
            return self.vec_get(v, i)
        if n == 'try_get':
            i = w[0].t
            if self.branch(And(le(0, i), lt(i, self.vec_len(v)))):
                return Opt(True, self.vec_get(v, i))
            return Opt(False)
        if n == 'set':
            i = w[0].t
            self.require(And(le(0, i), lt(i, self.vec_len(v))), 'index out of bounds')
            self.assign(recv, self.vec_set(v, i, w[1]))
            return UNIT if not self.cfg.methods.get('vec_set_result') else Res(True, UNIT)
        if n == 'push':
            self.assign(recv, Vec(v.base, v.items + (w[0],), v.ups))
            return UNIT
        if n in ('iter', 'into_iter', 'iter_mut'):
            return Iter('vec', v, 0, self.vec_len(v))
        if n in ('clone', 'to_vec', 'as_ref', 'into', 'to_arg_buffer', 'as_slice', 'into_vec_of_payments', 'as_mut_slice', 'as_mut',
                 'clone_value', 'into_vec', 'as_multi', 'to_managed_vec', 'deref', 'arr'):
            if n in ('as_mut_slice', 'as_mut') and isinstance(recv, Ref):
                return recv
            return v
        if n == 'slice':
            lo, hi = w[0].t, w[1].t
            ln = self.vec_len(v)
            if not self.branch(And(le(0, lo), le(lo, hi), le(hi, ln))):
                return Opt(False)
            if is_c(lo) and is_c(hi) and v.base is None:
                return Opt(True, Vec(None, v.items[lo:hi]))
            if v.items or v.ups:
                raise ToolError('slice of an updated vector')
            b = v.base
            return Opt(True, Vec(Seq(f'{b.name}[{lo}:]', sub(hi, lo), lambda ex, i: b.elem(ex, add(i, lo)))))
        if n == 'contains':
            if v.base is None:
                return Bool(Or(*[self.v_eq(x, w[0]) for x in v.items]) if v.items else False)
        if n == 'append_vec' or n == 'extend_from_slice' or n == 'append':
            o = w[0]
            if o.base is None:
                self.assign(recv, Vec(v.base, v.items + o.items, v.ups))
                return UNIT
            if v.base is None and not v.items:
                self.assign(recv, o)
                return UNIT
        if n in ('sort_unstable', 'sort'):
            return self.vec_sort(recv, v)
        if n in ('first', 'last'):
            ln = self.vec_len(v)
            if self.branch(eq(ln, 0)):
                return Opt(False)
            return Opt(True, self.vec_get(v, 0 if n == 'first' else sub(ln, 1)))
        if n == 'find':
            return self.m_Iter('position', recv, Iter('vec', v, 0, self.vec_len(v)), a, e)
        if n == 'is_full' or n == 'capacity':
            raise ToolError('vector capacity')
        if n == 'single_item' or n == 'is_single_item':
            raise ToolError(n)
        if n in ('eq', 'ne'):
            c = self.v_eq(v, w[0])
            return Bool(c if n == 'eq' else Not(c))
        if n in ('remove', 'pop', 'take'):
            if n == 'remove' and v.base is None and is_c(w[0].t):
                it = list(v.items); x = it.pop(w[0].t)
                self.assign(recv, Vec(None, it))
                return x
            if n == 'remove':
                i = w[0].t
                ln = self.vec_len(v)
                self.require(And(le(0, i), lt(i, ln)), 'index out of bounds')
                x = self.vec_get(v, i)

                def elem(ex, j):
                    p, q = ex.vec_get(v, j), ex.vec_get(v, add(j, 1))
                    r = ex.merge_values([p, q], [(z(lt(j, i)),), (z(ge(j, i)),)], lambda t: False)
                    if r is None:
                        raise ToolError('elements of a vector after removal')
                    return r
                out = Seq(self.fresh_name('removed'), simp(sub(ln, 1)), elem)
                out.removed = (v, x)
                self.assign(recv, Vec(out))
                return x
        return NotImplemented

    def vec_sort(self, recv, v):
        """ascending order of an integer vector: a fresh vector of the same length whose elements are the order statistics"""
        ln = self.vec_len(v)
        nm = self.fresh_name('sorted')
        probe = self.vec_get(v, 0)
        if not isinstance(probe, Int):
            raise ToolError('sort of non-integers')
        k = probe.k

        def elem(ex, i):
            t = ex.leaf(nm + '.at', (z(i),), I)
            ex.int_range(t, k or 'none')
            return Int(t, k)
        w = Vec(Seq(nm, ln, elem))
        self.event('sort', src=v, out=w)
        self.assign(recv, w)
        return UNIT

    # ============================================================== iterators
    def iter_of(self, v):
        v = self.val(v)
        if isinstance(v, Iter):
            return v
        if isinstance(v, Vec):
            return Iter('vec', v, 0, self.vec_len(v))
        if isinstance(v, Mapper):
            if v.kind in ('MapMapper',):
                return self.m_Mapper('iter', v, v, [], None)
            return self.m_Mapper('iter', v, v, [], None)
        raise ToolError(f'iteration over {v!r}')

    def iter_elem(self, it, i):
        """element at absolute index i (lo <= i < hi)"""
        if it.kind == 'range':
            v = Int(i, it.x)
        elif it.kind == 'vec':
            v = self.vec_get(it.x, i)
        elif it.kind == 'seq':
            v = it.x.elem(self, i)
        else:
            raise ToolError('iterator ' + it.kind)
        for m in it.maps:
            if m[0] == 'map':
                v = self.call_clo(m[1], [v])
            elif m[0] == 'enum':
                v = Tup([Int(sub(i, it.lo), 'usize'), v])
            else:
                raise ToolError('iterator adapter ' + m[0])
        return v

    def iter_seq(self, it):
        return Seq(f'iter:{id(it)}', sub(it.hi, it.lo), lambda ex, i: ex.iter_elem(it, add(i, it.lo)))

    def m_Iter(self, n, recv, v, a, e):
        if n in ('iter', 'into_iter', 'by_ref', 'cloned', 'copied'):
            return v
        if n == 'map':
            return Iter(v.kind, v.x, v.lo, v.hi, v.maps + (('map', a[0]),))
        if n in ('skip', 'take') and any(m[0] == 'enum' for m in v.maps):
            raise ToolError(n + ' after enumerate')
        if n == 'enumerate':
            return Iter(v.kind, v.x, v.lo, v.hi, v.maps + (('enum',),))
        if n == 'rev':
            raise ToolError('rev iterator')
        if n == 'skip' and is_c(self.val(a[0]).t):
            return Iter(v.kind, v.x, imin(add(v.lo, self.val(a[0]).t), v.hi), v.hi, v.maps)
        if n == 'take':
            return Iter(v.kind, v.x, v.lo, imin(add(v.lo, self.val(a[0]).t), v.hi), v.maps)
        if n == 'len' or n == 'count':
            return Int(sub(v.hi, v.lo), 'usize')
        if n == 'collect':
            if v.kind == 'vec' and not v.maps and is_c(v.lo) and v.lo == 0:
                return v.x
            if is_c(v.lo) and is_c(v.hi):
                return Vec(None, [self.iter_elem(v, i) for i in range(v.lo, v.hi)])
            return Vec(self.iter_seq(v))
        if n in ('fold', 'for_each', 'any', 'all', 'position', 'find', 'sum', 'min', 'max', 'last', 'try_fold', 'filter'):
            return self.iter_consume(n, v, a, e)
        if n == 'next':
            if not isinstance(recv, Ref):
                raise ToolError('next on temporary')
            if self.branch(lt(v.lo, v.hi)):
                x = self.iter_elem(v, v.lo)
                self.assign(recv, Iter(v.kind, v.x, add(v.lo, 1), v.hi, v.maps))
                return Opt(True, x)
            return Opt(False)
        return NotImplemented

    def iter_consume(self, n, it, a, e):
        """desugar into a for loop with a synthetic body"""
        if n == 'fold':
            acc = self.alloc(self.val(a[0]) if not isinstance(a[0], Ref) else a[0])

            def body(x):
                cur = self.store[acc]
                self.store[acc] = self.call_clo(a[1], [cur, x])
            self.loop_over(it, body, ('fold', e.get('l') if e else 0))
            return self.store[acc]
        if n == 'for_each':
            self.loop_over(it, lambda x: self.call_clo(a[0], [x]), ('for_each', e.get('l') if e else 0))
            return UNIT
        if n in ('any', 'all', 'position', 'find'):
            idx = [None]

            def body(x):
                r = self.branch(self.val(self.call_clo(a[0], [x])).t)
                if n == 'all':
                    r = not r
                if r:
                    raise BreakSig('#iter', x if n == 'find' else Bool(n == 'any'))
            try:
                self.loop_over(it, body, (n, e.get('l') if e else 0))
            except BreakSig as b:
                if b.label != '#iter':
                    raise
                if n == 'find':
                    return Opt(True, b.v)
                if n == 'position':
                    raise ToolError('position')
                return b.v
            if n == 'find':
                return Opt(False)
            return Bool(n == 'all')
        raise ToolError('iterator method ' + n)

    # ============================================================ in-memory map
    def m_MapV(self, n, recv, v, a, e):
        w = [self.val(x) for x in a]
        if n == 'put':
            self.assign(recv, MapV(v.base, v.writes + ((w[0], w[1]),)))
            return UNIT
        if n in ('get', 'contains', 'contains_key'):
            for k, x in reversed(v.writes):
                if self.branch(self.v_eq(k, w[0])):
                    return x if n == 'get' else Bool(True)
            if v.base is None:
                if n == 'get':
                    raise Revert('map key missing')
                return Bool(False)
            kt = self.keyterms([w[0]])
            ctx = getattr(v.base, 'ctx', ())
            has = self.leaf(v.base.name + '.has', ctx + kt, z3.BoolSort())
            if getattr(v.base, 'put', None):
                key, lo, hi = v.base.put
                wit = self.leaf(v.base.name + '.wit', ctx + kt, I)
                self.fact(z(Implies(has, And(le(lo, wit), lt(wit, hi), eq(key(wit), kt[0])))))
                pos = self.coll_posof(key(wit), kt)
                if pos is not None:
                    self.fact(z(Implies(And(le(lo, pos), lt(pos, hi), eq(key(pos), kt[0])), has)))
            if n != 'get':
                return Bool(has)
            self.require(has, 'map key missing')
            return v.base.elem(self, kt)
        if n == 'remove':
            raise ToolError('ManagedMapEncoded.remove')
        if n == 'clone':
            return v
        return NotImplemented
