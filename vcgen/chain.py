"""Chain-facing semantics: storage mappers, balances, call value, transactions."""
import z3
from terms import *
from values import *
from program import ToolError
from engine import *

CLEARED = object()


class ChainMixin:
    # ------------------------------------------------------------- raw cells
    def cell_base(self, name):
        ep = self.epoch.get(name)
        if ep is None:
            ep = self.epoch.get('ext:*' if name.startswith('ext:') else 'own:*', 0)
        return f'st:{name}' + (f'@{ep}@' if ep else '')

    def havoc_cell(self, name):
        self.epoch[name] = self.new_epoch()
        self.storage[name] = ()

    def new_epoch(self):
        self.gepoch += 1
        l = f'e{self.gepoch}'
        self.epctx[l] = self.loopidx
        return l

    def havoc_all(self, ext):
        """an external call may change every cell of another contract (ext) / of this one"""
        self.epoch['ext:*' if ext else 'own:*'] = self.new_epoch()
        for n in list(self.storage):
            if n.startswith('ext:') == ext:
                self.storage[n] = ()
        for n in list(self.epoch):
            if n.startswith('ext:') == ext and n not in ('ext:*', 'own:*'):
                del self.epoch[n]

    def keq(self, a, b):
        return And(*[eq(x, y) for x, y in zip(a, b)])

    def read_cell(self, name, keys, ty):
        ov = self.cfg.overrides.get(name)
        if ov:
            r = ov(self, keys)
            if r is not None:
                return r
        for kt, v in reversed(self.storage.get(name, ())):
            if self.branch(self.keq(kt, keys)):
                if v is CLEARED:
                    return self.empty_value(ty)
                return v
        return self.fresh(ty, self.cell_base(name), keys)

    def empty_value(self, ty):
        n, g = self.tyname(ty)
        if n in INT_KINDS:
            return Int(0, n)
        if n == 'bool':
            return Bool(False)
        if n in OPQ_KINDS:
            if n == 'ManagedAddress':
                raise Revert('decode of empty storage')
            return Opq(EMPTY_BUF, n)
        if n in ('ManagedDecimal', 'ManagedDecimalSigned'):
            return Dec(0, 0, n != 'ManagedDecimal')
        raise Revert('decode of empty storage')

    def cell_empty(self, name, keys, ty):
        n, g = self.tyname(ty)
        for kt, v in reversed(self.storage.get(name, ())):
            if self.branch(self.keq(kt, keys)):
                if v is CLEARED:
                    return True
                return self.value_empty(v)
        if n in INT_KINDS or n == 'bool' or n in OPQ_KINDS and n != 'ManagedAddress':
            return self.value_empty(self.fresh(ty, self.cell_base(name), keys))
        return self.leaf(self.cell_base(name) + '.unset', keys, z3.BoolSort())

    def value_empty(self, v):
        if isinstance(v, Int):
            return eq(v.t, 0)
        if isinstance(v, Bool):
            return Not(v.t)
        if isinstance(v, Opq):
            return Or(eq(v.t, EMPTY_BUF), False) if v.k != 'ManagedAddress' else False
        return False

    def write_cell(self, name, keys, v):
        if not isinstance(v, type(CLEARED)):
            v = self.val(v)
        self.storage[name] = self.storage.get(name, ()) + ((tuple(keys), v),)
        self.event('write', cell=name, keys=tuple(keys), v=v)

    # --------------------------------------------------------------- mappers
    def m_Mapper(self, n, recv, v, a, e):
        if v.name.startswith('ext:') and n in ('set', 'clear', 'update', 'insert', 'remove'):
            raise ToolError('write to foreign storage')
        f = getattr(self, 'mm_' + v.kind, None)
        if f is None:
            raise ToolError('mapper kind ' + v.kind)
        return f(n, v, a, e)

    def mm_SingleValueMapper(self, n, v, a, e):
        ty = v.ty[0]
        if n == 'get':
            st = self.tyname(ty)[0]
            if st not in INT_KINDS and st != 'bool' and (st not in OPQ_KINDS or st == 'ManagedAddress'):
                self.require(Not(self.cell_empty(v.name, v.keys, ty)), 'storage decode error')
            return self.read_cell(v.name, v.keys, ty)
        if n == 'set':
            w = self.val(a[0])
            self.write_cell(v.name, v.keys, self.coerce(w, ty))
            return UNIT
        if n == 'is_empty':
            return Bool(self.cell_empty(v.name, v.keys, ty))
        if n == 'clear':
            self.storage[v.name] = self.storage.get(v.name, ()) + ((v.keys, CLEARED),)
            self.event('write', cell=v.name, keys=v.keys, v=CLEARED)
            return UNIT
        if n == 'take':
            w = self.mm_SingleValueMapper('get', v, [], e)
            self.mm_SingleValueMapper('clear', v, [], e)
            return w
        if n == 'replace':
            w = self.mm_SingleValueMapper('get', v, [], e)
            self.mm_SingleValueMapper('set', v, a, e)
            return w
        if n == 'set_if_empty':
            c = self.cell_empty(v.name, v.keys, ty)
            if self.branch(c):
                self.mm_SingleValueMapper('set', v, a, e)
                return Bool(True)
            return Bool(False)
        if n == 'update':
            cur = self.mm_SingleValueMapper('get', v, [], e)
            loc = self.alloc(cur)
            r = self.call_clo(a[0], [Ref(loc)])
            if isinstance(r, Ref):
                r = self.val(r)
            self.write_cell(v.name, v.keys, self.val(self.store[loc]))
            return r
        if n == 'raw_byte_length':
            raise ToolError(n)
        return NotImplemented

    # -- keyed collections: writes = ((mapper keys + key terms), (key value, value)|None) ; length deltas
    def coll_has(self, v, kt):
        for k, w in reversed(self.storage.get(v.name, ())):
            if isinstance(k[0], str) and k[0] == 'clr':
                if self.branch(self.keq(k[1:], v.keys)):
                    return False
                continue
            if self.branch(self.keq(k, v.keys + kt)):
                return w is not None
        return self.leaf(self.cell_base(v.name) + '.has', v.keys + kt, z3.BoolSort())

    def coll_base_len(self, v):
        t = self.leaf(self.cell_base(v.name) + '.len', v.keys, I)
        self.fact(t >= 0)
        self.fact(t < 2 ** 31)          # a collection is enumerated in memory: far fewer entries than 2^31
        return t

    def coll_len(self, v):
        base = None
        delta = 0
        for k, w in reversed(self.ghost.get('len:' + v.name, ())):
            if isinstance(k[0], str) and k[0] == 'clr':
                if self.branch(self.keq(k[1:], v.keys)):
                    base = 0
                    break
                continue
            if isinstance(k[0], str) and k[0] == 'epoch':
                break
            delta = add(delta, ite(self.keq(k, v.keys), w, 0))
        return add(self.coll_base_len(v) if base is None else base, delta)

    def coll_put(self, v, kt, w, had):
        if w is None and not (is_c(had) and not had):
            self.fact(z(Implies(had, ge(self.coll_len(v), 1))))     # the removed entry was counted
        self.storage[v.name] = self.storage.get(v.name, ()) + ((v.keys + kt, w),)
        d = ite(had, 0, 1) if w is not None else ite(had, -1, 0)
        g = 'len:' + v.name
        self.ghost[g] = self.ghost.get(g, ()) + ((v.keys, d),)
        self.event('write', cell=v.name, keys=v.keys + kt, v=w)

    def coll_clear(self, v):
        self.storage[v.name] = self.storage.get(v.name, ()) + ((('clr',) + v.keys, None),)
        g = 'len:' + v.name
        self.ghost[g] = self.ghost.get(g, ()) + ((('clr',) + v.keys, 0),)
        self.event('write', cell=v.name, keys=v.keys, v=CLEARED)

    def coll_ver(self, v):
        """identifies the current content (number of writes since the base)"""
        ws = [x for x in self.storage.get(v.name, ())]
        return len(ws)

    def coll_key_at(self, v, i, kty):
        ver = self.coll_ver(v)
        name = self.cell_base(v.name) + '.keyat' + (f'#{ver}' if ver else '')
        key = self.fresh(kty, name, v.keys + (i,))
        kt = self.keyterms([key])
        if not ver:
            b = self.cell_base(v.name)
            self.fact(z(Implies(And(ge(i, 0), lt(i, self.coll_base_len(v))),
                                And(self.leaf(b + '.has', v.keys + kt, z3.BoolSort()),
                                    eq(self.leaf(b + '.posof', v.keys + kt, I), i)))))
        return key

    def coll_posof(self, key, kt):
        """position of the key kt in the stored collection whose enumeration yields the term `key`:
        an element of the collection is enumerated at exactly one position"""
        d = key.decl()
        if not d.name().endswith('.keyat') and '.keyat@' not in d.name():
            return None
        ks = [cv(c) for c in key.children()[:-1]]
        nm = d.name()[:d.name().rindex('.keyat')]
        pos = self.leaf(nm + '.posof', tuple(ks) + kt, I)
        has = self.leaf(nm + '.has', tuple(ks) + kt, z3.BoolSort())
        ln = self.leaf(nm + '.len', tuple(ks), I)
        at = d(*[z(c) for c in ks], z(pos))
        self.fact(z(Implies(has, And(ge(pos, 0), lt(pos, ln), eq(at, kt[0])))))
        return pos

    def mm_MapMapper(self, n, v, a, e):
        kty, vty = v.ty[0], v.ty[1]
        if n == 'len':
            return Int(self.coll_len(v), 'usize')
        if n == 'is_empty':
            return Bool(eq(self.coll_len(v), 0))
        if n in ('contains_key', 'get', 'insert', 'remove', 'entry', 'get_or_default'):
            kt = self.keyterms([a[0]])
        if n == 'contains_key':
            return Bool(self.coll_has(v, kt))
        if n == 'get':
            return self.map_get(v, kt)
        if n == 'insert':
            old = self.map_get(v, kt)
            self.coll_put(v, kt, self.val(a[1]), old.some)
            return old
        if n == 'remove':
            old = self.map_get(v, kt)
            self.coll_put(v, kt, None, old.some)
            return old
        if n == 'clear':
            self.coll_clear(v)
            return UNIT
        if n in ('values', 'keys', 'iter'):
            ln = self.coll_len(v)

            def elem(ex, i, snap=(self.storage.get(v.name, ()), self.cell_base(v.name))):
                cur = ex.storage.get(v.name, ())
                ex.storage[v.name] = snap[0]
                try:
                    k = ex.coll_key_at(v, i, kty)
                    if n == 'keys':
                        return k
                    kk = ex.keyterms([k])
                    o = ex.map_get(v, kk)
                    if not is_c(o.some):
                        ex.fact(z(o.some)) if snap[0] == () else None
                    val = o.v
                    if val is None:
                        val = ex.fresh(vty, ex.cell_base(v.name), v.keys + kk)
                    return val if n == 'values' else Tup([k, val])
                finally:
                    ex.storage[v.name] = cur
            s = Seq(f'{self.cell_base(v.name)}#{self.coll_ver(v)}.{n}{ident(v.keys)}', ln, elem)
            s.src = (v.name, v.keys, n)
            if self.cfg.iter_events:
                self.event('iterate', m=v, what=n, snap=self.storage.get(v.name, ()), epoch=self.epoch.get(v.name), len=ln, seq=s)
            return Iter('seq', s, 0, ln)
        if n == 'entry':
            return Marker('entry', (v, a[0], kt))
        return NotImplemented

    def map_get(self, v, kt):
        vty = v.ty[1]
        for k, w in reversed(self.storage.get(v.name, ())):
            if isinstance(k[0], str) and k[0] == 'clr':
                if self.branch(self.keq(k[1:], v.keys)):
                    return Opt(False)
                continue
            if self.branch(self.keq(k, v.keys + kt)):
                return Opt(w is not None, w)
        has = self.leaf(self.cell_base(v.name) + '.has', v.keys + kt, z3.BoolSort())
        return Opt(has, self.fresh(vty, self.cell_base(v.name), v.keys + kt))

    def mm_MapStorageMapper(self, n, v, a, e):
        kty, vty = v.ty[0], v.ty[1]
        inner = self.tyname(vty)

        def sub_mapper(kt):
            return Mapper(inner[0], v.name + '.inner', v.keys + kt, inner[1])
        if n in ('contains_key', 'get', 'insert_default', 'remove', 'entry'):
            kt = self.keyterms([a[0]])
        if n == 'contains_key':
            return Bool(self.coll_has(v, kt))
        if n == 'get':
            return Opt(self.coll_has(v, kt), sub_mapper(kt))
        if n == 'insert_default':
            had = self.coll_has(v, kt)
            self.coll_put(v, kt, UNIT, had)
            return Bool(Not(had))
        if n == 'entry':
            return Marker('entry', (v, a[0], kt, sub_mapper(kt)))
        if n == 'len':
            return Int(self.coll_len(v), 'usize')
        if n == 'is_empty':
            return Bool(eq(self.coll_len(v), 0))
        if n in ('values', 'keys', 'iter'):
            ln = self.coll_len(v)

            def elem(ex, i):
                k = ex.coll_key_at(v, i, kty)
                m = sub_mapper(ex.keyterms([k]))
                return k if n == 'keys' else (m if n == 'values' else Tup([k, m]))
            s = Seq(f'{self.cell_base(v.name)}.{n}', ln, elem)
            return Iter('seq', s, 0, ln)
        return NotImplemented

    def mm_UnorderedSetMapper(self, n, v, a, e):
        kty = v.ty[0]
        if n in ('contains', 'insert', 'swap_remove', 'remove'):
            kt = self.keyterms([a[0]])
            had = self.coll_has(v, kt)
            if n == 'contains':
                return Bool(had)
            if n == 'insert':
                self.coll_put(v, kt, self.val(a[0]), had)
                return Bool(Not(had))
            self.coll_put(v, kt, None, had)
            return Bool(had)
        if n == 'len':
            return Int(self.coll_len(v), 'usize')
        if n == 'is_empty':
            return Bool(eq(self.coll_len(v), 0))
        if n == 'clear':
            self.coll_clear(v)
            return UNIT
        if n in ('iter', 'into_iter'):
            ln = self.coll_len(v)
            s = Seq(f'{self.cell_base(v.name)}.set{ident(v.keys)}', ln, lambda ex, i: ex.coll_key_at(v, i, kty))
            s.src = (v.name, v.keys, 'keys')
            return Iter('seq', s, 0, ln)
        return NotImplemented

    mm_SetMapper = mm_UnorderedSetMapper
    mm_WhitelistMapper = mm_UnorderedSetMapper

    def mm_NonFungibleTokenMapper(self, n, v, a, e):
        tid = Opq(self.leaf('nft:' + v.name, v.keys, U), 'TokenIdentifier')
        if n in ('get_token_id', 'get_token_id_ref'):
            return tid
        if n == 'is_empty':
            return Bool(self.leaf(f'nft:{v.name}.unset', v.keys, z3.BoolSort()))
        if n == 'require_same_token':
            self.require(eq(self.val(a[0]).t, tid.t), 'Token ID mismatch')
            return UNIT
        if n == 'nft_burn':
            w = [self.val(x).t for x in a]
            self.event('nft_burn', token=tid.t, nonce=w[0], amount=w[1])
            return UNIT
        if n == 'issue_and_set_all_roles':
            self.event('nft_issue')
            return UNIT
        return NotImplemented

    # ------------------------------------------------------ framework handles
    def m_Marker(self, n, recv, v, a, e):
        w = [self.val(x) for x in a]
        k = v.n
        if k == 'blockchain':
            return self.chain_api(n, w)
        if k == 'call_value':
            return self.call_value_api(n, w)
        if k == 'send':
            return self.send_api(n, w)
        if k == 'entry':
            return self.entry_api(n, v, a)
        if k == 'token_data':
            if n == 'decode_attributes':
                r = self.cfg.methods.get('decode_attributes')
                if r:
                    return r(self, v.x)
                return self.fresh({'k': 'path', 'p': [['AccountAttributes', []]]}, 'nftattr', v.x)
        if k == 'types' or k == 'proxy':
            return v
        if n in ('as_ref', 'clone', 'into', 'len', 'is_empty', 'get') and k == 'back_transfers':
            return self.m_Vec(n, v, v.x, a, e) if n in ('len', 'is_empty', 'get') else v
        return NotImplemented

    def entry_api(self, n, v, a):
        m, key, kt = v.x[:3]
        if n == 'and_modify':
            had = self.coll_has(m, kt)
            if self.branch(had):
                cur = self.map_get(m, kt).v
                loc = self.alloc(cur)
                self.call_clo(a[0], [Ref(loc)])
                self.coll_put(m, kt, self.val(self.store[loc]), True)
            return v
        if n in ('or_default', 'or_insert', 'or_insert_with'):
            had = self.coll_has(m, kt)
            if m.kind == 'MapStorageMapper':
                self.coll_put(m, kt, UNIT, had)
                return v
            if not self.branch(had):
                if n == 'or_insert':
                    d = self.val(a[0])
                elif n == 'or_insert_with':
                    d = self.val(self.call_clo(a[0], []))
                else:
                    d = self.default_of(m.ty[1])
                self.coll_put(m, kt, d, False)
            return v
        if n == 'get':
            if m.kind == 'MapStorageMapper':
                return v.x[3]
            return self.map_get(m, kt).v
        raise ToolError('entry().' + n)

    def default_of(self, ty):
        n, g = self.tyname(ty)
        if n in INT_KINDS:
            return Int(0, n)
        if n == 'bool':
            return Bool(False)
        st = self.prog.struct(n, self.crate)
        if st:
            fn = self.prog.impl(self.crate, n, 'default')
            if fn:
                return self.call_fn(fn, [])
            return Struct(n, {f: self.default_of(t) for f, t in st[1]})
        raise ToolError('default of ' + str(n))

    def const_leaf(self, name, kind):
        if kind in OPQ_KINDS:
            return Opq(self.leaf(name, (), U), kind)
        t = self.leaf(name, (), I)
        self.int_range(t, kind)
        return Int(t, kind)

    def chain_api(self, n, w):
        if n == 'get_block_timestamp_ms':
            t = self.const_leaf('block_timestamp_ms', 'u64')
            self.fact(t.t < 2 ** 53)
            return t
        if n in ('get_block_timestamp', 'get_block_timestamp_seconds'):
            t = self.const_leaf('block_timestamp', 'u64')
            self.fact(t.t < 2 ** 53)
            return t
        if n in ('get_block_nonce', 'get_block_epoch', 'get_block_round'):
            return self.const_leaf(n[4:], 'u64')
        if n in ('get_caller', 'get_sc_address', 'get_owner_address'):
            return self.const_leaf(n[4:], 'ManagedAddress')
        if n == 'check_caller_is_owner':
            self.event('check_owner')
            self.require(eq(self.const_leaf('caller', 'ManagedAddress').t,
                            self.const_leaf('owner_address', 'ManagedAddress').t), 'owner only')
            return UNIT
        if n == 'get_sc_balance':
            return Int(self.balance(w[0].t, w[1].t), 'BigUint')
        if n in ('get_shard_of_address',):
            t = self.leaf('shard_of', (w[0].t,), I)
            self.int_range(t, 'u32')
            return Int(t, 'u32')
        if n in ('is_builtin_function', 'is_smart_contract'):
            return Bool(self.leaf(n, (w[0].t,), z3.BoolSort()))
        if n == 'get_esdt_token_data':
            return Marker('token_data', (w[0].t, w[1].t, w[2].t))
        if n == 'get_esdt_balance':
            return Int(self.leaf('esdt_balance_of', (w[0].t, w[1].t, w[2].t), I), 'BigUint')
        raise ToolError('blockchain().' + n)

    def balance(self, tok, nonce):
        ep = self.ghost.get('balep', 0)
        t = self.leaf('balance' + (f'@{ep}@' if ep else ''), (tok, nonce), I)
        self.fact(t >= 0)
        for (tk, nn, d) in self.bal:
            t = add(t, ite(And(eq(tk, tok), eq(nn, nonce)), d, 0))
        return t

    def bal_change(self, tok, nonce, d):
        self.bal = self.bal + ((tok, nonce, d),)

    def havoc_balance(self):
        self.ghost['balep'] = self.new_epoch()
        self.bal = ()

    # ------------------------------------------------------------ call value
    def cv_vec(self):
        v = self.fresh_vec({'k': 'path', 'p': [['EgldOrEsdtTokenPayment', []]]}, 'cv')
        return v

    def call_value_api(self, n, w):
        v = self.cv_vec()
        ln = v.base.len
        if n in ('egld_or_single_fungible_esdt', 'egld_or_single_esdt', 'single_esdt', 'single_fungible_esdt'):
            p = self.fresh_payment('cv.at', (0,))
            self.event('call_value', n=n)
            self.assume(le(ln, 1))
            tok, non, am = p.f['token_identifier'].t, p.f['token_nonce'].t, p.f['amount'].t
            self.fact(z(Or(Not(eq(ln, 0)), And(eq(tok, EGLD), eq(non, 0), eq(am, 0)))))
            if n.startswith('single'):
                self.require(And(eq(ln, 1), Not(eq(tok, EGLD))), 'incorrect number of ESDT transfers')
            self.fact(z(Or(Not(eq(tok, EGLD)), eq(non, 0))))
            if 'fungible' in n:
                self.require(eq(non, 0), 'fungible ESDT token expected')
                r = [p.f['token_identifier'], p.f['amount']]
                return Tup(r)
            return p
        if n in ('egld', 'egld_value', 'egld_direct_non_strict'):
            p = self.fresh_payment('cv.at', (0,))
            self.event('call_value', n=n)
            am = p.f['amount']
            one = And(eq(ln, 1), eq(p.f['token_identifier'].t, EGLD))
            self.assume(Or(eq(ln, 0), one))        # an EGLD-only endpoint rejects token transfers
            return Int(ite(eq(ln, 0), 0, am.t), 'BigUint')
        if n in ('all_transfers', 'all', 'any_payment'):
            self.event('call_value', n=n)
            return v
        if n == 'all_esdt_transfers':
            return v
        raise ToolError('call_value().' + n)

    def send_api(self, n, w):
        if n == 'esdt_nft_create' or n == 'esdt_nft_create_compact':
            t = self.fresh_int('nft_nonce', 'u64')
            self.fact(t >= 1)
            self.event('nft_create', token=w[0].t, amount=w[1].t, attrs=w[-2] if len(w) > 2 else None, args=w, nonce=t)
            return Int(t, 'u64')
        if n == 'esdt_local_burn':
            self.event('burn', token=w[0].t, nonce=w[1].t, amount=w[2].t)
            self.bal_change(w[0].t, w[1].t, sub(0, w[2].t))
            return UNIT
        if n == 'nft_update_attributes':
            self.event('nft_update_attributes', token=w[0].t, nonce=w[1].t, attrs=w[2])
            return UNIT
        if n in ('direct', 'direct_esdt', 'direct_egld', 'direct_non_zero'):
            if n == 'direct_egld':
                self.do_transfer(w[0].t, EGLD, 0, w[1].t, True)
            else:
                self.do_transfer(w[0].t, w[1].t, w[2].t, w[3].t, n == 'direct_non_zero')
            return UNIT
        raise ToolError('send().' + n)

    # ---------------------------------------------------------- transactions
    TX_SET = ('to', 'from', 'gas', 'with_gas_limit', 'payment', 'egld', 'esdt', 'egld_or_single_esdt', 'single_esdt',
              'multi_esdt', 'returns', 'raw_call', 'arguments_raw', 'argument', 'code_metadata', 'from_source', 'typed',
              'raw_deploy', 'raw_upgrade', 'code', 'callback', 'with_result', 'original_result')
    TX_END = ('sync_call', 'sync_call_readonly', 'sync_call_same_context', 'transfer', 'transfer_if_not_empty',
              'transfer_execute', 'upgrade_async_call_and_exit', 'async_call_and_exit', 'transfer_nft', 'register_promise',
              'sync_call_fallible')

    def m_Tx(self, n, recv, v, a, e):
        d = dict(v.d)
        w = [self.val(x) for x in a]
        if n == 'to':
            d['to'] = w[0].t if isinstance(w[0], Opq) else w[0]
        elif n == 'typed':
            d['proxy'] = w[0].n if isinstance(w[0], Marker) else str(w[0])
        elif n == 'from_source':
            d['source'] = w[0].t
        elif n == 'payment':
            d['pay'] = d.get('pay', ()) + (self.as_payment(w[0]),)
        elif n == 'egld':
            d['pay'] = d.get('pay', ()) + ((EGLD, 0, w[0].t),)
        elif n in ('egld_or_single_esdt', 'single_esdt'):
            d['pay'] = d.get('pay', ()) + ((w[0].t, w[1].t, w[2].t),)
        elif n == 'esdt':
            if isinstance(w[0], Tup):
                d['pay'] = d.get('pay', ()) + (tuple(x.t for x in w[0].e),)
            else:
                d['pay'] = d.get('pay', ()) + (self.as_payment(w[0]),)
        elif n == 'raw_call':
            d['method'] = 'raw'; d['endpoint'] = w[0].t; d['args'] = ()
        elif n in ('arguments_raw', 'argument'):
            d['args'] = d.get('args', ()) + (w[0],)
        elif n == 'returns':
            d['ret'] = d.get('ret', ()) + (w[0].n if isinstance(w[0], Marker) else repr(w[0]),)
        elif n in self.TX_SET:
            d[n] = w[0] if w else True
        elif n in self.TX_END:
            return self.tx_end(n, d)
        elif 'proxy' in d:
            d['method'] = n
            d['args'] = tuple(w)
        else:
            return NotImplemented
        return Tx(d)

    def as_payment(self, p):
        if isinstance(p, Struct):
            return tuple(p.f[k].t for k in PAYMENT_FIELDS)
        if isinstance(p, Vec):
            return ('vec', p, None)
        if isinstance(p, Tup):
            return tuple(x.t for x in p.e)
        raise ToolError(f'payment {p!r}')

    def do_transfer(self, to, tok, nonce, amount, if_nonempty, **kw):
        bal = self.balance(tok, nonce)
        self.require(ge(bal, amount), 'insufficient funds')
        self.event('transfer', to=to, token=tok, nonce=nonce, amount=amount, **kw)
        self.bal_change(tok, nonce, sub(0, amount))

    def tx_end(self, n, d):
        if n in ('transfer', 'transfer_if_not_empty', 'transfer_execute') and 'method' not in d:
            for p in d.get('pay', ()):
                if isvec(p):
                    self.event('transfer_vec', to=d['to'], vec=p[1])
                    self.havoc_balance()
                else:
                    self.do_transfer(d['to'], p[0], p[1], p[2], n != 'transfer')
            return UNIT
        d['end'] = n
        return self.external_call(d)

    def proxy_ret(self, proxy, method):
        if proxy and proxy[0] == '@':
            for f in self.prog.fns.get((proxy[1:], method), ()):
                if f.body is None:
                    return f.sig['r']
        for (c, s, nm), l in self.prog.impls.items():
            if c == 'proxies' and nm == method and (s == proxy or s == proxy + 'Methods'):
                r = l[0].sig['r']
                g = r['p'][-1][1]
                return g[-1]
        return None

    def external_call(self, d):
        for p in d.get('pay', ()):
            if not isvec(p):
                self.require(ge(self.balance(p[0], p[1]), p[2]), 'insufficient funds')
        self.event('call', **d)
        for p in d.get('pay', ()):
            if isvec(p):
                self.havoc_balance()
            else:
                self.bal_change(p[0], p[1], sub(0, p[2]))
        if self.cfg.external:
            r = self.cfg.external(self, d)
            if r is not NotImplemented:
                return r
        return self.default_external(d)

    def default_external(self, d):
        n = d['end']
        if n not in ('sync_call_readonly',):
            self.havoc_all(True)
            self.havoc_balance()
        if n in ('upgrade_async_call_and_exit', 'async_call_and_exit'):
            return UNIT
        name = self.fresh_name(f"call:{d.get('method')}")
        rets = d.get('ret', ())
        out = []
        for r in rets:
            if r == 'ReturnsResult' or r.startswith('ReturnsResult'):
                ty = self.proxy_ret(d.get('proxy'), d.get('method'))
                if ty is None:
                    raise ToolError(f"result type of {d.get('proxy')}.{d.get('method')}")
                ty = self.cfg_ret_ty(d, ty)
                out.append(self.fresh(ty, name + '.res'))
            elif r.startswith('ReturnsBackTransfers'):
                out.append(Marker('back_transfers', self.fresh_vec(
                    {'k': 'path', 'p': [['EgldOrEsdtTokenPayment', []]]}, name + '.back')))
            elif r.startswith('ReturnsNewManagedAddress'):
                out.append(Opq(self.leaf(name + '.addr', (), U), 'ManagedAddress'))
            elif r.startswith('ReturnsRawResult'):
                out.append(self.fresh_vec({'k': 'path', 'p': [['ManagedBuffer', []]]}, name + '.raw'))
            else:
                raise ToolError('returns ' + r)
        if not out:
            return UNIT
        return out[0] if len(out) == 1 else Tup(out)

    def cfg_ret_ty(self, d, ty):
        return ty


def ident(keys):
    return '[' + ','.join(str(k) for k in keys) + ']'


def isvec(p):
    return isinstance(p[0], str)
