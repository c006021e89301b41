"""Contracts of the controller's user entry points.

Each entry point is executed symbolically from its source; calls to liquidity
pools are replaced by the contracts the pools are verified against (P02, P03,
P06, P07) and observed: what is sent, which position is passed, and in which
state of the account.  Loops over payments are cut at an arbitrary iteration;
the running list of debts is tied to storage by an explicit loop invariant.
"""
from terms import *
from values import *
from engine import *
from contracts import *
import ctl
from ctl import CR, TOK, px, pxdec, mi, path_ty, usdpx

APOS = path_ty('AccountPosition')
DEPOSIT, BORROW = 1, 2
BOOL, U64, BIG, ADDR = path_ty('bool'), path_ty('u64'), path_ty('BigUint'), path_ty('ManagedAddress')
FIELDS = ('liquidation_threshold_bps', 'liquidation_bonus_bps', 'liquidation_fees_bps', 'loan_to_value_bps')
IDENT = ('position_type', 'asset_id', 'account_nonce')


def B(ex, name, keys=()):
    return ex.leaf(name, keys, z3.BoolSort())


def positions(nonce, side):
    return Mapper('MapMapper', 'positions', (nonce, side), [path_ty(TOK), APOS])


def stored(ex, nonce, side, tok):
    return ex.map_get(positions(nonce, side), (tok,))


def cfg_of(ex, tok):
    return ex.read_cell('asset_config', (tok,), path_ty('AssetConfig'))


def raw(v):
    return v.raw if isinstance(v, Dec) else v.tag if isinstance(v, Enum) else v.t


def eqb(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a == b
    return z(a) == z(b)


def veq(a, b):
    if isinstance(a, Opt) and isinstance(b, Opt):
        inner = True if a.v is None or b.v is None else veq(a.v, b.v)
        return And(eqb(a.some, b.some), Implies(a.some, inner))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return And(*[veq(a.f[k], b.f[k]) for k in a.f if not isinstance(a.f[k], SelfV)])
    return And(*[eqb(x, y) if (is_c(x) and isinstance(x, bool)) or (not is_c(x) and z3.is_bool(x)) else eq(x, y)
                 for (_, x), (_, y) in zip(leaves(a), leaves(b))])


def amount_of(p, index):
    return mulh(27, p.f['scaled_amount_ray'].raw, index)


def value(ex, p, side, unsafe):
    """EGLD value (RAY) of a stored position"""
    tok = p.f['asset_id'].t
    return mulh(27, amount_of(p, mi(ex, tok, 'supply' if side == DEPOSIT else 'borrow')), rs(px(ex, tok, unsafe), 18, 27))


def over(ex, vec, f, ctx=None):
    """SUM f(element) over a sequence value (concrete tail and point updates included)"""
    r = 0
    rem = getattr(vec.base, 'removed', None)
    if rem is not None:
        r = sub(over(ex, rem[0], f, ctx), f(rem[1]))
        for j, w in vec.ups:
            r = add(r, sub(f(w), f(vec.base.elem(ex, j))))
    elif vec.base is not None:
        i = z3.Int('dummy.i')
        r = ex.sum_term(f(vec.base.elem(ex, i)), i, 0, vec.base.len, ex.loopidx if ctx is None else ctx)
        for j, w in vec.ups:
            r = add(r, sub(f(w), f(vec.base.elem(ex, j))))
    for w in vec.items:
        r = add(r, f(w))
    return r


def over_map(ex, nonce, side, f):
    """SUM f(position) over the stored positions of one side of an account"""
    m = positions(nonce, side)
    i = z3.Int('dummy.i')
    cs = map_cases(ex, m, ex.keyterms([ex.coll_key_at(m, i, path_ty(TOK))]))
    t = 0
    for g, o in reversed(cs):
        t = ite(g, 0 if o.v is None else f(o.v), t)
    return ex.sum_term(t, i, 0, ex.coll_len(m), ex.loopidx)


def debt(ex, nonce, unsafe):
    return over_map(ex, nonce, BORROW, lambda p: value(ex, p, BORROW, unsafe))


def collateral(ex, nonce, unsafe, field=None):
    def f(p):
        v = value(ex, p, DEPOSIT, unsafe)
        return v if field is None else mulh(27, v, rs(p.f[field].raw, 4, 27))
    return over_map(ex, nonce, DEPOSIT, f)


def health_ok(ex, nonce, unsafe, floor=RAY):
    d = debt(ex, nonce, unsafe)
    w = collateral(ex, nonce, unsafe, 'liquidation_threshold_bps')
    return Or(eq(ex.coll_len(positions(nonce, BORROW)), 0), eq(d, 0), ge(divh(27, w, d), floor))


def attr_inv(v):
    """an isolated account names its isolated token"""
    return Implies(v.f['is_isolated_position'].t, v.f['isolated_token'].some)


def storage_hook(ex, name, keys, v):
    """storage invariants of the controller: a position is stored under its own key"""
    if isinstance(v, Struct) and v.n == 'AccountPosition' and name.startswith('st:positions') and len(keys) == 3:
        v.f['asset_id'] = Opq(keys[2], v.f['asset_id'].k)
        v.f['position_type'] = Enum('AccountPositionType', keys[1])
        for k in FIELDS:
            ex.fact(z(le(v.f[k].raw, BPS)))
    if isinstance(v, Struct) and v.n == 'AccountAttributes' and (name.startswith('st:account_attributes') or name.startswith('nftattr')):
        ex.fact(z(attr_inv(v)))
    if isinstance(v, Struct) and v.n == 'AssetConfig' and name.startswith('st:asset_config'):
        for k in FIELDS:
            ex.fact(z(le(v.f[k].raw, BPS)))


POSARG = {'supply': 0, 'borrow': 2, 'withdraw': 2, 'repay': 1, 'create_strategy': 0, 'seize_position': 0}
PRICEARG = {'supply': 1, 'borrow': 3, 'withdraw': 5, 'repay': 2, 'create_strategy': 3, 'seize_position': 1, 'flash_loan': 6,
            'update_indexes': 0, 'claim_revenue': 0, 'add_reward': 0}


class Call:
    pass


class User:
    """specification state of one transaction on one account"""

    def __init__(s, ck, ex, label):
        s.ck, s.ex, s.label = ck, ex, label
        s.caller = ex.const_leaf('caller', 'ManagedAddress').t
        s.unsafe = True
        s.nonce = None
        s.started = False
        s.limit = None
        s.on_event = None
        s.paused = B(ex, 'st:pause_module:paused')
        s.loan = B(ex, 'st:flash_loan_ongoing')

    def iso_mark(s, ex):
        """isolated debt counter of the account before the current payment"""
        v = s.attr0.f['isolated_token'].v
        if v is not None:
            s.iso_start = isolated_debt(ex, v.t)

    # ------------------------------------------------------------ pools
    def external(s, ex, d):
        m = d.get('method')
        if d.get('proxy') != 'LiquidityPoolProxy' or m not in POSARG:
            if d.get('proxy') == 'LiquidityPoolProxy':
                s.pool_call(ex, d, m)
            return NotImplemented
        c = Call()
        c.method, c.d, c.to = m, d, d['to']
        c.pos = d['args'][POSARG[m]]
        c.tok = c.pos.f['asset_id'].t
        c.side = cv(c.pos.f['position_type'].tag)
        s.pool_call(ex, d, m, c)
        n = ex.fresh_name('call:' + m)
        r = ex.leaf(n + '.scaled', (), I)
        ex.fact(r >= 0)
        old = c.pos.f['scaled_amount_ray'].raw
        if m in ('supply', 'borrow', 'create_strategy'):
            ex.fact(z(ge(r, old)))
        elif m in ('repay', 'withdraw'):
            ex.fact(z(le(r, old)))
        else:
            r = 0
        c.res = Struct('AccountPosition', dict(c.pos.f, scaled_amount_ray=Dec(r, 27)))
        ex.havoc_all(True)
        ex.havoc_balance()
        s.after_call(ex, c)
        if m == 'withdraw':
            back = ex.fresh_vec({'k': 'path', 'p': [['EgldOrEsdtTokenPayment', []]]}, n + '.back')
            return s.shape(d, c.res, Marker('back_transfers', back))
        if m == 'create_strategy':
            back = ex.fresh_vec({'k': 'path', 'p': [['EgldOrEsdtTokenPayment', []]]}, n + '.back')
            return s.shape(d, c.res, Marker('back_transfers', back))
        return s.shape(d, c.res, None)

    def shape(s, d, res, back):
        out = []
        for r in d.get('ret', ()):
            out.append(back if r.startswith('ReturnsBackTransfers') else res)
        if not out:
            return UNIT
        return out[0] if len(out) == 1 else Tup(out)

    def pool_call(s, ex, d, m, c=None):
        """what every call into a pool must look like"""
        O = ex.oblige
        if c is None:
            if m in PRICEARG:
                pass
            return
        t = c.tok
        O(f'pool call: {m} goes to the pool of the asset', And(eq(c.to, ex.read_cell('pools_map', (t,), ADDR).t)))
        pr = d['args'][PRICEARG[m]]
        O(f'pool call: {m} is given the resolved price', And(eq(pr.raw, px(ex, t, s.unsafe)), eq(pr.scale, 18)))
        st = stored(ex, s.nonce, c.side, t)
        if m in ('repay', 'withdraw', 'seize_position'):
            O(f'pool call: {m} is given the stored position', And(st.some, veq(c.pos, st.v) if st.v is not None else False))
            O(f'pool call: {m} side', eq(c.side, BORROW if m == 'repay' else DEPOSIT) if m != 'seize_position' else Or(eq(c.side, BORROW), eq(c.side, DEPOSIT)))
        else:
            O(f'pool call: {m} side', eq(c.side, DEPOSIT if m == 'supply' else BORROW))
            c.known, c.st = st.some, st.v
        h = getattr(s, 'on_' + m, None)
        if h and not ex.quiet:
            h(ex, c)

    def after_call(s, ex, c):
        """the position the pool returned is what storage must hold afterwards"""
        ex.ghost['calls'] = ex.ghost.get('calls', ()) + (c,)
        h = getattr(s, 'done_' + c.method, None)
        if h and not ex.quiet:
            h(ex, c)

    def settled(s, ex, tag=''):
        """every position returned by a pool since the beginning of the block is stored; nothing else is"""
        calls = ex.ghost.get('calls', ())
        O = ex.oblige
        for k, c in enumerate(calls):
            if any(same(c.tok, b.tok) and same(c.side, b.side) for b in calls[k + 1:]):
                continue
            st = stored(ex, s.nonce, c.side, c.tok)
            zero = eq(c.res.f['scaled_amount_ray'].raw, 0)
            okv = And(st.some, veq(st.v, c.res) if st.v is not None else False)
            if c.method in ('repay', 'withdraw'):
                O(f'positions: result of {c.method} stored, removed when empty', Or(And(zero, Not(st.some)), And(Not(zero), okv)))
            elif c.method == 'seize_position':
                pass
            else:
                O(f'positions: result of {c.method} stored', okv)
        for e in ex.trace:
            if e['kind'] == 'write' and e['cell'] == 'positions':
                O('positions: no other position is written', len(e['keys']) == 3 and
                  And(eq(e['keys'][0], s.nonce), Or(*[And(eq(e['keys'][1], c.side), eq(e['keys'][2], c.tok)) for c in calls])))

    def covered(s, ex, count):
        """one loop over the payments hands every one of them to a pool"""
        mine = lambda tr: [e for e in tr if e['kind'] == 'call' and e.get('method') in POSARG]
        loops = [e for e in ex.trace if e['kind'] == 'loop' and any(mine(t) for t, _, _ in e['paths'])]
        ok = len(loops) == 1 and not mine(ex.trace) and all(len(mine(t)) == 1 for t, _, k in loops[0]['paths'] if k in ('ok', 'continue'))
        ex.oblige(f'{s.each}: every payment reaches its pool, once', ok and eq(sub(loops[0]['hi'], loops[0]['lo']), count))

    def borrow_rules(s, ex, c, amount):
        """what must hold when debt is taken on"""
        O = ex.oblige
        attr = s.attributes(ex)
        R = Rules(ex, c.tok, attr)
        D = pxdec(ex, c.tok)
        p = c.pos.f
        O('borrow: stored position extended, or a new one opened', Or(
            And(c.known, veq(c.pos, c.st)),
            And(Not(c.known), eq(p['scaled_amount_ray'].raw, 0), eq(p['account_nonce'].t, s.nonce), *[eq(p[k].raw, R.f[k]) for k in FIELDS])))
        O('borrow rules: asset is borrowable', R.can_borrow)
        O('borrow rules: e-mode category exists, is live and lists the asset', R.emode_ok)
        O('borrow rules: isolated asset outside e-mode', R.isolation_ok)
        iso = attr.f['is_isolated_position'].t
        O('borrow rules: isolated accounts borrow only assets allowed in isolation', Implies(iso, R.asset.f['isolation_borrow_enabled'].t))
        n = s.debts(ex)
        O('borrow rules: siloed asset is the only debt', Implies(R.siloed, Or(eq(n, 0), And(eq(n, 1), c.known))))
        t = z3.Const('sk.token', U)
        other = s.is_debt(ex, t)
        O('borrow rules: no debt joins a siloed one', Implies(And(eq(n, 1), other, cfg_of(ex, t).f['is_siloed_borrowing'].t), eq(c.tok, t)))
        cap = R.asset.f['borrow_cap_wad']
        total = rh(mulh(27, pool_total(ex, 'borrowed', c.tok), mi(ex, c.tok, 'borrow')), 27, D)
        O('cap: borrow stays within the borrow cap', Implies(cap.some, le(add(total, amount), cap.v.t)))
        # isolation accounting
        tok = attr.f['isolated_token'].v.t if attr.f['isolated_token'].v is not None else None
        if tok is None:
            return
        before = s.iso0(ex, tok)
        usd = usd_wad(ex, egld_wad(amount, D, px(ex, c.tok, s.unsafe)))
        now = isolated_debt(ex, tok).raw
        ceil = cfg_of(ex, tok).f['isolation_debt_ceiling_usd_wad'].raw
        O('isolation: isolated debt rises by the USD value borrowed', Implies(iso, eq(now, add(before, usd))))
        O('isolation: isolated debt stays within the ceiling', Implies(iso, le(now, ceil)))
        O('isolation: no other debt counter moves', And(*[And(iso, eq(e['keys'][0], tok)) for e in ex.trace
                                                            if e['kind'] == 'write' and e['cell'] == 'isolated_asset_debt_usd']))

    def debts(s, ex):
        return ex.coll_len(positions(s.nonce, BORROW))

    def is_debt(s, ex, t):
        return ex.coll_has(positions(s.nonce, BORROW), (t,))

    def iso0(s, ex, tok):
        return s.iso_start.raw

    # ------------------------------------------------------------ guards
    def guards(s, ex):
        ex.oblige('guard: refused while paused', Not(s.paused))
        ex.oblige('guard: refused during a flash loan', Not(s.loan))

    def frame(s, ex, allowed):
        for c in sorted(set(ex.storage)):
            if not c.startswith('ext:') and ex.storage[c]:
                ex.oblige(f'frame: {c} not written', c in allowed)
        for e in ex.trace:
            if e['kind'] == 'loop':
                for tr, _, _ in e['paths']:
                    for w in tr:
                        if w['kind'] == 'write':
                            ex.oblige(f"frame: {w['cell']} not written", w['cell'] in allowed)


def config(ck, hold, use=ctl.CORE, **kw):
    cfg = ctl.config(ck, use)
    cfg.fresh_hook = storage_hook
    cfg.max_paths = 20000
    cfg.external = lambda ex, d: hold[0].external(ex, d)
    for k, v in kw.items():
        setattr(cfg, k, v)
    return cfg


# ------------------------------------------------------------------ account NFT
def account_nft(s, ex, returned):
    """the account NFT is the single payment; its attributes are those on record"""
    ln = ex.cv_vec().base.len
    p = ex.fresh_payment('cv.at', (0,))
    s.nft = p
    s.nonce = p.f['token_nonce'].t
    return ln


def nft_checks(s, ex):
    O = ex.oblige
    p = s.nft
    tok = ex.leaf('nft:account', (), U)
    O('account: the payment is the account NFT', eq(p.f['token_identifier'].t, tok))
    O('account: the account is active', s.active0)
    at = ex.fresh(path_ty('AccountAttributes'), 'nftattr', (ex.const_leaf('sc_address', 'ManagedAddress').t, p.f['token_identifier'].t, s.nonce))
    O('account: attributes of the NFT are those on record', veq(at, s.attr0))


def returned(s, ex, times=1):
    tr = [e for e in ex.trace if e['kind'] == 'transfer' and True]
    ok = [And(eq(e['token'], s.nft.f['token_identifier'].t), eq(e['nonce'], s.nonce), eq(e['to'], s.caller),
              eq(e['amount'], s.nft.f['amount'].t)) for e in tr]
    return And(len(tr) == 1, *ok)


# ---------------------------------------------------------------------- borrow
class Borrow(User):
    each = 'borrow'

    def start(s, ex):
        ex.ghost['true debt'] = debt(ex, s.nonce, False)
        s.ltv0 = collateral(ex, s.nonce, False, 'loan_to_value_bps')

    def on_borrow(s, ex, c):
        O = ex.oblige
        a = c.d['args'][1]
        D = pxdec(ex, c.tok)
        O('borrow: amount requested', And(eq(a.raw, s.amount), eq(a.scale, D), gt(a.raw, 0), eq(c.tok, s.token)))
        O('borrow: paid to the caller', eq(c.d['args'][0].t, s.caller))
        v = mulh(27, rs(a.raw, a.scale, 27), rs(px(ex, c.tok, False), 18, 27))
        O('ltv: debt after the borrow is covered by LTV-weighted collateral', le(add(ex.ghost['true debt'], v), s.ltv0))
        s.borrow_rules(ex, c, a.raw)

    def attributes(s, ex):
        return s.attr0

    def done_borrow(s, ex, c):
        old = ite(c.known, value(ex, c.st, BORROW, False), 0) if c.st is not None else 0
        ex.ghost['true debt'] = add(sub(ex.ghost['true debt'], old), value(ex, c.res, BORROW, False))


def debt_lists(ex, info):
    """local lists of positions carried by the loop"""
    out = []
    for loc, v in info['hav'].items():
        if isinstance(v, Vec) and v.base is not None:
            try:
                e = v.base.elem(ex, z3.Int('dummy.p'))
            except Exception:
                continue
            if isinstance(e, Struct) and e.n == 'AccountPosition':
                out.append(loc)
    return out


def cases(conds):
    """[(condition, x)] of an if / else-if chain, as mutually exclusive cases"""
    out, before = [], []
    for c, x in conds:
        g = And(*before, c)
        if not (is_c(cv(g)) and not cv(g)):
            out.append((g, x))
        if is_c(cv(c)) and cv(c):
            break
        before.append(Not(c))
    return out


def every(cs, f):
    return And(*[Implies(c, f(x)) for c, x in cs])


def vec_cases(ex, vec, j):
    """element j of a sequence value: cases over the concrete tail and point updates"""
    n = 0 if vec.base is None else vec.base.len
    out = [(eqb(j, add(n, k)), w) for k, w in enumerate(vec.items)]
    out += [(eqb(j, i), w) for i, w in reversed(vec.ups)]
    if vec.base is not None:
        out.append((True, vec.base.elem(ex, j)))
    return cases(out)


def map_cases(ex, m, kt):
    """stored entry of a MapMapper: cases over the writes of this block"""
    out = []
    for k, w in reversed(ex.storage.get(m.name, ())):
        if isinstance(k[0], str):
            out.append((ex.keq(k[1:], m.keys), Opt(False)))
        else:
            out.append((ex.keq(k, m.keys + kt), Opt(w is not None, w)))
    has = ex.leaf(ex.cell_base(m.name) + '.has', m.keys + kt, z3.BoolSort())
    out.append((True, Opt(has, ex.fresh(m.ty[1], ex.cell_base(m.name), m.keys + kt))))
    return cases(out)


def mapv_cases(ex, m, t):
    """entry of an in-memory map"""
    out = [(eqb(k.t, t), Opt(True, w)) for k, w in reversed(m.writes)]
    if m.base is None:
        out.append((True, Opt(False)))
    else:
        b = MapV(m.base)
        has = ex.m_MapV('contains', None, b, [Opq(t, TOK)], None).t
        out.append((True, Opt(has, m.base.elem(ex, (t,)))))
    return cases(out)


def in_state(ex, snap, f):
    """evaluate f in the storage of another state"""
    a, b = ex.storage, ex.epoch
    ex.storage, ex.epoch = dict(snap['storage']), dict(snap['epoch'])
    r = f()
    ex.storage, ex.epoch = a, b
    return r


def located(ex, m, t):
    """a key of a stored collection is enumerated at one of its positions (collection axiom)"""
    b = ex.cell_base(m.name)
    pos = ex.leaf(b + '.posof', m.keys + (t,), I)
    return Implies(ex.leaf(b + '.has', m.keys + (t,), z3.BoolSort()), And(
        ge(pos, 0), lt(pos, ex.leaf(b + '.len', m.keys, I)), eq(ex.leaf(b + '.keyat', m.keys + (pos,), U), t)))


class DebtList:
    """invariant of the running list of debts: it lists exactly the stored debt positions"""

    def __init__(s, u, ex, info):
        s.u, s.ex, s.info = u, ex, info
        s.vecs = debt_lists(ex, info)
        s.maps = [loc for loc, v in info['hav'].items() if isinstance(v, MapV)]
        s.bulk = gt(info['hi'], 1)
        s.toks = [z3.Const('sk.token', U)]

    def vec(s, loc):
        return s.ex.val(s.ex.store[loc])

    def total(s, loc):
        S = over(s.ex, s.vec(loc), lambda p: value(s.ex, p, BORROW, False))
        return ge(S, s.ex.ghost['true debt'])

    def length(s, loc):
        ex, v = s.ex, s.vec(loc)
        return eq(ex.vec_len(v), ex.coll_len(positions(s.u.nonce, BORROW)))

    def inr(s, loc, j):
        return And(ge(j, 0), lt(j, s.ex.vec_len(s.vec(loc))))

    def element(s, loc, j):
        """every entry is a debt position and equals the stored one"""
        ex = s.ex
        m = positions(s.u.nonce, BORROW)
        f = lambda e: And(eq(e.f['position_type'].tag, BORROW),
                          every(map_cases(ex, m, (e.f['asset_id'].t,)), lambda o: And(o.some, veq(e, o.v) if o.v is not None else False)))
        return Implies(s.inr(loc, j), every(vec_cases(ex, s.vec(loc), j), f))

    def inmap(s, loc, j):
        """the index map gives the place of every entry"""
        ex = s.ex
        return Implies(s.inr(loc, j), every(vec_cases(ex, s.vec(loc), j), lambda e: And(*[
            every(mapv_cases(ex, ex.val(ex.store[m]), e.f['asset_id'].t),
                  lambda o: And(o.some, eq(o.v.t, add(j, s.off)) if o.v is not None else False)) for m in s.maps])))

    off = 1

    def known(s, loc, t):
        """the index map lists exactly the tokens with a stored debt"""
        ex = s.ex
        return every(mapv_cases(ex, ex.val(ex.store[loc]), t),
                     lambda a: every(map_cases(ex, positions(s.u.nonce, BORROW), (t,)), lambda b: eqb(a.some, b.some)))

    def check(s, name, last=False):
        O = s.ex.oblige
        j = z3.Int('sk.j')
        for v in s.vecs:
            O(f'list: debt not understated {name}', Or(last, s.total(v)))
            O(f'list: one entry per debt position {name}', Or(last, s.length(v)))
            O(f'list: entries equal the stored positions {name}', Or(last, s.element(v, j)))
            for m in s.maps:
                O(f'list: index map gives the place of every entry {name}', Or(last, Not(s.bulk), s.inmap(v, j)))
        for m in s.maps:
            O(f'list: index map lists the stored positions {name}', Or(last, Not(s.bulk), s.known(m, s.toks[0])))

    def assume(s, tok):
        ex = s.ex
        j = z3.Int('dummy.j')
        for v in s.vecs:
            ex.fact(z(s.total(v)))
            ex.fact(z(s.length(v)))
            lo, hi = 0, ex.vec_len(s.vec(v))
            ex.qf.append((j, z3.IntVal(0), z(hi), z(s.element(v, j)), ex.loopidx))
            m = positions(s.u.nonce, BORROW)
            ex.qf.append((j, z3.IntVal(0), z(hi), z(every(vec_cases(ex, s.vec(v), j), lambda e: located(ex, m, e.f['asset_id'].t))), ex.loopidx))
        for t in s.toks + [tok]:
            ex.fact(z(located(ex, positions(s.u.nonce, BORROW), t)))
        for v in s.vecs:
            lo, hi = 0, ex.vec_len(s.vec(v))
            if s.maps:
                ex.qf.append((j, z3.IntVal(0), z(hi), z(Implies(s.bulk, s.inmap(v, j))), ex.loopidx))
        for m in s.maps:
            for t in s.toks + [tok]:
                ex.fact(z(Implies(s.bulk, s.known(m, t))))


def is_payment_loop(ex, it, idx):
    if it is None:
        return False
    x = ex.val(ex.iter_elem(it, idx))
    return isinstance(x, Struct) and x.n == 'EgldOrEsdtTokenPayment'


def borrow(ck):
    fn = ck.by_endpoint(CR, 'borrow')
    hold = [None]

    def entry(ex, info):
        s = hold[0]
        if s.started and is_payment_loop(ex, info['it'], info['idx']):
            DebtList(s, ex, info).check('at loop entry', ge(info['lo'], info['hi']))
            limit_entry(hold)(ex, info)

    def hook(ex, x, tag):
        s = hold[0]
        x = ex.val(x)
        if not (isinstance(x, Struct) and x.n == 'EgldOrEsdtTokenPayment') or not s.started:
            return None
        info = ex.cur_loop
        L = DebtList(s, ex, info)
        s.amount, s.token = x.f['amount'].t, x.f['token_identifier'].t
        ex.ghost['calls'] = ()
        s.iso_mark(ex)
        ex.fact(z(s.limit.size(ex, info, info['idx'])))
        for t in (s.token, z3.Const('sk.token', U)):
            ex.fact(z(s.limit.kept(ex, t)))
        if L.vecs:
            ex.ghost['true debt'] = ex.leaf('ghost.debt@L' + info['name'] + '@', (), I)
        L.assume(s.token)
        if not L.vecs:
            # the list is not extended: there may be only one payment, met in the state before the loop
            m = positions(s.nonce, BORROW)
            first = eq(info['idx'], info['lo'])
            for t in L.toks + [s.token]:
                now = ex.coll_has(m, (t,))
                was = in_state(ex, info['pre'], lambda: ex.coll_has(m, (t,)))
                ex.fact(z(in_state(ex, info['pre'], lambda: located(ex, m, t))))
                ex.fact(z(Implies(first, eqb(now, was))))
            now, was = ex.coll_len(m), in_state(ex, info['pre'], lambda: ex.coll_len(m))
            ex.fact(z(Implies(first, eq(now, was))))
        last = ge(add(info['idx'], 1), info['hi'])

        def end():
            L.check('preserved', last)
            if not L.vecs and ex.ghost['calls']:
                ex.oblige('list: kept up to date between payments', le(sub(info['hi'], info['lo']), 1))
            s.settled(ex)
            ex.oblige('limit: counted preserved', s.limit.size(ex, info, add(info['idx'], 1)))
            ex.oblige('limit: positions kept preserved', s.limit.kept(ex, z3.Const('sk.token', U)))
        return end

    def th(ex):
        s = hold[0] = Borrow(ck, ex, 'borrow')
        s.unsafe = False
        account_nft(s, ex, True)
        s.active0 = ex.coll_has(Mapper('UnorderedSetMapper', 'accounts', (), [U64]), (s.nonce,))
        s.attr0 = ex.read_cell('account_attributes', (s.nonce,), path_ty('AccountAttributes'))
        s.start(ex)
        s.limit = Limit(s, ex, BORROW)
        s.started = True
        v = ex.fresh(path_ty('MultiValueEncoded', path_ty('EgldOrEsdtTokenPayment')), 'arg.tokens')
        ck.endpoint_fn(ex, fn, [v])
        s.guards(ex)
        nft_checks(s, ex)
        ex.oblige('account: NFT returned to the caller', returned(s, ex))
        ex.oblige('limit: borrow positions within the limit', le(ex.coll_len(positions(s.nonce, BORROW)), limits(ex, BORROW)))
        s.covered(ex, v.base.len)
        s.frame(ex, ('positions', 'isolated_asset_debt_usd'))
    ck.run('borrow', CR, th, config(ck, hold, iter_hook=hook, loop_entry=entry, loop_exit=limit_exit(hold)))


# ------------------------------------------------------------ generic payment loops
def limit_entry(hold):
    def entry(ex, info):
        s = hold[0]
        if s.started and s.limit and is_payment_loop(ex, info['it'], info['idx']):
            ex.oblige('limit: counted at loop entry', s.limit.size(ex, info, info['lo']))
            ex.oblige('limit: positions kept at loop entry', s.limit.kept(ex, z3.Const('sk.token', U)))
    return entry


def limit_exit(hold):
    def ext(ex, info):
        s = hold[0]
        if s.started and s.limit and info['it'] is not None and is_payment_loop(ex, info['it'], info['idx']):
            ex.fact(z(s.limit.size(ex, info, info['hi'])))
    return ext


def payment_hook(hold, start=None):
    """cut a loop over payments at an arbitrary iteration: what happens to one payment"""
    def hook(ex, x, tag):
        s = hold[0]
        x = ex.val(x)
        if not (isinstance(x, Struct) and x.n == 'EgldOrEsdtTokenPayment') or not s.started or ex.ghost.get('inpay'):
            return None
        ex.ghost['inpay'] = True
        info = dict(ex.cur_loop)
        s.amount, s.token, s.pnonce = x.f['amount'].t, x.f['token_identifier'].t, x.f['token_nonce'].t
        ex.ghost['calls'] = ()
        s.iso_mark(ex)
        if start:
            start(s, ex, x)
        if s.limit:
            ex.fact(z(s.limit.size(ex, info, info['idx'])))
            for t in (s.token, z3.Const('sk.token', U)):
                ex.fact(z(s.limit.kept(ex, t)))

        def end():
            ex.ghost['inpay'] = False
            s.settled(ex)
            if s.limit:
                ex.oblige('limit: counted preserved', s.limit.size(ex, info, add(info['idx'], 1)))
                ex.oblige('limit: positions kept preserved', s.limit.kept(ex, z3.Const('sk.token', U)))
        return end
    return hook


def account_state(s, ex):
    s.active0 = ex.coll_has(Mapper('UnorderedSetMapper', 'accounts', (), [U64]), (s.nonce,))
    s.attr0 = ex.read_cell('account_attributes', (s.nonce,), path_ty('AccountAttributes'))


def active(ex, nonce):
    return ex.coll_has(Mapper('UnorderedSetMapper', 'accounts', (), [U64]), (nonce,))


# ------------------------------------------------- asset and e-mode configuration
U8 = path_ty('u8')


class Rules:
    """what an account with the given attributes may do with an asset"""

    def __init__(s, ex, tok, attr):
        c = s.asset = cfg_of(ex, tok)
        e = attr.f['e_mode_category_id'].t
        s.e = Not(eq(e, 0))
        cat = ex.map_get(Mapper('MapMapper', 'e_mode_category', (), [U8, path_ty('EModeCategory')]), (e,))
        ast = ex.map_get(Mapper('MapMapper', 'e_mode_assets', (e,), [path_ty(TOK), path_ty('EModeAssetConfig')]), (tok,))
        listed = ex.coll_has(Mapper('UnorderedSetMapper', 'asset_e_modes', (tok,), [U8]), (e,))
        s.emode_ok = Implies(s.e, And(cat.some, Not(cat.v.f['is_deprecated'].t), ast.some, listed))
        s.f = {k: ite(s.e, cat.v.f[k].raw, c.f[k].raw) for k in
               ('loan_to_value_bps', 'liquidation_threshold_bps', 'liquidation_bonus_bps')}
        s.f['liquidation_fees_bps'] = c.f['liquidation_fees_bps'].raw
        s.can_supply = ite_b(s.e, ast.v.f['is_collateralizable'].t, c.f['is_collateralizable'].t)
        s.can_borrow = ite_b(s.e, ast.v.f['is_borrowable'].t, c.f['is_borrowable'].t)
        s.isolated = c.f['is_isolated_asset'].t
        s.siloed = c.f['is_siloed_borrowing'].t
        s.isolation_ok = Implies(s.isolated, Not(s.e))


def ite_b(c, a, b):
    return Or(And(c, a), And(Not(c), b))


def pool_total(ex, cell, tok):
    pool = ex.read_cell('pools_map', (tok,), ADDR).t
    return ex.read_cell('ext:' + cell, (pool,), path_ty('ManagedDecimal', path_ty('NumDecimals'))).raw


def egld_wad(amount, dec, price):
    return rh(mulh(27, rs(amount, dec, 27), rs(price, 18, 27)), 27, 18)


def usd_wad(ex, egld):
    return rh(mulh(27, rs(egld, 18, 27), rs(usdpx(ex), 18, 27)), 27, 18)


def isolated_debt(ex, tok):
    return ex.read_cell('isolated_asset_debt_usd', (tok,), path_ty('ManagedDecimal', path_ty('NumDecimals')))


def limits(ex, side):
    l = ex.read_cell('position_limits', (), path_ty('PositionLimits'))
    return l.f['max_supply_positions' if side == DEPOSIT else 'max_borrow_positions'].t


class Limit:
    """invariant of a payment loop: at most the counted number of positions is added"""

    def __init__(s, u, ex, side):
        s.u, s.side = u, side
        s.len0 = ex.coll_len(positions(u.nonce, side))
        s.state = dict(storage=dict(ex.storage), epoch=dict(ex.epoch))

    def has0(s, ex, t):
        return in_state(ex, s.state, lambda: ex.coll_has(positions(s.u.nonce, s.side), (t,)))

    def added(s, ex, info, k):
        i = z3.Int('dummy.n')
        e = ex.val(ex.iter_elem(info['it'], i))
        return ex.sum_term(ite(s.has0(ex, e.f['token_identifier'].t), 0, 1), i, info['lo'], k, info.get('ctx', ()))

    def size(s, ex, info, k):
        return le(ex.coll_len(positions(s.u.nonce, s.side)), add(s.len0, s.added(ex, info, k)))

    def kept(s, ex, t):
        return Implies(s.has0(ex, t), ex.coll_has(positions(s.u.nonce, s.side), (t,)))


# -------------------------------------------------------------------- withdraw
class Withdraw(User):
    def on_withdraw(s, ex, c):
        O = ex.oblige
        who, a, _, liq, fee = c.d['args'][:5]
        O('withdraw: paid to the caller', eq(who.t, s.caller))
        O('withdraw: amount requested', And(eq(a.scale, pxdec(ex, c.tok)), gt(a.raw, 0), eq(c.tok, s.token),
                                            Or(eq(a.raw, s.amount))))
        O('withdraw: not a liquidation', And(Not(liq.t), Not(fee.some)))

    each = 'withdraw'


def withdraw(ck):
    fn = ck.by_endpoint(CR, 'withdraw')
    hold = [None]

    def th(ex):
        s = hold[0] = Withdraw(ck, ex, 'withdraw')
        account_nft(s, ex, True)
        account_state(s, ex)
        s.unsafe = eq(ex.coll_len(positions(s.nonce, BORROW)), 0)
        s.started = True
        v = ex.fresh(path_ty('MultiValueEncoded', path_ty('EgldOrEsdtTokenPayment')), 'arg.tokens')
        ck.endpoint_fn(ex, fn, [v])
        s.guards(ex)
        nft_checks(s, ex)
        O = ex.oblige
        O('health: account is healthy after the withdrawal', health_ok(ex, s.nonce, s.unsafe))
        empty = And(eq(ex.coll_len(positions(s.nonce, DEPOSIT)), 0), eq(ex.coll_len(positions(s.nonce, BORROW)), 0))
        burns = [e for e in ex.trace if e['kind'] == 'nft_burn']
        sent = [e for e in ex.trace if e['kind'] == 'transfer']
        gone = len(burns) == 1 and And(not sent, eq(burns[0]['nonce'], s.nonce), eq(burns[0]['amount'], s.nft.f['amount'].t), Not(active(ex, s.nonce)),
                                       ex.cell_empty('account_attributes', (s.nonce,), path_ty('AccountAttributes')))
        kept = And(not burns, returned(s, ex), active(ex, s.nonce))
        O('account: closed when nothing is left in it, otherwise its NFT goes back', Or(And(empty, gone), And(Not(empty), kept)))
        s.covered(ex, v.base.len)
        s.frame(ex, ('positions', 'accounts', 'account_attributes'))
    ck.run('withdraw', CR, th, config(ck, hold, iter_hook=payment_hook(hold)))


# ----------------------------------------------------------------------- repay
def isolated_repaid(s, ex, c, amount):
    """the isolated debt counter falls by the USD value of the debt repaid; what is left under one dollar is cleared"""
    v = s.attr0.f['isolated_token'].v
    if v is None:
        return
    iso = s.attr0.f['is_isolated_position'].t
    O = ex.oblige
    now = isolated_debt(ex, v.t).raw
    debt = rh(value(ex, c.pos, BORROW, s.unsafe), 27, 18)
    paid = egld_wad(amount, pxdec(ex, c.tok), px(ex, c.tok, s.unsafe))
    usd = usd_wad(ex, ite(lt(debt, paid), debt, paid))
    left = ite(gt(s.iso_start.raw, usd), sub(s.iso_start.raw, usd), 0)
    O('isolation: isolated debt falls by the USD value repaid', Implies(iso, eq(now, ite(eq(usd, 0), s.iso_start.raw, ite(lt(left, WAD), 0, left)))))
    O('isolation: no other debt counter moves', And(*[And(iso, eq(e['keys'][0], v.t)) for e in ex.trace
                                                        if e['kind'] == 'write' and e['cell'] == 'isolated_asset_debt_usd']))


class Repay(User):
    def on_repay(s, ex, c):
        O = ex.oblige
        pay = c.d['pay']
        O('repay: the payment goes to the pool as received', And(len(pay) == 1, *[
            And(eq(q[0], s.token), eq(q[2], s.amount), eq(q[1], 0)) for q in pay]))
        O('repay: on behalf of the caller', eq(c.d['args'][0].t, s.caller))
        O('repay: debt token of the payment', eq(c.tok, s.token))
        isolated_repaid(s, ex, c, s.amount)

    each = 'repay'


def repay(ck):
    fn = ck.by_endpoint(CR, 'repay')
    hold = [None]

    def th(ex):
        s = hold[0] = Repay(ck, ex, 'repay')
        n = ex.fresh(U64, 'arg.nonce')
        s.nonce = n.t
        account_state(s, ex)
        s.started = True
        ck.endpoint_fn(ex, fn, [n])
        s.guards(ex)
        ex.oblige('account: the account is active', s.active0)
        s.covered(ex, ex.cv_vec().base.len)
        s.frame(ex, ('positions', 'isolated_asset_debt_usd'))
    ck.run('repay', CR, th, config(ck, hold, iter_hook=payment_hook(hold)))


# ---------------------------------------------------------------------- supply
class Supply(User):
    def on_supply(s, ex, c):
        O = ex.oblige
        pay = c.d['pay']
        O('supply: the payment goes to the pool as received', And(len(pay) == 1, gt(s.amount, 0), *[
            And(eq(q[0], s.token), eq(q[2], s.amount), eq(q[1], 0)) for q in pay]))
        O('supply: collateral token of the payment', eq(c.tok, s.token))
        attr = s.attributes(ex)
        R = Rules(ex, c.tok, attr)
        p = c.pos.f
        old = And(c.known, *[eq(p[k].raw, c.st.f[k].raw) for k in ('scaled_amount_ray', 'liquidation_threshold_bps')])
        new = And(Not(c.known), eq(p['scaled_amount_ray'].raw, 0), eq(p['liquidation_threshold_bps'].raw, R.f['liquidation_threshold_bps']))
        O('supply: stored position extended, or a new one opened at the current threshold', Or(old, new))
        O('supply: position takes the current risk parameters', And(
            eq(p['account_nonce'].t, ite(c.known, c.st.f['account_nonce'].t, s.nonce)),
            *[eq(p[k].raw, R.f[k]) for k in ('loan_to_value_bps', 'liquidation_bonus_bps', 'liquidation_fees_bps')]))
        O('supply rules: asset is accepted as collateral', R.can_supply)
        O('supply rules: e-mode category exists, is live and lists the asset', R.emode_ok)
        O('supply rules: isolated asset outside e-mode', R.isolation_ok)
        iso = attr.f['isolated_token']
        O('supply rules: isolated collateral stays alone', And(
            Implies(attr.f['is_isolated_position'].t, And(iso.some, eq(iso.v.t, c.tok)) if iso.v is not None else False),
            Implies(R.isolated, attr.f['is_isolated_position'].t)))
        cap = R.asset.f['supply_cap_wad']
        total = rh(mulh(27, pool_total(ex, 'supplied', c.tok), mi(ex, c.tok, 'supply')), 27, pxdec(ex, c.tok))
        O('cap: supply stays within the supply cap', Implies(cap.some, le(add(total, s.amount), cap.v.t)))

    each = 'supply'

    def attributes(s, ex):
        return ex.read_cell('account_attributes', (s.nonce,), path_ty('AccountAttributes'))


def supply(ck, modes=("nft", "nonce", "new")):
    fn = ck.by_endpoint(CR, 'supply')
    for mode in modes:
        supply_mode(ck, fn, mode)


def supply_mode(ck, fn, mode):
    hold = [None]

    def th(ex):
        s = hold[0] = Supply(ck, ex, 'supply')
        first = ex.fresh_payment('cv.at', (0,))
        isnft = eq(first.f['token_identifier'].t, ex.leaf('nft:account', (), U))
        opt = ex.fresh(path_ty('OptionalValue', U64), 'arg.nonce')
        emode = ex.fresh(path_ty('OptionalValue', U8), 'arg.emode')
        given = And(opt.some, Not(eq(opt.v.t, 0)))
        ex.assume(isnft if mode == 'nft' else And(Not(isnft), given if mode == 'nonce' else Not(given)))
        if mode == 'nft':
            s.nft = first
            s.nonce = first.f['token_nonce'].t
        elif mode == 'nonce':
            s.nonce = opt.v.t
        else:
            s.nonce = None
        def setup():
            account_state(s, ex)
            s.limit = Limit(s, ex, DEPOSIT)
            s.started = True
        if mode == 'new':
            def created(ev):
                if ev['kind'] == 'nft_create':
                    ex.oblige('account: an isolated account names its isolated token', attr_inv(ev['attrs']))
                    s.nonce = ev['nonce']
                    ex.fact(z(Not(active(ex, s.nonce))))
                    for side in (DEPOSIT, BORROW):
                        ex.fact(z(eq(ex.coll_len(positions(s.nonce, side)), 0)))
                    setup()
            s.on_event = created
        else:
            setup()
        ck.endpoint_fn(ex, fn, [opt, emode])
        s.guards(ex)
        O = ex.oblige
        O('supply: nothing happens without a payment', s.started)
        if mode != 'new':
            O('account: the account is active', s.active0)
        if mode == 'nft':
            nft_checks(s, ex)
            O('account: NFT returned to the caller', returned(s, ex))
        elif mode == 'nonce':
            O('account: nothing is sent', not [e for e in ex.trace if e['kind'] == 'transfer'])
        else:
            mk = [e for e in ex.trace if e['kind'] == 'nft_create']
            tok = ex.leaf('nft:account', (), U)
            tr = [e for e in ex.trace if e['kind'] == 'transfer']
            O('account: one account NFT is minted and sent to the caller', len(mk) == 1 and len(tr) == 1 and And(
                eq(mk[0]['token'], tok), eq(mk[0]['amount'], 1), eq(tr[0]['token'], tok), eq(tr[0]['nonce'], mk[0]['nonce']),
                eq(tr[0]['amount'], 1), eq(tr[0]['to'], s.caller)))
            at = s.attributes(ex)
            R = cfg_of(ex, first.f['token_identifier'].t)
            iso = R.f['is_isolated_asset'].t
            O('account: the new account is registered with the attributes of its NFT', And(
                active(ex, s.nonce), veq(at, mk[0]['attrs']), eqb(at.f['is_isolated_position'].t, iso),
                eq(at.f['e_mode_category_id'].t, ite(And(Not(iso), emode.some), emode.v.t, 0)),
                eqb(at.f['isolated_token'].some, iso),
                Implies(iso, eq(at.f['isolated_token'].v.t, first.f['token_identifier'].t)) if at.f['isolated_token'].v is not None else True))
        s.covered(ex, sub(ex.cv_vec().base.len, 1 if mode == 'nft' else 0))
        O('limit: deposit positions within the limit', le(ex.coll_len(positions(s.nonce, DEPOSIT)), limits(ex, DEPOSIT)))
        s.frame(ex, ('positions',) + (('accounts', 'account_attributes', 'account_nonce') if mode == 'new' else ()))
    ck.run('supply', CR, th, config(ck, hold, iter_hook=payment_hook(hold), loop_entry=limit_entry(hold), loop_exit=limit_exit(hold),
                                    hooks=[lambda ex, ev: hold[0].on_event and hold[0].on_event(ev)]))
