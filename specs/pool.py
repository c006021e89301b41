"""Functional contracts of every state-changing entry point of the liquidity pool (liquidity_layer)."""
from terms import *
from values import *
from engine import *
from contracts import *

CR = 'liquidity_layer'
CELLS = ('supplied', 'borrowed', 'revenue', 'borrow_index', 'supply_index', 'last_timestamp')
PF = PARAMS
MUTATING = ('updateIndexes', 'supply', 'borrow', 'withdraw', 'repay', 'addRewards', 'flashLoan', 'createStrategy',
            'seizePosition', 'claimRevenue', 'updateParams')


def config(ck, **kw):
    return config_in(ck, CR, **kw)


def config_in(ck, crate, **kw):
    cfg = ck.cfg(crate, **kw)
    cfg.scales = {f'st:{c}': 27 for c in CELLS}
    cfg.scales.update({c: 27 for c in ('supplied', 'borrowed', 'revenue', 'borrow_index', 'supply_index')})
    return cfg


class S:
    """initial pool state as terms"""

    def __init__(s, ex):
        L = lambda n: ex.leaf(n, (), I)
        s.ex = ex
        s.s = L('st:supplied.raw'); s.b = L('st:borrowed.raw'); s.rev = L('st:revenue.raw')
        s.bi = L('st:borrow_index.raw'); s.si = L('st:supply_index.raw'); s.last = L('st:last_timestamp')
        s.now = L('block_timestamp_ms')
        s.D = L('st:params.asset_decimals')
        s.P = tuple(L(f'st:params.{k}.raw') for k in PF)
        s.rf = L('st:params.reserve_factor_bps.raw')
        s.asset = ex.leaf('st:params.asset_id', (), U)
        for t in (s.s, s.b, s.rev, s.bi, s.si, s.last, s.D, s.rf) + s.P:
            ex.fact(t >= 0)
        # type invariants of the pool's own storage (established by init, preserved by every entry point: P09/P10)
        ex.fact(s.D <= 18); ex.fact(s.last <= s.now); ex.fact(s.now < 2 ** 53)
        for c in params_ok(s.P):
            ex.fact(z(c))
        ex.fact(s.rf < BPS)
        ex.fact(s.bi >= RAY); ex.fact(s.si >= 1)
        ex.fact(z(Not(cell_unset(ex))))

    def st(s):
        return dict(s=s.s, b=s.b, rev=s.rev, bi=s.bi, si=s.si, last=s.last)

    def util(s, m):
        tot = mulh(27, m['s'], m['si'])
        return ite(eq(tot, 0), 0, divh(27, mulh(27, m['b'], m['bi']), tot))

    def add_rev(s, m, fee_ray):
        f = divh(27, fee_ray, m['si'])
        f = ite(eq(fee_ray, 0), 0, f)
        m = dict(m)
        m['s'] = add(m['s'], f); m['rev'] = add(m['rev'], f)
        return m

    def sync(s, m=None):
        m = m or s.st()
        ex = s.ex
        dt = sub(s.now, m['last'])
        rate = brate(s.util(m), s.P)
        f = CI(z(rate), z(dt))
        ex.fact(ge(rate, 0)); ex.fact(ge(f, RAY))
        nbi = mulh(27, m['bi'], f)
        acc = sub(mulh(27, m['b'], nbi), mulh(27, m['b'], m['bi']))
        fee = mulh(27, acc, mul(s.rf, 10 ** 23))
        rew = sub(acc, fee)
        nsi = s.reward(m, rew)
        n = dict(m, bi=nbi, si=nsi)
        n = s.add_rev(n, fee)
        n['last'] = s.now
        go = gt(dt, 0)
        return {k: ite(go, n[k], m[k]) for k in m}

    def reward(s, m, rew):
        tot = mulh(27, m['s'], m['si'])
        return ite(And(Not(eq(tot, 0)), Not(eq(rew, 0))), mulh(27, m['si'], add(RAY, divh(27, rew, tot))), m['si'])

    def up(s, amount):        # asset decimals -> RAY
        return rs(amount, s.D, 27)

    def down(s, ray):         # RAY -> asset decimals, half up
        return rh(ray, 27, s.D)


def cell_unset(ex):
    return z3.Or(*[ex.leaf(f'st:{c}.unset', (), z3.BoolSort()) for c in
                   ('supplied', 'borrowed', 'revenue', 'borrow_index', 'supply_index', 'params')])


def final(ex, c):
    ty = {'k': 'path', 'p': [['u64' if c == 'last_timestamp' else 'ManagedDecimal', []]]}
    v = ex.read_cell(c, (), ty)
    if isinstance(v, Dec):
        ex.oblige(f'{c} kept in RAY precision', eq(v.scale, 27))
    return v.t if isinstance(v, Int) else v.raw


KEY = dict(s='supplied', b='borrowed', rev='revenue', bi='borrow_index', si='supply_index', last='last_timestamp')


def post_state(ex, S, m, tag='state'):
    for k, c in KEY.items():
        ex.oblige(f'{c} after', eq(final(ex, c), m[k]))


def dec(ex, name, sc):
    t = ex.leaf(name, (), I)
    ex.fact(t >= 0)
    return Dec(t, sc)


def position(ex, prog, name='arg.position'):
    st = prog.struct('AccountPosition', CR)
    f = {}
    for n, t in st[1]:
        f[n] = ex.fresh(t, f'{name}.{n}')
    return Struct('AccountPosition', f)


def transfers(ex):
    return [e for e in ex.trace if e['kind'] in ('transfer', 'transfer_vec', 'call', 'burn', 'nft_burn', 'nft_create', 'loop')]


def only_transfer(ex, to, token, amount, kind='transfer'):
    """the only value leaving the contract is one transfer (zero amounts do not count)"""
    ts = transfers(ex)
    bad = [e for e in ts if e['kind'] != 'transfer']
    if bad or len(ts) > 1:
        ex.oblige('single outgoing transfer', And(*[False if e['kind'] != 'transfer' else eq(e['amount'], 0) for e in ts[1:]]))
        ts = ts[:1]
    if not ts:
        ex.oblige('amount sent', eq(amount, 0))
        return
    e = ts[0]
    ex.oblige('amount sent', eq(e['amount'], amount))
    ex.oblige('recipient', Or(eq(e['amount'], 0), eq(e['to'], to)))
    ex.oblige('token sent', Or(eq(e['amount'], 0), And(eq(e['token'], token), eq(e['nonce'], 0))))
    ex.oblige('sent within reserves', le(e['amount'], ex.leaf('balance', (token, z3.IntVal(0)), I)))


def no_transfer(ex):
    ts = transfers(ex)
    ex.oblige('nothing leaves the pool', And(*[eq(e['amount'], 0) if e['kind'] == 'transfer' else False for e in ts]))


def same_params(ex, S):
    ws = ex.storage.get('params', ())
    ex.oblige('parameters unchanged', not ws)


def owner(ex):
    ex.oblige('caller is owner', eq(ex.leaf('caller', (), U), ex.leaf('owner_address', (), U)))


def pay0(ex):
    """the single fungible payment of the call"""
    p = ex.fresh_payment('cv.at', (0,))
    return p.f['token_identifier'].t, p.f['amount'].t


def price(ex):
    return dec(ex, 'arg.price', 18)


def pos_result(ex, v, pos, scaled):
    for k in pos.f:
        if k == 'scaled_amount_ray':
            ex.oblige('position scaled amount', eq(v.f[k].raw, scaled))
        else:
            ex.oblige('position ' + k + ' kept', veq(v.f[k], pos.f[k]))


def asset_ok(ex, S, pos):
    ex.oblige('position asset is the pool asset', eq(pos.f['asset_id'].t, S.asset))


# ------------------------------------------------------------------ the endpoints
def ep_updateIndexes(ck, ex):
    S0 = S(ex)
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'updateIndexes'), [price(ex)])
    m = S0.sync()
    owner(ex); post_state(ex, S0, m); no_transfer(ex); same_params(ex, S0)
    ex.oblige('returned borrow index', eq(v.f['borrow_index_ray'].raw, m['bi']))
    ex.oblige('returned supply index', eq(v.f['supply_index_ray'].raw, m['si']))


def ep_supply(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'supply'), [pos, price(ex)])
    tok, am = pay0(ex)
    m = S0.sync()
    sc = divh(27, S0.up(am), m['si'])
    m['s'] = add(m['s'], sc)
    owner(ex); asset_ok(ex, S0, pos)
    ex.oblige('paid in the pool asset', eq(tok, S0.asset))
    post_state(ex, S0, m); no_transfer(ex); same_params(ex, S0)
    pos_result(ex, v, pos, add(pos.f['scaled_amount_ray'].raw, sc))
    return pos, v


def ep_borrow(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    am = dec(ex, 'arg.amount', S0.D)
    to = Opq(ex.leaf('arg.caller', (), U), 'ManagedAddress')
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'borrow'), [to, am, pos, price(ex)])
    m = S0.sync()
    sc = divh(27, S0.up(am.raw), m['bi'])
    m['b'] = add(m['b'], sc)
    owner(ex); asset_ok(ex, S0, pos); post_state(ex, S0, m); same_params(ex, S0)
    only_transfer(ex, to.t, S0.asset, am.raw)
    pos_result(ex, v, pos, add(pos.f['scaled_amount_ray'].raw, sc))
    return pos, v


def ep_withdraw(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    am = dec(ex, 'arg.amount', S0.D)
    fee = dec(ex, 'arg.fee', S0.D)
    liq = Bool(ex.leaf('arg.is_liquidation', (), z3.BoolSort()))
    fo = Opt(ex.leaf('arg.fee.some', (), z3.BoolSort()), fee)
    to = Opq(ex.leaf('arg.caller', (), U), 'ManagedAddress')
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'withdraw'), [to, am, pos, liq, fo, price(ex)])
    m = S0.sync()
    p0 = pos.f['scaled_amount_ray'].raw
    cur = S0.down(mulh(27, p0, m['si']))
    full = ge(am.raw, cur)
    sc = ite(full, p0, divh(27, S0.up(am.raw), m['si']))
    gross = ite(full, cur, am.raw)
    takes = And(liq.t, fo.some)
    net = ite(takes, sub(gross, fee.raw), gross)
    m = S0.add_rev(m, ite(takes, S0.up(fee.raw), 0))
    m['s'] = sub(m['s'], sc)
    owner(ex); asset_ok(ex, S0, pos); post_state(ex, S0, m); same_params(ex, S0)
    ex.oblige('fee never exceeds the amount withdrawn', Implies(takes, le(fee.raw, gross)))
    only_transfer(ex, to.t, S0.asset, net)
    pos_result(ex, v, pos, sub(p0, sc))
    ex.oblige('position never negative', le(sc, p0))
    return pos, v


def ep_repay(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    to = Opq(ex.leaf('arg.caller', (), U), 'ManagedAddress')
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'repay'), [to, pos, price(ex)])
    tok, am = pay0(ex)
    m = S0.sync()
    p0 = pos.f['scaled_amount_ray'].raw
    cur = S0.down(mulh(27, p0, m['bi']))
    full = ge(am, cur)
    sc = ite(full, p0, divh(27, S0.up(am), m['bi']))
    over = ite(full, sub(am, cur), 0)
    m['b'] = sub(m['b'], sc)
    owner(ex); asset_ok(ex, S0, pos); post_state(ex, S0, m); same_params(ex, S0)
    ex.oblige('paid in the pool asset', eq(tok, S0.asset))
    only_transfer(ex, to.t, S0.asset, over)
    pos_result(ex, v, pos, sub(p0, sc))
    ex.oblige('full repayment clears the debt', Implies(full, eq(v.f['scaled_amount_ray'].raw, 0)))
    ex.oblige('position never negative', le(sc, p0))
    return pos, v


def ep_addRewards(ck, ex):
    S0 = S(ex)
    ck.endpoint_fn(ex, ck.by_endpoint(CR, 'addRewards'), [price(ex)])
    tok, am = pay0(ex)
    m = S0.sync()
    m['si'] = S0.reward(m, S0.up(am))
    owner(ex); post_state(ex, S0, m); no_transfer(ex); same_params(ex, S0)
    ex.oblige('paid in the pool asset', eq(tok, S0.asset))


def ep_flashLoan(ck, ex):
    S0 = S(ex)
    tok = Opq(ex.leaf('arg.token', (), U), 'EgldOrEsdtTokenIdentifier')
    am = dec(ex, 'arg.amount', S0.D)
    fees = dec(ex, 'arg.fees', 4)
    to = Opq(ex.leaf('arg.contract', (), U), 'ManagedAddress')
    epn = Opq(ex.leaf('arg.endpoint', (), U), 'ManagedBuffer')
    ar = Opq(ex.leaf('arg.arguments', (), U), 'ManagedArgBuffer')
    seen = {}

    def external(x, d):
        # state committed before control leaves the pool
        m = S0.sync()
        for k, c in KEY.items():
            x.oblige(f'{c} committed before the external call', eq(final(x, c), m[k]))
        pay = d.get('pay', ())
        x.oblige('loan payment', And(len(pay) == 1, *([eq(pay[0][0], S0.asset), eq(pay[0][1], 0), eq(pay[0][2], am.raw)]
                                                   if len(pay) == 1 else [])))
        x.oblige('loan recipient', eq(d['to'], to.t))
        x.oblige('loan within reserves', le(am.raw, x.leaf('balance', (S0.asset, z3.IntVal(0)), I)))
        x.oblige('loan in the pool asset', eq(tok.t, S0.asset))
        x.oblige('caller-chosen function is called', eq(d.get('endpoint'), epn.t))
        # the callee may re-enter: everything the pool stores may change, within its type invariants
        x.havoc_all(False)
        x.havoc_balance()
        base = {k: x.cell_base(c) for k, c in KEY.items()}
        n = {k: x.leaf(base[k] + ('' if k == 'last' else '.raw'), (), I) for k in KEY}
        for k in n:
            x.fact(n[k] >= 0)
        x.fact(n['si'] >= 1); x.fact(n['bi'] >= RAY)
        # parameters keep their identity (the asset and its decimals never change: P09)
        pb = x.cell_base('params')
        x.fact(x.leaf(pb + '.asset_decimals', (), I) == S0.D)
        x.fact(x.leaf(pb + '.asset_id', (), U) == S0.asset)
        x.cfg_params_scale = True
        back = x.fresh_vec({'k': 'path', 'p': [['EgldOrEsdtTokenPayment', []]]}, 'back')
        seen['n'] = n; seen['back'] = back
        seen['calls'] = seen.get('calls', 0) + 1
        return Marker('back_transfers', back)
    ex.cfg.external = external
    ck.endpoint_fn(ex, ck.by_endpoint(CR, 'flashLoan'), [tok, am, to, epn, ar, fees, price(ex)])
    n = seen['n']; back = seen['back']
    ncall = len([e for e in ex.trace if e['kind'] == 'call'])
    ex.oblige('exactly one external call', ncall == 1)
    p = ex.val(ex.vec_get(back, 0))
    rep = p.f['amount'].t
    req = S0.down(mulh(27, S0.up(am.raw), mul(add(BPS, fees.raw), 10 ** 23)))
    ex.oblige('one repayment', eq(back.base.len, 1))
    ex.oblige('repaid in the borrowed asset', eq(p.f['token_identifier'].t, S0.asset))
    ex.oblige('repaid at least loan plus fee', ge(rep, req))
    ex.oblige('repaid at least the loan', ge(rep, am.raw))
    m = S0.add_rev(n, S0.up(sub(rep, am.raw)))
    owner(ex); post_state(ex, S0, m); same_params(ex, S0)
    ts = [e for e in transfers(ex) if e['kind'] != 'call']
    ex.oblige('nothing else leaves the pool', And(*[eq(e['amount'], 0) if e['kind'] == 'transfer' else False for e in ts]))


def ep_createStrategy(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    am = dec(ex, 'arg.amount', S0.D)
    fee = dec(ex, 'arg.fee', S0.D)
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'createStrategy'), [pos, am, fee, price(ex)])
    m = S0.sync()
    sc = divh(27, S0.up(am.raw), m['bi'])
    m['b'] = add(m['b'], sc)
    m = S0.add_rev(m, S0.up(fee.raw))
    owner(ex); asset_ok(ex, S0, pos); post_state(ex, S0, m); same_params(ex, S0)
    ex.oblige('fee never exceeds the borrowed amount', le(fee.raw, am.raw))
    only_transfer(ex, ex.leaf('caller', (), U), S0.asset, sub(am.raw, fee.raw))
    ex.oblige('borrowed amount within reserves', le(am.raw, ex.leaf('balance', (S0.asset, z3.IntVal(0)), I)))
    pos_result(ex, v, pos, add(pos.f['scaled_amount_ray'].raw, sc))
    return pos, v


def ep_seizePosition(ck, ex):
    S0 = S(ex)
    pos = position(ex, ck.prog)
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'seizePosition'), [pos, price(ex)])
    m = S0.sync()
    ty = pos.f['position_type'].tag
    en = [x['n'] for x in ck.prog.enum('AccountPositionType')[1]]
    isb, isd = eq(ty, en.index('Borrow')), eq(ty, en.index('Deposit'))
    p0 = pos.f['scaled_amount_ray'].raw
    debt = mulh(27, p0, m['bi'])
    tot = mulh(27, m['s'], m['si'])
    remain = sub(tot, imin(debt, tot))
    nsi = ite(eq(tot, 0), m['si'], imax(mulh(27, m['si'], divh(27, remain, tot)), 1))
    n = dict(m)
    n['si'] = ite(isb, nsi, m['si'])
    n['b'] = ite(isb, sub(m['b'], p0), m['b'])
    n['rev'] = ite(isd, add(m['rev'], p0), m['rev'])
    owner(ex); asset_ok(ex, S0, pos); post_state(ex, S0, n); no_transfer(ex); same_params(ex, S0)
    pos_result(ex, v, pos, ite(Or(isb, isd), 0, p0))
    fsi = final(ex, 'supply_index')
    ex.oblige('socialisation never raises the supply index', le(fsi, m['si']))
    ex.oblige('supply index stays positive', ge(fsi, 1))
    return pos, v


def ep_claimRevenue(ck, ex):
    S0 = S(ex)
    v = ck.endpoint_fn(ex, ck.by_endpoint(CR, 'claimRevenue'), [price(ex)])
    m = S0.sync()
    r0 = m['rev']
    tre = S0.down(mulh(27, r0, m['si']))
    bal = ex.leaf('balance', (S0.asset, z3.IntVal(0)), I)
    am = ite(eq(r0, 0), 0, imin(bal, tre))
    burn = ite(ge(am, tre), r0, mulh(27, r0, divh(27, S0.up(am), S0.up(tre))))
    burn = ite(gt(am, 0), burn, 0)
    br, bs = imin(burn, r0), imin(burn, m['s'])
    m['rev'] = sub(m['rev'], br)
    m['s'] = sub(m['s'], bs)
    owner(ex); post_state(ex, S0, m); same_params(ex, S0)
    only_transfer(ex, ex.leaf('caller', (), U), S0.asset, am)
    ex.oblige('amount bounded by treasury and reserves', And(le(am, tre), le(am, bal)))
    ex.oblige('returned token', eq(v.f['token_identifier'].t, S0.asset))
    ex.oblige('returned amount', eq(v.f['amount'].t, am))


NEWP = ('max', 'base', 's1', 's2', 's3', 'mid', 'opt', 'rf')


def new_params(ex):
    ts = [ex.leaf('arg.' + n, (), I) for n in NEWP]
    for t in ts:
        ex.fact(t >= 0)
    return ts


def params_after(ex, ts, asset, dcm):
    ws = ex.storage.get('params', ())
    ex.oblige('parameters stored', len(ws) >= 1)
    if not ws:
        return
    v = ws[-1][1]
    names = PF + ('reserve_factor_bps',)
    for n, t in zip(names, ts):
        ex.oblige(f'stored {n}', And(eq(v.f[n].raw, t), eq(v.f[n].scale, 4 if n.endswith('bps') else 27)))
    ex.oblige('stored asset', eq(v.f['asset_id'].t, asset))
    ex.oblige('stored decimals', eq(v.f['asset_decimals'].t, dcm))
    mx, base, s1, s2, s3, mid, opt, rf = ts
    ex.oblige('maximum rate above base rate', gt(mx, base))
    ex.oblige('utilization breakpoints ordered', lt(mid, opt))
    ex.oblige('optimal utilization below 100%', lt(opt, RAY))
    ex.oblige('reserve factor below 100%', lt(rf, BPS))


def ep_updateParams(ck, ex):
    S0 = S(ex)
    ts = new_params(ex)
    ck.endpoint_fn(ex, ck.by_endpoint(CR, 'updateParams'), [Int(t, 'BigUint') for t in ts] + [price(ex)])
    m = S0.sync()         # with the parameters in force before the update
    owner(ex); post_state(ex, S0, m); no_transfer(ex)
    params_after(ex, ts, S0.asset, S0.D)


def ep_init(ck, ex):
    ts = new_params(ex)
    asset = ex.leaf('arg.asset', (), U)
    dcm = ex.leaf('arg.decimals', (), I)
    ex.fact(dcm >= 0)
    ck.endpoint_fn(ex, ck.by_endpoint(CR, 'init'), [Opq(asset, 'EgldOrEsdtTokenIdentifier')] +
                   [Int(t, 'BigUint') for t in ts] + [Int(dcm, 'usize')])
    now = ex.leaf('block_timestamp_ms', (), I)
    params_after(ex, ts, asset, dcm)
    post_state(ex, None, dict(s=0, b=0, rev=0, bi=RAY, si=RAY, last=now))
    no_transfer(ex)


def ep_upgrade(ck, ex):
    ck.endpoint_fn(ex, ck.by_endpoint(CR, 'upgrade'), [])
    ex.oblige('upgrade keeps the state', not any(ex.storage.values()))
    no_transfer(ex)


EPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith('ep_') and n != 'ep_conserve'}


def ep_monotone(n):
    def run(ck, ex):
        S0 = S(ex)
        EPS[n](ck, ex)
        ex.oblige('monotone: borrow index never decreases', ge(final(ex, 'borrow_index'), S0.bi))
        if n != 'seizePosition':
            ex.oblige('monotone: supply index never decreases', ge(final(ex, 'supply_index'), S0.si))
    return run


def run_wrapped(ck, wrap, names, tag):
    """an entry point's run with extra obligations; only those carrying the tag are kept"""
    for n in names:
        old, ck.filter = ck.filter, lambda nm: tag in nm or 'reachable' in nm
        ck.run('pool.' + n, CR, lambda ex, n=n: wrap(n)(ck, ex), config(ck))
        ck.filter = old


def run_eps(ck, names, tags=None):
    """symbolically execute the named entry points and keep the obligations whose tag matches"""
    for n in names:
        cfg = config(ck)
        old = ck.filter
        if tags is not None:
            ck.filter = lambda nm, n=n: any(t in nm for t in (tags[n] if isinstance(tags, dict) else tags)) or 'reachable' in nm
        ck.run('pool.' + n, CR, lambda ex, n=n: EPS[n](ck, ex), cfg)
        ck.filter = old


# ------------------------------------------------------------------ cross-cutting obligations
def ep_conserve(n, kind):
    """the pool totals move exactly by what the user position and the treasury move by"""
    def run(ck, ex):
        S0 = S(ex)
        # inductive hypothesis: supplied shares = treasury shares + all deposit positions
        ex.fact(S0.rev <= S0.s)
        r = EPS[n](ck, ex)
        ds, dr = sub(final(ex, 'supplied'), S0.s), sub(final(ex, 'revenue'), S0.rev)
        db = sub(final(ex, 'borrowed'), S0.b)
        dp = 0
        if r:
            pos, v = r
            dp = sub(v.f['scaled_amount_ray'].raw, pos.f['scaled_amount_ray'].raw)
        if kind == 'seize':
            en = [x['n'] for x in ck.prog.enum('AccountPositionType')[1]]
            isb = eq(pos.f['position_type'].tag, en.index('Borrow'))
            dd, dbp = ite(isb, 0, dp), ite(isb, dp, 0)
        else:
            dd, dbp = (dp, 0) if kind == 'deposit' else (0, dp) if kind == 'debt' else (0, 0)
        ex.oblige('conservation of supplied shares', eq(ds, add(dr, dd)))
        ex.oblige('conservation of debt shares', eq(db, dbp))
    return run


CONS = dict(updateIndexes='', supply='deposit', borrow='debt', withdraw='deposit', repay='debt', addRewards='', createStrategy='debt',
            seizePosition='seize', claimRevenue='', updateParams='')


# ------------------------------------------------------------------ views
def view(ck, ex, name):
    return ck.endpoint_fn(ex, ck.by_endpoint(CR, name), [])


def dec_res(ex, v, raw, scale, what):
    ex.oblige(what, And(eq(v.raw, raw), eq(v.scale, scale)))


def vw_util(S0):
    tot = mulh(27, S0.s, S0.si)
    return ite(eq(tot, 0), 0, divh(27, mulh(27, S0.b, S0.bi), tot))


def vw_capitalUtilisation(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'capitalUtilisation'), vw_util(S0), 27, 'utilization = borrowed value / supplied value')


def vw_borrowRate(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'borrowRate'), brate(vw_util(S0), S0.P), 27, 'borrow rate follows the curve')


def vw_depositRate(ck, ex):
    S0 = S(ex)
    u = vw_util(S0)
    r = ite(eq(u, 0), 0, mulh(27, mulh(27, u, brate(u, S0.P)), mul(sub(BPS, S0.rf), 10 ** 23)))
    v = view(ck, ex, 'depositRate')
    dec_res(ex, v, r, 27, 'deposit rate = utilization x borrow rate x (1 - reserve factor)')
    ex.fact(z(ge(brate(u, S0.P), 0)))
    ex.oblige('deposit rate not above borrow rate up to full utilization', Implies(le(u, RAY), le(v.raw, brate(u, S0.P))))


def vw_reserves(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'reserves'), ex.leaf('balance', (S0.asset, z3.IntVal(0)), I), S0.D, 'reserves = pool balance')


def vw_protocolRevenue(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'protocolRevenue'), S0.down(mulh(27, S0.rev, S0.si)), S0.D, 'revenue value')


def vw_suppliedAmount(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'suppliedAmount'), S0.down(mulh(27, S0.s, S0.si)), S0.D, 'supplied value')


def vw_borrowedAmount(ck, ex):
    S0 = S(ex)
    dec_res(ex, view(ck, ex, 'borrowedAmount'), S0.down(mulh(27, S0.b, S0.bi)), S0.D, 'borrowed value')


def vw_deltaTime(ck, ex):
    S0 = S(ex)
    ex.oblige('time since the last accrual', eq(view(ck, ex, 'deltaTime').t, sub(S0.now, S0.last)))


VIEWS = {n[3:]: f for n, f in list(globals().items()) if n.startswith('vw_') and n != 'vw_util'}


def run_views(ck, names):
    for n in names:
        ck.run('pool.view.' + n, CR, lambda ex, n=n: VIEWS[n](ck, ex), config(ck))


def live_accrual(ck):
    """interest accrual cannot fail on an initialised pool, whatever its totals, indexes and the elapsed time"""
    def thunk(ex):
        S0 = S(ex)
        try:
            ck.endpoint_fn(ex, ck.by_endpoint(CR, 'updateIndexes'), [price(ex)])
        except Revert as r:
            ex.oblige('accrual fails only for a caller other than the owner', Not(eq(ex.leaf('caller', (), U), ex.leaf('owner_address', (), U))))
    cfg = config(ck)
    cfg.explore_reverts = True
    ck.run('pool.updateIndexes', CR, thunk, cfg)


def live_seize(ck):
    """a position can always be seized by the owner: bad debt never gets stuck"""
    def thunk(ex):
        S0 = S(ex)
        pos = position(ex, ck.prog)
        try:
            ck.endpoint_fn(ex, ck.by_endpoint(CR, 'seizePosition'), [pos, price(ex)])
        except Revert as r:
            en = [x['n'] for x in ck.prog.enum('AccountPositionType')[1]]
            ty = pos.f['position_type'].tag
            ex.oblige('seizing fails only for the owner check, the asset check, an invalid type or a position above the total',
                      Or(Not(eq(ex.leaf('caller', (), U), ex.leaf('owner_address', (), U))),
                         Not(eq(pos.f['asset_id'].t, S0.asset)), eq(ty, en.index('None')),
                         And(eq(ty, en.index('Borrow')), gt(pos.f['scaled_amount_ray'].raw, S0.b))))
    cfg = config(ck)
    cfg.explore_reverts = True
    ck.run('pool.seizePosition', CR, thunk, cfg)
