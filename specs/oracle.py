"""Price resolution: contracts of token_price, aggregator_price_feed and of the per-transaction cache.

px(token, unsafe) is the price a transaction uses.  It is *defined* by the
resolution rules below (recursively through derived / LP / safe-price legs);
the body of token_price is verified against those rules, with the contract
assumed for the recursive calls.
"""
from terms import *
from values import *
from engine import *
from contracts import *
import ctl
from ctl import CR, TOK, px, pxdec, mi, path_ty, usdpx, feed

ADDR = path_ty('ManagedAddress')
ORACLE = path_ty('OracleProvider')


def now_ms(ex):
    t = ex.leaf('block_timestamp_ms', (), I)
    ex.fact(t >= 0); ex.fact(t < 2 ** 53)
    return t


class Canon:
    """element function of a cache map that obeys the cache invariant"""
    put = None
    ctx = ()

    def __init__(s, name, elem):
        s.name = name; s.elem = elem


def canon(unsafe):
    pr = lambda ex, kt: Struct('PriceFeedShort', {'price_wad': Dec(px(ex, kt[0], unsafe), 18), 'asset_decimals': Int(pxdec(ex, kt[0]), 'usize')})
    ix = lambda ex, kt: Struct('MarketIndex', {'borrow_index_ray': Dec(mi(ex, kt[0], 'borrow'), 27), 'supply_index_ray': Dec(mi(ex, kt[0], 'supply'), 27)})
    rd = lambda cell, ty: lambda ex, kt: ex.read_cell(cell, (kt[0],), ty)
    return {'prices_cache': pr, 'market_indexes': ix, 'asset_configs': rd('asset_config', path_ty('AssetConfig')),
            'asset_pools': rd('pools_map', ADDR), 'asset_oracles': rd('token_oracle', ORACLE)}


def scalars(ex):
    """what Cache::new reads at the start of the transaction"""
    return {'egld_usd_price_wad': Dec(usdpx(ex), 18), 'price_aggregator_sc': ex.read_cell('price_aggregator_address', (), ADDR),
            'egld_ticker': Opq(EGLD, 'ManagedBuffer'), 'flash_loan_ongoing': Bool(ex.leaf('st:flash_loan_ongoing', (), z3.BoolSort())),
            'safe_price_view': ex.read_cell('safe_price_view', (), ADDR), 'current_timestamp': Int(now_ms(ex), 'u64')}


def cache(ex):
    """a cache in any state reachable during a transaction"""
    u = ex.leaf('cache.unsafe', (), z3.BoolSort())
    f = {'sc_ref': SELF, 'allow_unsafe_price': Bool(u)}
    f.update(scalars(ex))
    for k, el in canon(u).items():
        f[k] = MapV(Canon('cache.' + k, el))
    ref = Ref(ex.alloc(Struct('Cache', f)))
    return ref, u


def leaf_eq(a, b):
    return And(*[(z(x) == z(y)) if not (is_c(cv(x)) and is_c(cv(y))) else cv(x) == cv(y) for (_, x), (_, y) in zip(leaves(a), leaves(b))])


def kept(ex, ref, u):
    """the cache still obeys its invariant"""
    c = ex.val(ref)
    for k, el in canon(u).items():
        for key, v in c.f[k].writes:
            ex.oblige(f'cache: {k} entry is the canonical value', leaf_eq(v, el(ex, tuple(ex.keyterms([key])))))
    for k, v in scalars(ex).items():
        ex.oblige(f'cache: {k} unchanged', leaf_eq(c.f[k], v))
    ex.oblige('cache: price permission unchanged', eq(c.f['allow_unsafe_price'].t, u))


def run_cached(ck, name, spec, use, label=None):
    fn = ck.prog.impl(CR, *name.split('::'))

    def thunk(ex):
        ref, u = cache(ex)
        tok = ex.fresh(path_ty(TOK), 'arg.token')
        spec_v = spec(ex, tok.t, u)
        r = ex.val(ex.inline_call(fn, [ref, tok], name))
        for (p, a), (_, b) in zip(leaves(r), leaves(spec_v)):
            ex.oblige('result' + p, z(a) == z(b))
        kept(ex, ref, u)
    cfg = ctl.config(ck, use)
    cfg.fresh_hook = pool_hook
    ck.run('contract ' + name, CR, thunk, cfg)


def pool_hook(ex, name, keys, v):
    pass


# ------------------------------------------------------------------ market index: what the pool would commit now
PPREF = {'bi': 'borrow_index', 'si': 'supply_index', 's': 'supplied', 'b': 'borrowed'}


def simulated(ex, addr):
    """indexes the pool at addr reports after accruing interest up to now (R03/R04)"""
    import pool
    cell = lambda n, ty: ex.m_Mapper('get', None, Mapper('SingleValueMapper', 'ext:' + n, (addr,), [ty], addr=addr), [], None)
    DEC = {'k': 'path', 'p': [['ManagedDecimal', [path_ty('NumDecimals')]]]}
    S = pool.S.__new__(pool.S)
    S.ex = ex
    g = lambda n: cell(n, DEC).raw
    S.s, S.b, S.bi, S.si = g('supplied'), g('borrowed'), g('borrow_index'), g('supply_index')
    S.rev = 0
    S.last = cell('last_timestamp', path_ty('u64')).t
    S.now = now_ms(ex)
    p = cell('params', path_ty('MarketParams'))
    S.P = tuple(p.f[k].raw for k in pool.PF)
    S.rf = p.f['reserve_factor_bps'].raw
    for t in (S.s, S.b, S.rf) + S.P:
        ex.fact(z(t) >= 0)
    ex.fact(z(le(S.last, S.now)))
    for c in params_ok(S.P):
        ex.fact(z(c))
    ex.fact(z(lt(S.rf, BPS))); ex.fact(z(ge(S.bi, RAY))); ex.fact(z(ge(S.si, 1)))
    m = S.sync()
    return m


def v_market_index(ck):
    fn = ck.prog.impl(CR, 'Cache', 'cached_market_index')

    def thunk(ex):
        ref, u = cache(ex)
        tok = ex.fresh(path_ty(TOK), 'arg.token')
        pa = ex.read_cell('pools_map', (tok.t,), ADDR)
        m = simulated(ex, pa.t)
        # definition of the market index of this transaction
        ex.fact(z(eq(mi(ex, tok.t, 'borrow'), m['bi']))); ex.fact(z(eq(mi(ex, tok.t, 'supply'), m['si'])))
        r = ex.val(ex.inline_call(fn, [ref, tok], 'Cache::cached_market_index'))
        ex.oblige('borrow index is the accrued index of the pool', eq(r.f['borrow_index_ray'].raw, m['bi']))
        ex.oblige('supply index is the accrued index of the pool', eq(r.f['supply_index_ray'].raw, m['si']))
        kept(ex, ref, u)
    cfg = ctl.config(ck, ('mul_half_up', 'div_half_up', 'rescale_half_up', 'calculate_borrow_rate', 'calculate_compounded_interest', 'Cache::cached_pool_address'))
    ck.run('contract Cache::cached_market_index', CR, thunk, cfg)


def v_cached_oracle(ck):
    run_cached(ck, 'Cache::cached_oracle', lambda ex, t, u: oracle_of(ex, t), ctl.BASE)


def v_read(name, cell, ty):
    def v(ck):
        run_cached(ck, name, lambda ex, t, u: ex.read_cell(cell, (t,), ty), ctl.BASE)
    return v


# ------------------------------------------------------------------ price rules
def tag(ck, enum, name):
    names = [v[0] if isinstance(v, (list, tuple)) else v['n'] if isinstance(v, dict) else v for v in ck.prog.enum(enum, CR)[1]]
    return names.index(name)


def ext(ex, ty, method, to, args=()):
    return ex.fresh(ty, 'oracle.' + method, (to,) + tuple(args))


def tick(ex, tok):
    return ex.leaf('token_ticker', (tok,), U)


def is_egld_like(ex, tok):
    return Or(eq(tok, EGLD), eq(tick(ex, tok), lit_uid('WEGLD')))


def ticker_of(ex, tok):
    return ite(is_egld_like(ex, tok), EGLD, tick(ex, tok))


def oracle_of(ex, tok):
    """oracle configuration used for a leg: WEGLD shares the one of EGLD"""
    return ex.read_cell('token_oracle', (ite(is_egld_like(ex, tok), EGLD, tok),), ORACLE)


def agg_price(ex, tok):
    """aggregator USD price of the token divided by the USD price of EGLD"""
    return rh(divh(27, rs(feed(ex, ticker_of(ex, tok)), 18, 27), rs(usdpx(ex), 18, 27)), 27, 18)


def within(agg, safe, up, lo):
    r = rh(divh(27, rs(safe, 18, 27), rs(agg, 18, 27)), 27, 4)
    return And(le(r, up), ge(r, lo))


def external(ex, d):
    ex.oblige('oracle: external calls are read-only', d['end'] == 'sync_call_readonly')
    return ext_result(ex, d)


def ext_result(ex, d):
    args = tuple(ex.keyterms(d['args']))
    ty = ex.proxy_ret(d.get('proxy'), d['method'])
    return ext(ex, ty, d['method'], d['to'].t if hasattr(d['to'], 't') else d['to'], args)


LIT = lit_uid


def v_aggregator_price_feed(ck):
    """reverts unless the aggregator is set, live, has the pair, and (without permission for unsafe prices) is fresh"""
    fn = ck.prog.lookup(CR, 'aggregator_price_feed')

    def thunk(ex):
        tk = ex.fresh(path_ty('ManagedBuffer'), 'arg.ticker')
        ad = ex.fresh(ADDR, 'arg.aggregator')
        mx = ex.fresh(path_ty('u64'), 'arg.max_stale')
        un = ex.fresh(path_ty('bool'), 'arg.unsafe')
        r = ex.val(ex.inline_call(fn, [SELF, tk, ad, mx, un], 'aggregator_price_feed'))
        O = ex.oblige
        usd = LIT('USD')
        rd = Mapper('SingleValueMapper', 'ext:rounds', (ad.t, tk.t, usd), [path_ty('TimestampedPrice')], addr=ad.t)
        rv = ex.m_Mapper('get', None, rd, [], None)
        O('feed: price is the latest recorded round of ticker/USD', eq(r.f['price'].t, rv.f['price'].t))
        O('feed: round id', eq(r.f['round_id'].t, rv.f['round'].t))
        O('feed: time of the round', eq(r.f['timestamp'].t, rv.f['timestamp'].t))
        O('feed: the aggregator is configured', Not(eq(ad.t, ZERO_ADDR)))
        O('feed: not while the aggregator is paused', Not(ex.leaf('st:ext:pause_module:paused', (ad.t,), z3.BoolSort())))
        now = ex.leaf('block_timestamp', (), I)
        fresh = And(Not(ex.cell_empty('ext:rounds', (ad.t, tk.t, usd), path_ty('TimestampedPrice'))), Implies(le(rv.f['timestamp'].t, now), lt(sub(now, rv.f['timestamp'].t), mx.t)))
        O('feed: stale or missing rounds only when unsafe prices are allowed', Or(un.t, fresh))
        O('feed: no storage written and nothing called', not any(e['kind'] in ('write', 'call', 'transfer') for e in ex.trace))
    ck.run('contract aggregator_price_feed', CR, thunk, ctl.config(ck, ctl.BASE))


def v_token_price(ck):
    fn = ck.prog.lookup(CR, 'token_price')
    T = lambda n: tag(ck, 'OracleType', n)
    M = lambda n: tag(ck, 'PricingMethod', n)
    X = lambda n: tag(ck, 'ExchangeSource', n)

    def thunk(ex):
        ref, u = cache(ex)
        tk = ex.fresh(path_ty(TOK), 'arg.token')
        tok = tk.t
        sc = scalars(ex)
        ex.cfg.external = external
        hit = ex.leaf('cache.prices_cache.has', (tok,), z3.BoolSort())
        r = ex.val(ex.inline_call(fn, [SELF, tk, ref], 'token_price'))
        calls = [(e, ext_result(ex, e)) for e in ex.trace if e['kind'] == 'call']
        O = ex.oblige
        p, dec = r.f['price_wad'], r.f['asset_decimals'].t
        like = is_egld_like(ex, tok)
        c = ex.read_cell('token_oracle', (tok,), ORACLE)
        ot, pm, xs = c.f['oracle_type'].tag, c.f['pricing_method'].tag, c.f['exchange_source'].tag
        base, quote = c.f['base_token_id'].t, c.f['quote_token_id'].t
        D = c.f['asset_decimals'].t
        oc = c.f['oracle_contract_address'].t
        fresh = And(Not(like), Not(hit))
        # assumption: liquid-staked EGLD tokens are registered with their 18 decimals
        ex.fact(z(Implies(And(eq(ot, T('Derived')), Or(eq(xs, X('XEGLD')), eq(xs, X('LEGLD')))), eq(D, 18))))
        P = p.raw
        N = lambda n, g, k: O('price: ' + n, Implies(And(fresh, *k), g))
        O('price: EGLD and WEGLD are worth one EGLD with 18 decimals', Implies(like, And(eq(P, WAD), eq(dec, 18))))
        O('price: a price already resolved in this transaction is reused', Implies(And(Not(like), hit), And(eq(P, px(ex, tok, u)), eq(dec, pxdec(ex, tok)))))
        O('price: scale', Implies(Or(Not(eq(ot, T('Derived'))), like, hit, eq(xs, X('LXOXNO'))), eq(p.scale, 18)))
        N('an oracle is configured for the token', Not(ex.cell_empty('token_oracle', (tok,), ORACLE)), [])
        N('decimals come from the oracle configuration', eq(dec, D), [])
        N('an oracle type is configured', Or(*[eq(ot, T(n)) for n in ('Normal', 'Derived', 'Lp')]), [])
        # --- normal
        agg = agg_price(ex, tok)
        tol = c.f['tolerance']
        b = lambda n: tol.f[n].raw
        one = p10(D)
        src = [(d, v) for d, v in calls]
        feeds = [e for e in ex.trace if e['kind'] == 'feed']
        normal = eq(ot, T('Normal'))
        if any('offset' in d['method'] for d, _ in calls):
            d, v = [(d, v) for d, v in calls if 'offset' in d['method']][0]
            a = [ex.val(x) for x in d['args']]
            dex = len(a) == 4
            rt, ra = v.f['token_identifier'].t, v.f['amount'].t
            safe = ite(is_egld_like(ex, rt), ra, rh(mulh(27, rs(ra, pxdec(ex, rt), 27), rs(px(ex, rt, u), 18, 27)), 27, 18))
            pay = a[-1]
            O('price: pools are asked for a 15 minute average of one whole token',
              And(eq(a[2].t if dex else a[1].t, 900), eq(pay.f['token_identifier'].t, tok), eq(pay.f['amount'].t, one), eq(pay.f['token_nonce'].t, 0)))
            stm = Mapper('SingleValueMapper', 'ext:pair_state' if dex else 'ext:state', (oc, c.f['onedex_pair_id'].t) if dex else (oc,), [path_ty('State')], addr=oc)
            O('price: pools that are not active are used only with permission for unsafe prices', Or(u, eq(ex.m_Mapper('get', None, stm, [], None).tag, 1)))
            if dex:
                O('price: Onedex quote of the token against the other side of the pair',
                  And(eq(xs, X('Onedex')), eq(d['to'].t if hasattr(d['to'], 't') else d['to'], oc), eq(a[0].t, tok), eq(a[1].t, ite(eq(tok, quote), base, quote))))
            else:
                O('price: xExchange quote through the safe-price view for the configured pair',
                  And(eq(xs, X('XExchange')), eq(d['to'].t if hasattr(d['to'], 't') else d['to'], sc['safe_price_view'].t), eq(a[0].t, oc)))
        else:
            safe = None
        if not calls or safe is not None:
            N('aggregator-only: EGLD value of the aggregator quote', eq(P, agg), [normal, eq(pm, M('Aggregator'))])
            in1 = lambda s: within(agg, s, b('first_upper_ratio_bps'), b('first_lower_ratio_bps'))
            in2 = lambda s: within(agg, s, b('last_upper_ratio_bps'), b('last_lower_ratio_bps'))
            if safe is None:
                N('pool price required by the pricing method', And(Not(eq(pm, M('Mix'))), Not(eq(pm, M('Safe')))), [normal])
            else:
                mix = [normal, eq(pm, M('Mix'))]
                N('safe-only: time-averaged pool price', eq(P, safe), [normal, eq(pm, M('Safe'))])
                N('mix: pool price within the first tolerance band', eq(P, safe), mix + [in1(safe)])
                N('mix: average within the second tolerance band', eq(P, fdiv(add(agg, safe), 2)), mix + [Not(in1(safe)), in2(safe)])
                N('mix: outside both bands only with permission for unsafe prices', u, mix + [Not(in1(safe)), Not(in2(safe))])
                N('mix: outside both bands the pool price is used', eq(P, safe), mix + [Not(in1(safe)), Not(in2(safe))])
        N('a pricing method is configured', Or(*[eq(pm, M(n)) for n in ('Aggregator', 'Mix', 'Safe')]), [normal])
        for e in feeds:
            O('price: the aggregator is asked for the right ticker', Implies(And(fresh, normal), eq(e['ticker'], ticker_of(ex, tok))))
            O('price: aggregator staleness permission is the transaction price permission', e['unsafe'] == z(u) if not is_c(e['unsafe']) else False)
            O('price: configured staleness limit', Implies(And(fresh, normal), eq(e['stale'], c.f['max_price_stale_seconds'].t)))
        # --- derived
        der = eq(ot, T('Derived'))
        rate = [v.t for d, v in calls if 'offset' not in d['method'] and hasattr(v, 't')]
        if rate:
            k = [der]
            N('derived: EGLD staking ratio', And(eq(P, rate[0]), eq(p.scale, D)), k + [Or(eq(xs, X('XEGLD')), eq(xs, X('LEGLD')))])
            N('derived: XOXNO staking ratio times the base token price',
              eq(P, rh(mulh(27, rs(rate[0], D, 27), rs(px(ex, base, u), 18, 27)), 27, 18)), k + [eq(xs, X('LXOXNO'))])
            for d, _ in calls:
                N('derived: ratio read from the configured contract', eq(d['to'].t if hasattr(d['to'], 't') else d['to'], oc), k)
        N('derived: source configured', Or(*[eq(xs, X(n)) for n in ('XEGLD', 'LEGLD', 'LXOXNO')]), [der])
        # --- LP tokens
        isl = eq(ot, T('Lp'))
        if any(d['method'] == 'get_reserves_and_total_supply' for d, _ in calls):
            O('price: reserves only for LP tokens', And(fresh, isl))
            lp_rules(ck, ex, c, u, P, calls, feeds, T, X)
        else:
            N('lp: reserves of the configured pair are read', False, [isl])
        # definition: the price of the transaction is what resolution returns the first time
        ex.fact(z(Implies(fresh, And(eq(px(ex, tok, u), P), eq(pxdec(ex, tok), dec)))))
        kept(ex, ref, u)
    cfg = ctl.config(ck, ctl.BASE + ('token_price', 'aggregator_price_feed', 'Cache::cached_oracle'))
    ck.run('contract token_price', CR, thunk, cfg)


def lp_value(ra, rb, ts, pa, pb):
    """value of one LP token from the pair invariant and two prices; every argument is (raw, scale)"""
    m = lambda x, y: mulh(18, rs(x[0], x[1], 18), rs(y[0], y[1], 18))
    d = lambda x, y: divh(18, rs(x[0], x[1], 18), rs(y[0], y[1], 18))
    k = (m(ra, rb), 18)
    root = lambda t: (m((SQRT(z(t)), 9), (10 ** 9, 9)), 18)
    x = root(m(k, (d(pb, pa), 18)))
    y = root(m(k, (d(pa, pb), 18)))
    tot = add(m(x, pa), m(y, pb))
    return rh(d((tot, 18), (rh(ts[0], ts[1], 18), 18)), 18, 18)


def lp_rules(ck, ex, c, u, P, calls, feeds, T, X):
    O = ex.oblige
    oc = c.f['oracle_contract_address'].t
    base, quote = c.f['base_token_id'].t, c.f['quote_token_id'].t
    d, v = [(d, v) for d, v in calls if d['method'] == 'get_reserves_and_total_supply'][0]
    to = lambda d: d['to'].t if hasattr(d['to'], 't') else d['to']
    O('price: lp: reserves read from the configured pair', eq(to(d), oc))
    r0, r1, ts = [x.t for x in v.e]
    ra, rb = (r0, pxdec(ex, base)), (r1, pxdec(ex, quote))
    sup = (ts, c.f['asset_decimals'].t)
    n_off = [0]

    def off(tok):
        """aggregator-side price of a leg"""
        o = oracle_of(ex, tok)
        if not ex.branch(eq(o.f['oracle_type'].tag, T('Derived'))):
            return agg_price(ex, tok), 18
        x, D, a = o.f['exchange_source'].tag, o.f['asset_decimals'].t, o.f['oracle_contract_address'].t
        n_off[0] += 1
        B_ = path_ty('BigUint')
        if ex.branch(eq(x, X('XEGLD'))):
            return ext(ex, B_, 'get_exchange_rate', a).t, D
        if ex.branch(eq(x, X('LEGLD'))):
            return ext(ex, B_, 'token_price', a).t, D
        O('price: lp: derived leg has a source', eq(x, X('LXOXNO')))
        q = ext(ex, B_, 'get_exchange_rate', a).t
        return rh(mulh(27, rs(q, D, 27), rs(agg_price(ex, o.f['base_token_id'].t), 18, 27)), 27, 18), 18
    on = lp_value(ra, rb, sup, (px(ex, base, u), 18), (px(ex, quote, u), 18))
    of = lp_value(ra, rb, sup, off(base), off(quote))
    O('price: lp: one rate per derived leg', len(calls) == 1 + n_off[0])
    t = c.f['tolerance']
    w = lambda k: within(on, of, t.f[k + '_upper_ratio_bps'].raw, t.f[k + '_lower_ratio_bps'].raw)
    avg = fdiv(add(on, of), 2)
    O('price: lp: pair is an xExchange pair', eq(c.f['exchange_source'].tag, X('XExchange')))
    O('price: lp: value at pool prices within the first tolerance band', Implies(w('first'), eq(P, on)))
    O('price: lp: average of both values otherwise', Implies(Not(w('first')), eq(P, avg)))
    O('price: lp: outside both bands only with permission for unsafe prices', Or(u, w('first'), w('last')))


def v_cache_new(ck):
    """a transaction starts with empty caches, a fresh EGLD/USD price and the aggregator on record"""
    fn = ck.prog.impl(CR, 'Cache', 'new')

    def thunk(ex):
        c = ex.val(ex.inline_call(fn, [SELF], 'Cache::new'))
        O = ex.oblige
        for k, v in scalars(ex).items():
            O(f'cache: {k} read from storage', leaf_eq(c.f[k], v))
        eo = ex.read_cell('token_oracle', (EGLD,), ORACLE)
        for k, el in canon(False).items():
            O(f'cache: {k} starts without a base', c.f[k].base is None)
            for key, v in c.f[k].writes:
                O(f'cache: {k} entry is the canonical value', leaf_eq(v, el(ex, tuple(ex.keyterms([key])))))
        fe = [e for e in ex.trace if e['kind'] == 'feed']
        O('price: one EGLD/USD quote, never a stale one', And(len(fe) == 1, *[And(eq(e['ticker'], EGLD), Not(e['unsafe']),
          eq(e['stale'], eo.f['max_price_stale_seconds'].t)) for e in fe]))
    ck.run('Cache::new', CR, thunk, ctl.config(ck, ctl.BASE + ('aggregator_price_feed',)))


def resolution(ck):
    v_cache_new(ck)
    for n in ('token_price', 'aggregator_price_feed', 'Cache::cached_oracle'):
        ck.verify_contract(n)
