"""Configuration of the controller: who may change it, what is written, which values are accepted."""
from terms import *
from values import *
from engine import *
from contracts import *
import ctl
from ctl import CR, TOK, path_ty, px
from controller import (config, eqb, veq, cfg_of, User, storage_hook, U8, U64, BIG, ADDR, BOOL, FIELDS, B, raw)

PCT_ = {'max_first': 5000}
CAT = path_ty('EModeCategory')
EASSET = path_ty('EModeAssetConfig')
TOKT = path_ty(TOK)
USZ = path_ty('usize')
NUM = path_ty('ManagedDecimal', path_ty('NumDecimals'))


def categories():
    return Mapper('MapMapper', 'e_mode_category', (), [U8, CAT])


def members(cat):
    return Mapper('MapMapper', 'e_mode_assets', (cat,), [TOKT, EASSET])


def modes(tok):
    return Mapper('UnorderedSetMapper', 'asset_e_modes', (tok,), [U8])


def oracle_set(ex, tok):
    return Not(ex.cell_empty('token_oracle', (tok,), path_ty('OracleProvider')))


def config_set(ex, tok):
    return Not(ex.cell_empty('asset_config', (tok,), path_ty('AssetConfig')))


def pool_set(ex, tok):
    return Not(ex.cell_empty('pools_map', (tok,), ADDR))


def events(trace):
    """events of a trace and of every loop path inside it"""
    for e in trace:
        yield e
        if e['kind'] == 'loop':
            for tr, _, _ in e['paths']:
                yield from events(tr)


class Op:
    """one administrative operation"""
    owner = True
    need = ()

    def __init__(s, ep, allowed, post=None, pre=None, args=None, money=()):
        s.ep, s.allowed, s.post, s.pre, s.args, s.money = ep, allowed, post, pre, args, money


class Free:
    def external(self, ex, d):
        return NotImplemented


def run_op(ck, op):
    fn = ck.by_endpoint(CR, op.ep)
    hold = [None]

    class Ext:
        def external(self, ex, d):
            return op.money(ex, d) if callable(op.money) else NotImplemented
    hold[0] = Ext()

    def th(ex):
        ps = [p for p in fn.sig['a'] if not p.get('self')]
        a = [ex.fresh(p['t'], f'arg.{i}') for i, p in enumerate(ps)]
        s0 = dict(storage=dict(ex.storage), epoch=dict(ex.epoch))
        before = op.pre(ex, a) if op.pre else None
        ck.endpoint_fn(ex, fn, a)
        O = ex.oblige
        O('owner: caller is the owner', eq(ex.const_leaf('caller', 'ManagedAddress').t, ex.const_leaf('owner_address', 'ManagedAddress').t))
        allowed = op.allowed(ex, a)
        for e in events(ex.trace):
            if e['kind'] == 'write':
                keys = allowed.get(e['cell'])
                O(f"writes: {e['cell']} only where named", keys is not None and Or(*[
                    And(len(k) <= len(e['keys']), *[eq(x, y) for x, y in zip(k, e['keys'])]) for k in keys]))
            elif e['kind'] in ('transfer', 'nft_burn', 'nft_create', 'burn', 'transfer_vec'):
                O('writes: no funds move', False)
            elif e['kind'] == 'call' and e.get('end') != 'sync_call_readonly' and not op.money:
                O('writes: no other contract is called', False)
        for c in sorted(set(ex.storage)):
            if not c.startswith('ext:') and ex.storage[c]:
                O(f'writes: {c} only where named', c in allowed)
        if op.post:
            op.post(ex, a, before)
    ck.run(op.ep, CR, th, config(ck, hold))


# ------------------------------------------------------------------ contract addresses
def setter(ep, cell):
    def post(ex, a, _):
        O = ex.oblige
        O('config: zero address refused', Not(eq(a[0].t, ZERO_ADDR)))
        O('config: address is a contract', ex.leaf('is_smart_contract', (a[0].t,), z3.BoolSort()))
        O('config: address recorded', eq(ex.read_cell(cell, (), ADDR).t, a[0].t))
    return Op(ep, lambda ex, a: {cell: [()]}, post)


SETTERS = [setter('setAggregator', 'price_aggregator_address'), setter('setSwapRouter', 'swap_router_address'),
           setter('setAccumulator', 'accumulator_address'), setter('setSafePriceView', 'safe_price_view'),
           setter('setLiquidityPoolTemplate', 'liq_pool_template_address')]


# ------------------------------------------------------------------ oracles
def bounds(ex, tol, first, last):
    O = ex.oblige
    O('config: first tolerance within 0.5 % .. 50 %', And(ge(first, 50), le(first, 5000)))
    O('config: last tolerance within 1.5 % .. 100 %', And(ge(last, 150), le(last, 10000)))
    O('config: last tolerance covers the first', ge(last, first))
    for nm, t in (('first', first), ('last', last)):
        up, lo = tol.f[nm + '_upper_ratio_bps'], tol.f[nm + '_lower_ratio_bps']
        O(f'config: {nm} tolerance range', And(eq(up.scale, 4), eq(lo.scale, 4), eq(up.raw, add(BPS, t)), eq(lo.raw, divh(4, BPS, add(BPS, t)))))
        O(f'config: {nm} tolerance range holds the anchor', And(lt(lo.raw, BPS), gt(up.raw, BPS), gt(lo.raw, 0)))


def oracle_pre(ex, a):
    return dict(set=oracle_set(ex, a[0].t))


def oracle_post(ex, a, b):
    import oracle
    O = ex.oblige
    O('config: an oracle is set only once', Not(b['set']))
    o = ex.read_cell('token_oracle', (a[0].t,), path_ty('OracleProvider'))
    O('config: oracle recorded', And(eq(o.f['asset_decimals'].t, a[1].t), eq(o.f['oracle_contract_address'].t, a[2].t),
                                     eq(o.f['pricing_method'].tag, a[3].tag), eq(o.f['oracle_type'].tag, a[4].tag),
                                     eq(o.f['exchange_source'].tag, a[5].tag), eq(o.f['max_price_stale_seconds'].t, a[8].t),
                                     eq(o.f['onedex_pair_id'].t, ite(a[9].some, a[9].v.t, 0))))
    bounds(ex, o.f['tolerance'], a[6].t, a[7].t)


def tolerance_post(ex, a, b):
    O = ex.oblige
    O('config: oracle exists', b['set'])
    o, q = ex.read_cell('token_oracle', (a[0].t,), path_ty('OracleProvider')), b['old']
    O('config: nothing but the tolerance changes', And(*[veq(o.f[k], q.f[k]) for k in q.f if k != 'tolerance']))
    bounds(ex, o.f['tolerance'], a[1].t, a[2].t)


ORACLE = [Op('setTokenOracle', lambda ex, a: {'token_oracle': [(a[0].t,)]}, oracle_post, oracle_pre),
          Op('editTokenOracleTolerance', lambda ex, a: {'token_oracle': [(a[0].t,)]}, tolerance_post,
             lambda ex, a: dict(set=oracle_set(ex, a[0].t), old=ex.read_cell('token_oracle', (a[0].t,), path_ty('OracleProvider'))))]


# ------------------------------------------------------------------ assets
def cap(v, arg):
    return And(eqb(v.some, Not(eq(arg, 0))), Implies(Not(eq(arg, 0)), eq(v.v.t, arg) if v.v is not None else False))


def bps(d, t):
    return And(eq(d.raw, t), eq(d.scale, 4))


def params(c, ltv, thr, bonus, fees, isolated, ceiling, siloed, flash, fee, coll, borr, iso_borrow, bcap, scap, emode):
    g = c.f
    return {'risk parameters': And(bps(g['loan_to_value_bps'], ltv.t), bps(g['liquidation_threshold_bps'], thr.t), bps(g['liquidation_bonus_bps'], bonus.t),
                                   bps(g['liquidation_fees_bps'], fees.t), bps(g['flashloan_fee_bps'], fee.t)),
            'flags': And(*[eqb(g[k].t, v.t) for k, v in (('is_isolated_asset', isolated), ('is_siloed_borrowing', siloed), ('is_flashloanable', flash),
                                                         ('is_collateralizable', coll), ('is_borrowable', borr), ('isolation_borrow_enabled', iso_borrow))]),
            'debt ceiling': And(eq(g['isolation_debt_ceiling_usd_wad'].raw, ceiling.t), eq(g['isolation_debt_ceiling_usd_wad'].scale, 18)),
            'caps, zero meaning none': And(cap(g['borrow_cap_wad'], bcap.t), cap(g['supply_cap_wad'], scap.t)),
            'e-mode flag': eqb(g['e_mode_enabled'].t, emode)}


def asset_pre(ex, a):
    return dict(pool=pool_set(ex, a[0].t), cfg=config_set(ex, a[0].t), old=cfg_of(ex, a[0].t))


def asset_post(ex, a, b):
    O = ex.oblige
    O('config: asset has a market', And(b['pool'], b['cfg']))
    O('config: liquidation threshold above the loan-to-value ratio, unless both are zero', Or(gt(a[2].t, a[1].t), And(eq(a[1].t, 0), eq(a[2].t, 0))))
    c = cfg_of(ex, a[0].t)
    for k, v in params(c, a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], b['old'].f['e_mode_enabled'].t).items():
        O(f'config: {k} recorded', v)


def limits_post(ex, a, _):
    l = ex.read_cell('position_limits', (), path_ty('PositionLimits'))
    ex.oblige('config: limits recorded', And(eq(l.f['max_borrow_positions'].t, a[0].t), eq(l.f['max_supply_positions'].t, a[1].t)))


ASSETS = [Op('editAssetConfig', lambda ex, a: {'asset_config': [(a[0].t,)]}, asset_post, asset_pre),
          Op('setPositionLimits', lambda ex, a: {'position_limits': [()]}, limits_post)]


# ------------------------------------------------------------------ e-mode
def membership(ex, tok, cat):
    """the two indexes of e-mode membership agree, and the asset's flag says whether there is any"""
    inn = ex.map_get(members(cat), (tok,)).some
    on = ex.coll_has(modes(tok), (cat,))
    return And(eqb(inn, on))


def flag(ex, tok):
    return eqb(cfg_of(ex, tok).f['e_mode_enabled'].t, Not(eq(ex.coll_len(modes(tok)), 0)))


def witness(ex):
    return z3.Const('sk.token', U), z3.Int('sk.category')


def same_member(ex, b, tok, cat):
    p, q = ex.map_get(members(cat), (tok,)), b
    return And(eqb(p.some, q.some), Implies(q.some, veq(p.v, q.v) if p.v is not None and q.v is not None else False))


def em_state(ex, tok, cat):
    t, c = witness(ex)
    ex.fact(And(c >= 0, c < 256))
    # the two indexes agree before the operation
    ex.assume(membership(ex, t, c)); ex.assume(flag(ex, t))
    ex.assume(membership(ex, tok, cat)); ex.assume(flag(ex, tok))
    return dict(t=t, c=c, other=ex.map_get(members(c), (t,)), oth=cfg_of(ex, t), mine=cfg_of(ex, tok),
                cat=ex.map_get(categories(), (cat,)), ocat=ex.map_get(categories(), (c,)), pool=pool_set(ex, tok),
                inn=ex.map_get(members(cat), (tok,)))


def em_kept(ex, b, tok, cat, others=True):
    """consistency of the membership indexes, and everything the operation does not name stays"""
    O = ex.oblige
    t, c = b['t'], b['c']
    O('emode: the asset lists the category exactly when the category lists the asset', membership(ex, t, c))
    O('emode: the asset is flagged exactly when it is in some category', flag(ex, t))
    if others:
        O('emode: other memberships unchanged', Implies(Not(And(eq(t, tok), eq(c, cat))), same_member(ex, b['other'], t, c)))
    now = cfg_of(ex, t)
    O('emode: nothing but the e-mode flag of an asset changes', And(*[veq(now.f[k], b['oth'].f[k]) for k in now.f if k != 'e_mode_enabled']))


def add_asset_post(ex, a, b):
    O = ex.oblige
    tok, cat = a[0].t, a[1].t
    O('emode: category exists and asset has a market', And(b['cat'].some, b['pool']))
    O('emode: asset is not yet in the category', Not(b['inn'].some))
    v = ex.map_get(members(cat), (tok,))
    O('emode: membership recorded as given', And(v.some, eqb(v.v.f['is_collateralizable'].t, a[2].t), eqb(v.v.f['is_borrowable'].t, a[3].t)))
    em_kept(ex, b, tok, cat)


def edit_member_post(ex, a, b):
    O = ex.oblige
    tok, cat = a[0].t, a[1].t
    O('emode: asset is in the category', b['inn'].some)
    v = ex.map_get(members(cat), (tok,))
    O('emode: membership recorded as given', And(v.some, veq(v.v, a[2]) if v.v is not None else False))
    em_kept(ex, b, tok, cat)


def remove_member_post(ex, a, b):
    O = ex.oblige
    tok, cat = a[0].t, a[1].t
    O('emode: asset is in the category', b['inn'].some)
    O('emode: asset leaves the category', Not(ex.map_get(members(cat), (tok,)).some))
    em_kept(ex, b, tok, cat)


def cat_state(ex, a):
    c = z3.Int('sk.category')
    ex.fact(And(c >= 0, c < 256))
    last = ex.read_cell('last_e_mode_category_id', (), U8)
    ex.assume(Implies(ex.map_get(categories(), (c,)).some, And(c >= 1, le(c, last.t))))
    ex.assume(Implies(ex.map_get(categories(), (c,)).some, eq(ex.map_get(categories(), (c,)).v.f['category_id'].t, c)))
    return dict(c=c, last=last.t, old=ex.map_get(categories(), (c,)))


def cat_kept(ex, b, cat):
    O = ex.oblige
    now = ex.map_get(categories(), (b['c'],))
    O('emode: other categories unchanged', Implies(Not(eq(b['c'], cat)), And(eqb(now.some, b['old'].some), Implies(now.some, veq(now.v, b['old'].v)))))
    O('emode: a category is stored under its own number', Implies(now.some, eq(now.v.f['category_id'].t, b['c'])))
    O('emode: categories are never forgotten', Implies(b['old'].some, now.some))
    O('emode: category numbers stay within the counter', Implies(now.some, And(b['c'] >= 1, le(b['c'], ex.read_cell('last_e_mode_category_id', (), U8).t))))


def add_cat_pre(ex, a):
    b = cat_state(ex, a)
    ex.assume(lt(b['last'], 255))
    b['taken'] = ex.map_get(categories(), (add(b['last'], 1),)).some
    ex.assume(Implies(b['taken'], le(add(b['last'], 1), b['last'])))
    return b


def add_cat_post(ex, a, b):
    O = ex.oblige
    k = add(b['last'], 1)
    v = ex.map_get(categories(), (k,))
    O('emode: new category gets a number of its own', And(v.some, Not(b['taken']), eq(ex.read_cell('last_e_mode_category_id', (), U8).t, k)))
    O('emode: new category recorded as given, live', And(bps(v.v.f['loan_to_value_bps'], a[0].t), bps(v.v.f['liquidation_threshold_bps'], a[1].t),
                                                         bps(v.v.f['liquidation_bonus_bps'], a[2].t), Not(v.v.f['is_deprecated'].t)))
    cat_kept(ex, b, k)


def edit_cat_pre(ex, a):
    b = cat_state(ex, a)
    b['had'] = ex.map_get(categories(), (a[0].f['category_id'].t,)).some
    ex.assume(Implies(b['had'], And(ge(a[0].f['category_id'].t, 1), le(a[0].f['category_id'].t, b['last']))))
    return b


def edit_cat_post(ex, a, b):
    k = a[0].f['category_id'].t
    v = ex.map_get(categories(), (k,))
    ex.oblige('emode: only an existing category is edited', b['had'])
    ex.oblige('emode: category recorded as given', And(v.some, veq(v.v, a[0]) if v.v is not None else False))
    cat_kept(ex, b, k)


def rm_cat_pre(ex, a):
    b = cat_state(ex, a)
    b['mine'] = ex.map_get(categories(), (a[0].t,))
    b['last_ok'] = ex.assume(Implies(b['mine'].some, And(ge(a[0].t, 1), le(a[0].t, b['last']), eq(b['mine'].v.f['category_id'].t, a[0].t))))
    return b


def rm_cat_post(ex, a, b):
    O = ex.oblige
    k = a[0].t
    v = ex.map_get(categories(), (k,))
    O('emode: only an existing category is removed', b['mine'].some)
    O('emode: removed category is marked deprecated, its parameters kept', And(v.some, v.v.f['is_deprecated'].t, *[
        veq(v.v.f[f], b['mine'].v.f[f]) for f in v.v.f if f != 'is_deprecated']))
    cat_kept(ex, b, k)


def toks(ex, a):
    return {'e_mode_assets': [(a[1].t, a[0].t), (a[1].t,)], 'asset_e_modes': [(a[0].t,)], 'asset_config': [(a[0].t,)]}


EMODE = [
    Op('addEModeCategory', lambda ex, a: {'e_mode_category': [()], 'last_e_mode_category_id': [()]}, add_cat_post, add_cat_pre),
    Op('editEModeCategory', lambda ex, a: {'e_mode_category': [(a[0].f['category_id'].t,)]}, edit_cat_post, edit_cat_pre),
    Op('removeEModeCategory', lambda ex, a: {'e_mode_category': [(a[0].t,)], 'e_mode_assets': [(a[0].t,)], 'asset_e_modes': [()], 'asset_config': [()]},
       rm_cat_post, rm_cat_pre),
    Op('addAssetToEModeCategory', toks, add_asset_post, lambda ex, a: em_state(ex, a[0].t, a[1].t)),
    Op('editAssetInEModeCategory', lambda ex, a: {'e_mode_assets': [(a[1].t, a[0].t)]}, edit_member_post, lambda ex, a: em_state(ex, a[0].t, a[1].t)),
    Op('removeAssetFromEModeCategory', toks, remove_member_post, lambda ex, a: em_state(ex, a[0].t, a[1].t)),
]


# ------------------------------------------------------------------ liquidity pools
DEPLOYED = 'deployed.pool'


def pool_calls(ex):
    return [e for e in events(ex.trace) if e['kind'] == 'call' and e.get('end') != 'sync_call_readonly']


def deploy(ex, d):
    """the deployed contract runs the verified initialiser of the pool (P09), which calls nobody"""
    if d.get('method') == 'init':
        return Opq(ex.leaf(DEPLOYED, (), U), 'ManagedAddress')
    if d.get('method') in ('update_params', 'add_reward'):
        return UNIT
    return NotImplemented


def template(ex):
    return Not(ex.cell_empty('liq_pool_template_address', (), ADDR)), ex.read_cell('liq_pool_template_address', (), ADDR).t


def create_pre(ex, a):
    o = ex.read_cell('token_oracle', (a[0].t,), path_ty('OracleProvider'))
    return dict(pool=pool_set(ex, a[0].t), tmpl=template(ex), dec=o.f['asset_decimals'].t, oracle=oracle_set(ex, a[0].t))


RATES = 8


def create_post(ex, a, b):
    O = ex.oblige
    t = a[0].t
    O('market: one per asset', Not(b['pool']))
    O('market: token identifier is valid', ex.leaf('token_is_valid', (t,), z3.BoolSort()))
    O('market: the asset has an oracle', b['oracle'])
    O('market: liquidation threshold above the loan-to-value ratio', gt(a[10].t, a[9].t))
    c = pool_calls(ex)
    addr = ex.leaf(DEPLOYED, (), U)
    ok = len(c) == 1 and c[0].get('method') == 'init' and len(c[0]['args']) == RATES + 2
    O('market: exactly one contract is deployed', ok)
    if ok:
        w = c[0]['args']
        O('market: deployed from the pool template', And(b['tmpl'][0], eq(c[0].get('source'), b['tmpl'][1]) if c[0].get('source') is not None else False))
        O('market: pool initialised for the asset with the given rates', And(eq(w[0].t, t), *[eq(w[i].t, a[i].t) for i in range(1, RATES + 1)]))
        O('market: pool initialised with the decimals of the oracle', eq(w[RATES + 1].t, b['dec']))
    O('market: pool recorded', And(eq(ex.read_cell('pools_map', (t,), ADDR).t, addr), Not(eq(addr, ZERO_ADDR)),
                                   ex.coll_has(Mapper('UnorderedSetMapper', 'pools', (), [ADDR]), (addr,))))
    d = ex.read_cell('isolated_asset_debt_usd', (t,), NUM)
    O('market: isolated debt starts at zero dollars (WAD)', And(eq(d.raw, 0), eq(d.scale, 18)))
    for k, v in params(cfg_of(ex, t), a[9], a[10], a[11], a[12], a[15], a[16], a[18], a[19], a[17], a[13], a[14], a[20], a[22], a[23], False).items():
        O(f'market: {k} recorded', v)


def created(ex, a):
    t = a[0].t
    return {'pools_map': [(t,)], 'pools': [()], 'isolated_asset_debt_usd': [(t,)], 'asset_config': [(t,)]}


def to_pool(ex, a, b, method, n):
    O = ex.oblige
    c = pool_calls(ex)
    O('market: the asset has a pool', b['pool'])
    ok = len(c) == 1 and c[0].get('method') == method and len(c[0].get('args', ())) == n
    O(f'market: exactly one call, {method}', ok)
    if not ok:
        return None
    O('market: the call goes to the pool of the asset', eq(c[0]['to'], b['addr']))
    return c[0]


def pool_pre(ex, a):
    return dict(pool=pool_set(ex, a[0].t), addr=ex.read_cell('pools_map', (a[0].t,), ADDR).t, tmpl=template(ex))


def upgrade_post(ex, a, b):
    c = to_pool(ex, a, b, 'upgrade', 0)
    if c is not None:
        ex.oblige('market: upgraded from the pool template', And(b['tmpl'][0], eq(c['source'], b['tmpl'][1]) if c.get('source') is not None else False))


def rates_post(ex, a, b):
    c = to_pool(ex, a, b, 'update_params', RATES + 1)
    if c is not None:
        w = c['args']
        ex.oblige('market: rates passed on as given', And(*[eq(w[i].t, a[i + 1].t) for i in range(RATES)]))
        ex.oblige('market: resolved price passed on', And(eq(w[RATES].raw, px(ex, a[0].t, True)), eq(w[RATES].scale, 18)))


def reward_pre(ex, a):
    p = ex.fresh_payment('cv.at', (0,))
    b = pool_pre(ex, [p.f['token_identifier']])
    b['pay'], b['acc'] = p, Not(ex.cell_empty('accumulator_address', (), ADDR))
    return b


def reward_post(ex, a, b):
    c = to_pool(ex, [b['pay'].f['token_identifier']], b, 'add_reward', 1)
    ex.oblige('market: accumulator is configured', b['acc'])
    if c is not None:
        pay, p = c.get('pay', ()), b['pay'].f
        ex.oblige('market: the whole payment becomes the reward', len(pay) == 1 and And(
            eq(pay[0][0], p['token_identifier'].t), eq(pay[0][1], p['token_nonce'].t), eq(pay[0][2], p['amount'].t)))
        ex.oblige('market: resolved price passed on', And(eq(c['args'][0].raw, px(ex, p['token_identifier'].t, True)), eq(c['args'][0].scale, 18)))


NONE = lambda ex, a: {}


def init(ck):
    fn = ck.by_endpoint(CR, 'init')

    def th(ex):
        a = [ex.fresh(ADDR, f'arg.{i}') for i in range(len([p for p in fn.sig['a'] if not p.get('self')]))]
        ck.endpoint_fn(ex, fn, a)
        O = ex.oblige
        for i, c in enumerate(('liq_pool_template_address', 'price_aggregator_address', 'safe_price_view', 'accumulator_address', 'swap_router_address')):
            O(f'config: {c} recorded', eq(ex.read_cell(c, (), ADDR).t, a[i].t))
        l = ex.read_cell('position_limits', (), path_ty('PositionLimits'))
        O('config: position limits start above zero', And(gt(l.f['max_borrow_positions'].t, 0), gt(l.f['max_supply_positions'].t, 0)))
    ck.run('init', CR, th, config(ck, [Free()]))


USER_CELLS = ('positions', 'accounts', 'account', 'account_attributes', 'account_nonce', 'isolated_asset_debt_usd', 'flash_loan_ongoing')
USERS = ('supply', 'withdraw', 'borrow', 'repay', 'liquidate', 'flashLoan', 'updateAccountThreshold', 'updateIndexes', 'cleanBadDebt', 'claimRevenue',
         'multiply', 'swapDebt', 'swapCollateral', 'repayDebtWithCollateral')


def name_of(fn):
    for a in fn.attrs:
        h = a.split('(')[0].strip()
        if h in ('endpoint', 'view') and '(' in a:
            return a[a.index('(') + 1:a.rindex(')')].strip().strip('"')
    return fn.name


def others(ck):
    """an entry point that is neither administrative nor one of the known user operations may not touch the configuration, unless the caller is the owner"""
    known = {o.ep for o in ALL} | set(USERS)
    for kind, fn in ck.prog.endpoint_fns(CR):
        if kind != 'endpoint' or name_of(fn) in known or fn.body is None:
            continue

        def th(ex, fn=fn):
            ck.endpoint_fn(ex, fn, [ex.fresh(p['t'], f'arg.{i}') for i, p in enumerate(q for q in fn.sig['a'] if not q.get('self'))])
            own = eq(ex.const_leaf('caller', 'ManagedAddress').t, ex.const_leaf('owner_address', 'ManagedAddress').t)
            for c in sorted({e['cell'] for e in events(ex.trace) if e['kind'] == 'write'} | {c for c in ex.storage if ex.storage[c]}):
                if not c.startswith('ext:') and c not in USER_CELLS:
                    ex.oblige(f'owner: {c} written by the owner only', own)
        ck.run('other ' + name_of(fn), CR, th, config(ck, [Free()]), need_ok=False)
POOLS = [Op('createLiquidityPool', created, create_post, create_pre, money=deploy), Op('upgradeLiquidityPool', NONE, upgrade_post, pool_pre, money=deploy),
         Op('upgradeLiquidityPoolParams', NONE, rates_post, pool_pre, money=deploy)]
REWARDS = Op('addRewards', NONE, reward_post, reward_pre, money=deploy)
TOKENS = Op('registerAccountToken', lambda ex, a: {'account': [()]}, money=lambda ex, d: NotImplemented)
ALL = SETTERS + ORACLE + ASSETS + EMODE + POOLS + [REWARDS, TOKENS]


def run_ops(ops):
    def run(ck):
        for o in ops:
            run_op(ck, o)
    return run


def one(ep):
    return lambda ck: run_ops([o for o in ALL if o.ep == ep])(ck)


for _o in ALL:
    globals()[_o.ep] = one(_o.ep)
