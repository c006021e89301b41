"""Contracts inside the controller: prices, market indexes, cached storage reads."""
from terms import *
from values import *
from engine import *
from contracts import *
import contracts as K
from vm import VM

CR = 'controller'
TOK = 'EgldOrEsdtTokenIdentifier'


def path_ty(n, *g):
    return {'k': 'path', 'p': [[n, list(g)]]}


# ------------------------------------------------------------------ abstract quantities of one transaction
def px(ex, tok, unsafe):
    """EGLD price (WAD) of one whole token, as resolved by the oracle with / without permission to use unsafe prices"""
    t = ex.leaf('px', (tok, z(unsafe)), I)
    ex.fact(t >= 0)
    return t


def pxdec(ex, tok):
    t = ex.leaf('pxdec', (tok,), I)
    ex.fact(t >= 0); ex.fact(t <= 18)
    return t


def mi(ex, tok, side):
    t = ex.leaf('index.' + side, (tok,), I)
    ex.fact(t >= (RAY if side == 'borrow' else 1))
    return t


def tokterm(v):
    return v.t


def s_token_price(ex, a):
    tok, cache = a[0], a[1]
    fl = cache.f['allow_unsafe_price'].t
    ex.event('price', tok=tok.t, unsafe=fl)
    return [], Struct('PriceFeedShort', {'price_wad': Dec(px(ex, tok.t, fl), 18), 'asset_decimals': Int(pxdec(ex, tok.t), 'usize')}), []


def s_market_index(ex, a):
    tok = a[1]
    return [], Struct('MarketIndex', {'borrow_index_ray': Dec(mi(ex, tok.t, 'borrow'), 27),
                                      'supply_index_ray': Dec(mi(ex, tok.t, 'supply'), 27)}), []


def feed(ex, ticker):
    t = ex.leaf('feed.price', (ticker,), I)
    ex.fact(t >= 0)
    return t


def usdpx(ex):
    """USD price (WAD) of one EGLD in this transaction"""
    return feed(ex, EGLD)


def s_aggregator_price_feed(ex, a):
    tick = a[0].t
    ex.event('feed', ticker=tick, stale=a[2].t, unsafe=a[3].t)
    r = ex.fresh(path_ty('PriceFeed'), 'feed', (tick,))
    return [], r, []


def storage_read(cell, ty):
    def s(ex, a):
        v = ex.m_Mapper('get', None, Mapper('SingleValueMapper', cell, (a[1].t,), [ty]), [], None)
        return [], v, []
    return s


def s_cached_oracle(ex, a):
    import oracle
    return [], oracle.oracle_of(ex, a[1].t), []


def contracts():
    import importlib

    def V(n, *a):
        def v(ck):
            f = getattr(importlib.import_module('oracle'), n)
            (f(*a) if a else f)(ck)
        return v
    C = lambda n, f, v, by=None: Contract(n, f, crate=CR, verify=v, by=by)
    L = [
        C('token_price', s_token_price, V('v_token_price'), 'C19'),
        C('aggregator_price_feed', s_aggregator_price_feed, V('v_aggregator_price_feed'), 'C19'),
        C('Cache::cached_oracle', s_cached_oracle, V('v_cached_oracle'), 'C19'),
        C('Cache::cached_market_index', s_market_index, V('v_market_index')),
        C('Cache::cached_asset_info', storage_read('asset_config', path_ty('AssetConfig')), V('v_read', 'Cache::cached_asset_info', 'asset_config', path_ty('AssetConfig'))),
        C('Cache::cached_pool_address', storage_read('pools_map', path_ty('ManagedAddress')), V('v_read', 'Cache::cached_pool_address', 'pools_map', path_ty('ManagedAddress'))),
    ]
    return {c.name: c for c in L}


SCALES = {'st:isolated_asset_debt_usd': 18, 'st:ext:supplied': 27, 'st:ext:borrowed': 27, 'st:ext:revenue': 27, 'st:ext:borrow_index': 27, 'st:ext:supply_index': 27}
BASE = ('mul_half_up', 'div_half_up', 'rescale_half_up')
CORE = BASE + ('mul_half_up_signed', 'div_half_up_signed', 'token_price', 'aggregator_price_feed', 'Cache::cached_market_index', 'Cache::cached_asset_info', 'Cache::cached_pool_address')


def config(ck, use=CORE, **kw):
    kw.setdefault('scales', dict(SCALES))
    return ck.cfg(CR, use, **kw)


K.CONTRACTS.update(contracts())
