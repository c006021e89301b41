"""Contracts of the controller's maintenance entry points: bad debt, thresholds, flash loans, indexes, revenue."""
from terms import *
from values import *
from engine import *
from contracts import *
import ctl
from ctl import CR, TOK, px, pxdec, mi, path_ty, usdpx
from controller import *


def snapshot(ex):
    return dict(storage=dict(ex.storage), epoch=dict(ex.epoch))


def usd_ray(ex, egld):
    """USD value (WAD) of an EGLD amount in RAY"""
    return rh(mulh(27, egld, rs(usdpx(ex), 18, 27)), 27, 18)


def position_hook(hold):
    """cut a loop over positions at an arbitrary one"""
    def hook(ex, x, tag):
        s = hold[0]
        x = ex.val(x)
        if isinstance(x, Tup) and len(x.e) == 2:
            x = ex.val(x.e[1])
        if not (isinstance(x, Struct) and x.n == 'AccountPosition') or not s.started or ex.ghost.get('inpos'):
            return None
        ex.ghost['inpos'] = True
        ex.ghost['calls'] = ()
        s.iso_mark(ex)

        def end():
            ex.ghost['inpos'] = False
            c = ex.ghost['calls']
            if c:
                ex.oblige('clean: each position is written off once', len(c) == 1 and And(veq(c[0].pos, x)))
        return end
    return hook


# -------------------------------------------------------------------- cleanBadDebt
class Clean(User):
    def on_seize_position(s, ex, c):
        v = s.attr0.f['isolated_token'].v
        if v is None:
            return
        iso = s.attr0.f['is_isolated_position'].t
        O = ex.oblige
        now = isolated_debt(ex, v.t).raw
        usd = usd_ray(ex, value(ex, c.pos, BORROW, s.unsafe))
        left = ite(gt(s.iso_start.raw, usd), sub(s.iso_start.raw, usd), 0)
        debt_ = And(iso, eq(c.side, BORROW))
        O('isolation: isolated debt falls by the USD value written off', Implies(debt_, eq(now, ite(eq(usd, 0), s.iso_start.raw, ite(lt(left, WAD), 0, left)))))
        O('isolation: no other debt counter moves', And(*[And(debt_, eq(e['keys'][0], v.t)) for e in ex.trace
                                                            if e['kind'] == 'write' and e['cell'] == 'isolated_asset_debt_usd']))

    def seized(s, ex, side):
        """every stored position of the side is met by a loop that writes it off"""
        t = z3.Const('sk.token', U)
        m = positions(s.nonce, side)

        def f():
            b = ex.cell_base(m.name)
            pos = ex.leaf(b + '.posof', m.keys + (t,), I)
            has = ex.leaf(b + '.has', m.keys + (t,), z3.BoolSort())
            ex.fact(z(located(ex, m, t)))
            hit = []
            for e in ex.trace:
                if e['kind'] != 'loop' or e.get('it') is None:
                    continue
                paths = [tr for tr, _, k in e['paths'] if k in ('ok', 'continue')]
                if not paths or not all(any(c['kind'] == 'call' and c.get('method') == 'seize_position' for c in tr) for tr in paths):
                    continue
                x = ex.val(ex.iter_elem(e['it'], pos))
                if isinstance(x, Tup):
                    x = ex.val(x.e[1])
                if isinstance(x, Struct) and x.n == 'AccountPosition':
                    hit.append(And(le(e['lo'], pos), lt(pos, e['hi']), eq(x.f['asset_id'].t, t), eq(x.f['position_type'].tag, side)))
            return Implies(has, Or(*hit) if hit else False)
        return in_state(ex, s.snap0, f)


def clean(ck):
    fn = ck.by_endpoint(CR, 'cleanBadDebt')
    hold = [None]

    def th(ex):
        s = hold[0] = Clean(ck, ex, 'clean')
        s.unsafe = False
        n = ex.fresh(U64, 'arg.nonce')
        s.nonce = n.t
        account_state(s, ex)
        s.snap0 = snapshot(ex)
        owed = usd_ray(ex, debt(ex, s.nonce, False))
        held = usd_ray(ex, collateral(ex, s.nonce, False))
        s.started = True
        ck.endpoint_fn(ex, fn, [n])
        s.guards(ex)
        O = ex.oblige
        O('account: the account is active', s.active0)
        O('clean: only when the debt exceeds the collateral, worth at most 5 USD', And(gt(owed, held), le(held, 5 * WAD)))
        O('clean: every debt is written off in its pool', s.seized(ex, BORROW))
        O('clean: all remaining collateral is handed to its pool', s.seized(ex, DEPOSIT))
        O('clean: nothing is left in the account', And(eq(ex.coll_len(positions(s.nonce, DEPOSIT)), 0), eq(ex.coll_len(positions(s.nonce, BORROW)), 0)))
        O('account: the account is closed', And(Not(active(ex, s.nonce)), ex.cell_empty('account_attributes', (s.nonce,), path_ty('AccountAttributes'))))
        other = z3.Int('sk.account')
        for side in (DEPOSIT, BORROW):
            t = z3.Const('sk.token', U)
            now, was = stored(ex, other, side, t), in_state(ex, s.snap0, lambda: stored(ex, other, side, t))
            O('frame: other accounts keep their positions', Implies(Not(eq(other, s.nonce)), And(eqb(now.some, was.some), Implies(was.some, veq(now.v, was.v) if now.v is not None and was.v is not None else False))))
        O('frame: other accounts stay open', Implies(Not(eq(other, s.nonce)), eqb(active(ex, other), in_state(ex, s.snap0, lambda: active(ex, other)))))
        O('clean: nothing is paid out', And(*[e['kind'] not in ('transfer', 'transfer_vec', 'nft_create') for e in ex.trace]))
        s.frame(ex, ('positions', 'accounts', 'account_attributes', 'isolated_asset_debt_usd'))
    ck.run('cleanBadDebt', CR, th, config(ck, hold, iter_hook=position_hook(hold)))


# ---------------------------------------------------------- updateAccountThreshold
class Threshold(User):
    pass


def threshold(ck):
    fn = ck.by_endpoint(CR, 'updateAccountThreshold')
    hold = [None]

    def hook(ex, x, tag):
        s = hold[0]
        x = ex.val(x)
        if not (isinstance(x, Int) and x.k == 'u64') or not s.started or ex.ghost.get('inacc'):
            return None
        ex.ghost['inacc'] = True
        ex.ghost['calls'] = ()
        s.nonce = x.t
        account_state(s, ex)
        was = stored(ex, s.nonce, DEPOSIT, s.token)
        R = Rules(ex, s.token, s.attr0)
        snap = snapshot(ex)

        def end():
            ex.ghost['inacc'] = False
            O = ex.oblige
            O('account: the account is active', s.active0)
            now = stored(ex, s.nonce, DEPOSIT, s.token)
            O('threshold: a position is neither opened nor closed', eqb(now.some, was.some))
            if was.v is not None and now.v is not None:
                p, q = now.v.f, was.v.f
                new = lambda k: eq(p[k].raw, R.f[k])
                old = lambda k: eq(p[k].raw, q[k].raw)
                O('threshold: amount and owner of the position unchanged', Implies(was.some, And(
                    old('scaled_amount_ray'), eq(p['account_nonce'].t, q['account_nonce'].t), eq(p['asset_id'].t, q['asset_id'].t), eq(p['position_type'].tag, q['position_type'].tag))))
                soft = ('loan_to_value_bps', 'liquidation_bonus_bps', 'liquidation_fees_bps')
                O('threshold: risky update sets the current threshold only', Implies(And(was.some, s.risky), And(new('liquidation_threshold_bps'), *[old(k) for k in soft])))
                O('threshold: safe update sets the other parameters only', Implies(And(was.some, Not(s.risky)), And(old('liquidation_threshold_bps'), *[new(k) for k in soft])))
            O('threshold: account is at least 5 % above liquidation after a risky update', Implies(And(was.some, s.risky), health_ok(ex, s.nonce, False, RAY + RAY // 20)))
            O('threshold: the category of the account is live and lists the asset', Implies(was.some, R.emode_ok))
            for e in ex.trace:
                if e['kind'] == 'write' and e['cell'] == 'positions':
                    O('threshold: no other position is written', len(e['keys']) == 3 and And(
                        eq(e['keys'][0], s.nonce), eq(e['keys'][1], DEPOSIT), eq(e['keys'][2], s.token)))
                elif e['kind'] in ('transfer', 'nft_create', 'nft_burn', 'transfer_vec') or e['kind'] == 'call' and e.get('end') != 'sync_call_readonly':
                    O('threshold: no funds move', False)
        return end

    def th(ex):
        s = hold[0] = Threshold(ck, ex, 'threshold')
        s.unsafe = False
        tok, risky = ex.fresh(path_ty(TOK), 'arg.asset'), ex.fresh(BOOL, 'arg.risky')
        s.token, s.risky = tok.t, risky.t
        ns = ex.fresh(path_ty('MultiValueEncoded', U64), 'arg.nonces')
        pool = Not(ex.cell_empty('pools_map', (s.token,), ADDR))
        s.started = True
        ck.endpoint_fn(ex, fn, [tok, risky, ns])
        s.guards(ex)
        ex.oblige('threshold: the asset has a market', pool)
        loops = [e for e in ex.trace if e['kind'] == 'loop']
        ex.oblige('threshold: every listed account is handled', len(loops) == 1 and eq(sub(loops[0]['hi'], loops[0]['lo']), ns.base.len))
        s.frame(ex, ('positions',))
    ck.run('updateAccountThreshold', CR, th, config(ck, hold, iter_hook=hook))


# -------------------------------------------------------------------- flashLoan
class Flash(User):
    def external(s, ex, d):
        if d.get('method') != 'flash_loan' or d.get('proxy') != 'LiquidityPoolProxy':
            return NotImplemented
        O = ex.oblige
        w = d['args']
        t, amount, to, endp, args = [x.t for x in s.args]
        cfg = in_state(ex, s.snap0, lambda: cfg_of(ex, t))
        O('flash loan: the asset permits flash loans', cfg.f['is_flashloanable'].t)
        O('flash loan: goes to the pool of the asset', And(s.pool, eq(d['to'], ex.read_cell('pools_map', (t,), ADDR).t), eq(w[0].t, t), not d.get('pay')))
        O('flash loan: amount as requested, above zero', And(eq(w[1].raw, amount), eq(w[1].scale, pxdec(ex, t)), gt(amount, 0)))
        O('flash loan: receiver and endpoint as requested', And(eq(w[2].t, to), eq(w[3].t, endp)))
        O('flash loan: the receiver learns who started the loan', eq(w[4].t, ex.leaf('append:b', (args, s.caller), U)))
        O('flash loan: fee rate of the asset', And(eq(w[5].raw, cfg.f['flashloan_fee_bps'].raw), eq(w[5].scale, 4)))
        O('flash loan: resolved price passed on', And(eq(w[6].raw, px(ex, t, True)), eq(w[6].scale, 18)))
        sh = lambda a: ex.leaf('shard_of', (a,), I)
        O('flash loan: receiver lives in this shard', eq(sh(to), sh(ex.const_leaf('sc_address', 'ManagedAddress').t)))
        O('flash loan: endpoint is a proper function name', And(Not(eq(endp, EMPTY_BUF)), Not(ex.leaf('is_builtin_function', (endp,), z3.BoolSort()))))
        O('flash loan: the account operations are locked while it runs', ex.read_cell('flash_loan_ongoing', (), BOOL).t)
        return NotImplemented


def flash(ck):
    fn = ck.by_endpoint(CR, 'flashLoan')
    hold = [None]

    def th(ex):
        s = hold[0] = Flash(ck, ex, 'flash')
        s.args = [ex.fresh(p['t'], f'arg.{i}') for i, p in enumerate(q for q in fn.sig['a'] if not q.get('self'))]
        s.pool = Not(ex.cell_empty('pools_map', (s.args[0].t,), ADDR))
        s.snap0 = snapshot(ex)
        ck.endpoint_fn(ex, fn, s.args)
        s.guards(ex)
        calls = [e for e in ex.trace if e['kind'] == 'call' and e.get('end') != 'sync_call_readonly']
        O = ex.oblige
        O('flash loan: exactly one loan', len(calls) == 1 and calls[0].get('method') == 'flash_loan')
        O('flash loan: the lock is released at the end', Not(ex.read_cell('flash_loan_ongoing', (), BOOL).t))
        O('flash loan: the controller itself pays nothing', And(*[e['kind'] not in ('transfer', 'transfer_vec', 'nft_create') for e in ex.trace]))
        s.frame(ex, ('flash_loan_ongoing',))
    ck.run('flashLoan', CR, th, config(ck, hold))


# -------------------------------------------------------------------- updateIndexes
def token_hook(hold, method, check):
    """cut a loop over token identifiers at an arbitrary one"""
    def hook(ex, x, tag):
        s = hold[0]
        x = ex.val(x)
        if not (isinstance(x, Opq) and x.k == TOK) or ex.ghost.get('intok'):
            return None
        ex.ghost['intok'] = True
        s.token = x.t

        def end():
            ex.ghost['intok'] = False
            calls = [e for e in ex.trace if e['kind'] == 'call' and e.get('end') != 'sync_call_readonly']
            mine = [e for e in calls if e.get('method') == method and e.get('proxy') == 'LiquidityPoolProxy']
            O = ex.oblige
            ok = len(mine) == 1
            O(f'{method}: each listed market is called once', ok)
            if ok:
                pr = mine[0]['args'][0]
                O(f'{method}: goes to the pool of the asset', And(eq(mine[0]['to'], ex.read_cell('pools_map', (x.t,), ADDR).t), not mine[0].get('pay')))
                O(f'{method}: resolved price passed on', And(eq(pr.raw, px(ex, x.t, s.unsafe)), eq(pr.scale, 18)))
            check(s, ex, calls, mine)
        return end
    return hook


def listed(s, ex, n):
    loops = [e for e in ex.trace if e['kind'] == 'loop']
    ex.oblige(f'{s.label}: every listed market is handled', len(loops) == 1 and eq(sub(loops[0]['hi'], loops[0]['lo']), n))


class Plain(User):
    def external(s, ex, d):
        return NotImplemented


def indexes(ck):
    fn = ck.by_endpoint(CR, 'updateIndexes')
    hold = [None]

    def check(s, ex, calls, mine):
        ex.oblige('update_indexes: no other contract is called', len(calls) == len(mine))

    def th(ex):
        s = hold[0] = Plain(ck, ex, 'update_indexes')
        v = ex.fresh(path_ty('MultiValueEncoded', path_ty(TOK)), 'arg.tokens')
        ck.endpoint_fn(ex, fn, [v])
        s.guards(ex)
        listed(s, ex, v.base.len)
        ex.oblige('update_indexes: no funds move', And(*[e['kind'] not in ('transfer', 'transfer_vec', 'nft_create') for e in ex.trace]))
        s.frame(ex, ())
    ck.run('updateIndexes', CR, th, config(ck, hold, iter_hook=token_hook(hold, 'update_indexes', check)))


# -------------------------------------------------------------------- claimRevenue
class Revenue(User):
    def external(s, ex, d):
        if d.get('method') == 'claim_revenue':
            s.result = ex.fresh(path_ty('EgldOrEsdtTokenPayment'), ex.fresh_name('call:claim_revenue') + '.res')
            ex.havoc_all(True)
            # the pool sends what it reports (P08)
            b = s.result.f
            ex.ghost['claimed'] = s.result
            ex.fact(ge(b['amount'].t, 0))
            bal = ex.balance(b['token_identifier'].t, b['token_nonce'].t)
            ex.bal_change(b['token_identifier'].t, b['token_nonce'].t, b['amount'].t)
            return s.result
        return NotImplemented


def revenue(ck):
    fn = ck.by_endpoint(CR, 'claimRevenue')
    hold = [None]

    def check(s, ex, calls, mine):
        O = ex.oblige
        r = ex.ghost.get('claimed')
        out = [e for e in calls if e not in mine]
        some = gt(r.f['amount'].t, 0) if r is not None else False
        ok = len(out) == 1 and out[0].get('method') == 'deposit' and len(out[0].get('pay', ())) == 1
        if ok:
            p = out[0]['pay'][0]
            O('claim_revenue: the whole revenue goes to the accumulator', And(
                eq(out[0]['to'], s.acc), some, *[eq(p[i], r.f[k].t) for i, k in enumerate(('token_identifier', 'token_nonce', 'amount'))]))
        else:
            O('claim_revenue: the whole revenue goes to the accumulator', And(not out, Not(some)))
        O('claim_revenue: nothing else moves', And(*[e['kind'] not in ('transfer', 'transfer_vec', 'nft_create') for e in ex.trace]))

    def th(ex):
        s = hold[0] = Revenue(ck, ex, 'claim_revenue')
        v = ex.fresh(path_ty('MultiValueEncoded', path_ty(TOK)), 'arg.tokens')
        s.acc = ex.read_cell('accumulator_address', (), ADDR).t
        accset = Not(ex.cell_empty('accumulator_address', (), ADDR))
        ck.endpoint_fn(ex, fn, [v])
        ex.oblige('claim_revenue: the accumulator is configured', accset)
        listed(s, ex, v.base.len)
        s.frame(ex, ())
    ck.run('claimRevenue', CR, th, config(ck, hold, iter_hook=token_hook(hold, 'claim_revenue', check)))
