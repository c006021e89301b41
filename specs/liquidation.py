"""Contract of the liquidation entry point."""
from terms import *
from values import *
from engine import *
from contracts import *
from contracts import mag
import ctl
from ctl import CR, TOK, px, pxdec, mi, path_ty, usdpx
from controller import *
from upkeep import snapshot, in_state

MAXBONUS, K = 1500, 20000
SK = z3.Const('sk.token', U)


def least(a, b):
    return ite(lt(a, b), a, b)


# ---------------------------------------------------------------- closing amount
def linear_bonus(hf, target, base):
    gap = divh(27, sub(target, hf), target)
    term = least(mulh(27, rs(K, 4, 27), gap), RAY)
    return add(base, mulh(27, sub(rs(MAXBONUS, 4, 27), base), term))


def health(w, d):
    return ite(eq(d, 0), 2 * RAY, divh(27, w, d))


def details(tc, wc, prop, b, td, target):
    """(debt to repay, health factor afterwards) when closing towards a target health factor with bonus b"""
    opb = add(RAY, b)
    dmax = divh(27, mulh(27, tc, RAY), opb)
    den = mulh(27, prop, opb)
    num, dn = sub(mulh(27, target, td), wc), sub(target, den)
    q = divh(27, mag(num), mag(dn))
    neg = Or(And(lt(num, 0), ge(dn, 0)), And(ge(num, 0), lt(dn, 0)))
    ideal = ite(neg, sub(0, q), q)
    d = ite(eq(target, den), dmax, ite(lt(ideal, 0), dmax, least(ideal, dmax)))
    d = least(d, td)
    seized = least(mulh(27, mulh(27, prop, d), opb), wc)
    return d, health(sub(wc, seized), ite(ge(d, td), 0, sub(td, d)))


def estimate(wc, prop, tc, td, base, hf):
    """(debt to repay, bonus): to a health factor of 1.02, else 1.01, else all the collateral pays for at the base bonus"""
    b1 = linear_bonus(hf, RAY + RAY // 50, base)
    d1, h1 = details(tc, wc, prop, b1, td, RAY + RAY // 50)
    b2 = linear_bonus(hf, RAY + RAY // 100, base)
    d2, _ = details(tc, wc, prop, b2, td, RAY + RAY // 100)
    _, h3 = details(tc, wc, prop, base, td, RAY)
    full = least(divh(27, tc, add(RAY, base)), td)
    hopeless = And(lt(h3, RAY), lt(h3, hf))
    ok = ge(h1, RAY)
    return ite(ok, d1, ite(hopeless, full, d2)), ite(ok, b1, ite(hopeless, base, b2))


ED, EB = z3.Function('closing.debt', *([I] * 7)), z3.Function('closing.bonus', *([I] * 7))
EST = 'estimate_liquidation_amount'


def closing(ck, *a):
    """the estimate as the liquidation code sees it: opaque where a function under contract computes it"""
    if ck.prog.lookup(CR, EST, must=False) is None:
        return estimate(*a)
    t = [z(x) for x in a]
    return ED(*t), EB(*t)


def s_estimate(ex, a):
    wc, prop, tc, td, base, hf = [x.raw for x in a]
    t = [z(x) for x in (wc, prop, tc, td, base, hf)]
    d, b = ED(*t), EB(*t)
    return [], Tup([Dec(d, 27), Dec(b, 27)]), nn(d, b) + [z(le(d, td))]


def v_estimate(ck):
    fn = ck.prog.lookup(CR, EST)

    def th(ex):
        a = [Dec(ex.leaf('arg.%d' % i, (), I), 27) for i in range(6)]
        for x in a:
            ex.fact(x.raw >= 0)
        d, b = estimate(*[x.raw for x in a])
        v = ex.val(ex.inline_call(fn, [SELF] + a, EST))
        ex.oblige('closing amount: debt to repay', And(eq(v.e[0].raw, d), eq(v.e[0].scale, 27), ge(d, 0), le(d, a[3].raw)))
        ex.oblige('closing amount: bonus', And(eq(v.e[1].raw, b), eq(v.e[1].scale, 27), ge(b, 0)))
    ck.run('contract ' + EST, CR, th, ctl.config(ck, tuple(c for c in ctl.CORE)))


K_ = Contract(EST, s_estimate, crate=CR, verify=v_estimate)
import contracts as KK
KK.CONTRACTS[EST] = K_


# ------------------------------------------------------------------- bookkeeping
def pay_of(e):
    """(payment, EGLD value it counts for or None) of a list entry that carries a liquidator's payment"""
    if isinstance(e, Struct) and e.n == 'EgldOrEsdtTokenPayment':
        return e, None
    if isinstance(e, Tup) and len(e.e) == 3 and isinstance(e.e[0], Struct) and e.e[0].n == 'EgldOrEsdtTokenPayment':
        return e.e[0], e
    return None


def tokens(ex, e, egld, tok):
    """token units worth an EGLD amount (RAY)"""
    return rh(divh(27, egld, rs(px(ex, tok, False), 18, 27)), 27, pxdec(ex, tok))


class Liquidate(User):
    def lists(s, ex, hav):
        """local lists of payments carried by a loop: [(location, counted?)]"""
        out = []
        for loc, v in hav.items():
            if isinstance(v, Vec) and v.base is not None:
                try:
                    p = pay_of(v.base.elem(ex, z3.Int('dummy.p')))
                except ToolError:
                    continue
                if p:
                    out.append((loc, p[1] is not None))
        return out

    def vec(s, ex, loc):
        return ex.val(ex.store[loc])

    def units(s, ex, ls, t=SK):
        """amount of token t in the lists"""
        def f(e):
            p = pay_of(e)[0].f
            return ite(eq(p['token_identifier'].t, t), p['amount'].t, 0)
        r = 0
        for loc, _ in ls:
            r = add(r, over(ex, s.vec(ex, loc), f, ()))
        return r

    def counted(s, ex, ls, t=None):
        def f(e):
            v = e.e[1].raw
            return v if t is None else ite(eq(e.e[0].f['token_identifier'].t, t), v, 0)
        r = 0
        for loc, c in ls:
            if c:
                r = add(r, over(ex, s.vec(ex, loc), f, ()))
        return r

    def owed(s, ex, t):
        """EGLD value (RAY) of the debt in token t when the liquidation starts"""
        def f():
            st = stored(ex, s.nonce, BORROW, t)
            return value(ex, st.v, BORROW, False)
        return in_state(ex, s.snap0, f)

    def sound(s, ex, e):
        """an entry carries the price and decimals of its token"""
        t = e.e[0].f['token_identifier'].t
        fd = e.e[2].f
        return And(eq(fd['price_wad'].raw, px(ex, t, False)), eq(fd['price_wad'].scale, 18), eq(fd['asset_decimals'].t, pxdec(ex, t)),
                   eq(e.e[1].scale, 27), ge(e.e[1].raw, 0), ge(e.e[0].f['amount'].t, 0))

    def entries(s, ex, loc, j):
        v = s.vec(ex, loc)
        return Implies(And(ge(j, 0), lt(j, ex.vec_len(v))), every(vec_cases(ex, v, j), lambda e: s.sound(ex, e)))

    def assume_entries(s, ex, ls):
        j = z3.Int('dummy.j')
        for loc, c in ls:
            if c:
                ex.qf.append((j, z3.IntVal(0), z(ex.vec_len(s.vec(ex, loc))), z(s.entries(ex, loc, j)), ex.loopidx))

    def maps(s, ex, hav):
        """local maps from tokens to EGLD values"""
        out = []
        for loc, v in hav.items():
            if isinstance(v, MapV) and v.base is not None:
                try:
                    e = v.base.elem(ex, (SK,))
                except ToolError:
                    continue
                if isinstance(e, Dec):
                    out.append(loc)
        return out

    def covers(s, ex, ls, maps, t=SK):
        n = s.counted(ex, ls, t)
        return And(*[every(mapv_cases(ex, ex.val(ex.store[m]), t), lambda o: And(
            Implies(o.some, And(eq(o.v.raw, n), eq(o.v.scale, 27))) if o.v is not None else True, Implies(Not(o.some), eq(n, 0)))) for m in maps])

    def within(s, ex, ls, t=SK):
        return Or(eq(s.counted(ex, ls, t), 0), le(s.counted(ex, ls, t), s.owed(ex, t)))

    # ------------------------------------------------------------------ pool calls
    def on_repay(s, ex, c):
        O = ex.oblige
        pay = c.d['pay']
        O('repay: what is kept of the payment goes to the pool of its debt', And(len(pay) == 1, eq(c.tok, s.token), *[
            And(eq(q[0], s.token), eq(q[2], s.amount), eq(q[1], 0)) for q in pay]))
        O('repay: on behalf of the caller', eq(c.d['args'][0].t, s.caller))
        v = s.attr0.f['isolated_token'].v
        if v is None:
            return
        iso = s.attr0.f['is_isolated_position'].t
        now = isolated_debt(ex, v.t).raw
        debt_ = rs(rh(value(ex, c.pos, BORROW, False), 27, 18), 18, 27)
        usd = rh(mulh(27, least(debt_, s.worth), rs(usdpx(ex), 18, 27)), 27, 18)
        left = ite(gt(s.iso_start.raw, usd), sub(s.iso_start.raw, usd), 0)
        O('isolation: isolated debt falls by the USD value repaid', Implies(iso, eq(now, ite(eq(usd, 0), s.iso_start.raw, ite(lt(left, WAD), 0, left)))))
        O('isolation: no other debt counter moves', And(*[And(iso, eq(e['keys'][0], v.t)) for e in ex.trace
                                                            if e['kind'] == 'write' and e['cell'] == 'isolated_asset_debt_usd']))

    def on_withdraw(s, ex, c):
        O = ex.oblige
        who, a, _, liq, fee = c.d['args'][:5]
        R = ex.ghost['R']
        O('seize: paid to the liquidator', eq(who.t, s.caller))
        O('seize: marked as a liquidation with its fee', And(liq.t, fee.some))
        D, P = pxdec(ex, c.tok), px(ex, c.tok, False)
        total = amount_of(c.pos, mi(ex, c.tok, 'supply'))
        val = value(ex, c.pos, DEPOSIT, False)
        opb = add(RAY, s.bonus)
        want = divh(27, mulh(27, mulh(27, divh(27, val, s.tc), R), opb), rs(P, 18, 27))
        cap = least(want, total)
        O('seize: the share of the position that pays for the counted debt plus bonus, at most all of it', And(eq(a.scale, D), eq(a.raw, rh(cap, 27, D))))
        f = mulh(27, sub(cap, divh(27, cap, opb)), rs(c.pos.f['liquidation_fees_bps'].raw, 4, 27))
        O('seize: the protocol takes its share of the bonus only', And(eq(fee.v.scale, D), eq(fee.v.raw, rh(f, 27, D))))


def payment(x):
    if isinstance(x, Struct) and x.n == 'EgldOrEsdtTokenPayment':
        return x
    return None


def elem_kind(ex, it):
    x = ex.val(ex.iter_elem(it, z3.Int('dummy.k')))
    if payment(x):
        return 'pay'
    if isinstance(x, Tup) and x.e and payment(ex.val(x.e[0])):
        return {3: 'repay', 2: 'seize'}.get(len(x.e))
    return None


def worth(ex, info):
    i = z3.Int('dummy.i')
    return ex.sum_term(ex.val(ex.val(ex.iter_elem(info['it'], i)).e[1]).raw, i, info['lo'], info['hi'], ())


def liquidate(ck):
    fn = ck.by_endpoint(CR, 'liquidate')
    hold = [None]

    def received(s, ex, it, lo, hi):
        i = z3.Int('dummy.i')
        p = ex.val(ex.iter_elem(it, i)).f
        return ex.sum_term(ite(eq(p['token_identifier'].t, SK), p['amount'].t, 0), i, lo, hi, ())

    def entry(ex, info):
        s = hold[0]
        if not s.started:
            return
        O = ex.oblige
        ls = s.lists(ex, info['hav'])
        if info['it'] is None:
            if any(c for _, c in ls):
                for loc, c in ls:
                    if c:
                        O('list: entries carry the price of their token, before refunds', s.entries(ex, loc, z3.Int('sk.j')))
                O('counted: a token counts for at most its debt, before refunds', s.within(ex, ls))
            return
        k = elem_kind(ex, info['it'])
        if k == 'pay' and any(c for _, c in ls):
            O('conservation: at the first payment', eq(s.units(ex, ls), 0))
            O('counted: at the first payment', And(s.covers(ex, ls, s.maps(ex, info['hav'])), eq(s.counted(ex, ls, SK), 0)))

    def exit_(ex, info):
        s = hold[0]
        if not s.started or info['it'] is None:
            return
        ls = s.lists(ex, info['hav'])
        k = elem_kind(ex, info['it'])
        if k == 'repay':
            ex.ghost['R'] = worth(ex, info)
        if k == 'pay' and any(c for _, c in ls):
            ex.fact(z(eq(s.units(ex, ls), received(s, ex, info['it'], info['lo'], info['hi']))))
            ex.fact(z(s.within(ex, ls)))
            s.assume_entries(ex, ls)

    def while_hook(ex, tag):
        s = hold[0]
        info = dict(ex.cur_loop)
        ls = s.lists(ex, info['hav'])
        if not s.started or not any(c for _, c in ls):
            return None
        pre = info['pre']

        def before(f):
            a = ex.store
            ex.store = pre['store']
            r = f()
            ex.store = a
            return r
        u0, c0 = before(lambda: s.units(ex, ls)), before(lambda: s.counted(ex, ls))
        decs = [loc for loc, v in info['hav'].items() if isinstance(v, Dec)]
        ints = [loc for loc, v in info['hav'].items() if isinstance(v, Int)]
        val = lambda loc: ex.val(ex.store[loc])
        d0 = {loc: before(lambda: val(loc).raw) for loc in decs}
        counted = [loc for loc, c in ls if c]

        def inv():
            r = [('conservation: refunding excess keeps the total', eq(s.units(ex, ls), u0)),
                 ('counted: a token counts for at most its debt, after refunds', s.within(ex, ls))]
            for d in decs:
                r.append(('counted: refunds take off exactly the excess', eq(sub(s.counted(ex, ls), val(d).raw), sub(c0, d0[d]))))
                for i in ints:
                    for loc in counted:
                        r.append(('refunds start from the last payment', Implies(gt(val(d).raw, 0), eq(val(i).t, ex.vec_len(s.vec(ex, loc))))))
            return r
        for _, f in inv():
            ex.fact(z(f))
        s.assume_entries(ex, ls)
        head = {loc: s.vec(ex, loc) for loc in counted}

        def end():
            for n, f in inv():
                ex.oblige(n, f)
            for loc in counted:
                ex.oblige('list: entries carry the price of their token, after refunds', s.entries(ex, loc, z3.Int('sk.j')))
                v = s.vec(ex, loc)
                if v.base is head[loc].base:
                    for i, w in v.ups:
                        old = v.base.elem(ex, i)
                        same_ = eq(old.e[0].f['token_identifier'].t, w.e[0].f['token_identifier'].t)
                        less = sub(old.e[1].raw, w.e[1].raw)
                        ex.oblige('counted: a refund is worth what the payment no longer counts for', And(same_, ge(less, 0), eq(
                            sub(old.e[0].f['amount'].t, w.e[0].f['amount'].t), tokens(ex, old, less, old.e[0].f['token_identifier'].t))))
        return end

    def hook(ex, x, tag):
        s = hold[0]
        if not s.started or ex.ghost.get('in'):
            return None
        x = ex.val(x)
        info = dict(ex.cur_loop)
        k = elem_kind(ex, info['it'])
        ls = s.lists(ex, info['hav'])
        O = ex.oblige
        if k == 'pay' and any(c for _, c in ls):
            ms = s.maps(ex, info['hav'])
            ex.fact(z(eq(s.units(ex, ls), received(s, ex, info['it'], info['lo'], info['idx']))))
            ex.fact(z(s.covers(ex, ls, ms)))
            ex.fact(z(s.within(ex, ls)))
            s.assume_entries(ex, ls)
            lens = {loc: len(s.vec(ex, loc).items) for loc, c in ls}

            def end():
                O('conservation: every unit of a payment is kept or refunded', eq(s.units(ex, ls), received(s, ex, info['it'], info['lo'], add(info['idx'], 1))))
                O('counted: per token', s.covers(ex, ls, ms))
                O('counted: a token counts for at most its debt', s.within(ex, ls))
                for loc, c in ls:
                    if not c:
                        continue
                    O('list: entries carry the price of their token', s.entries(ex, loc, z3.Int('sk.j')))
                    new = s.vec(ex, loc).items[lens[loc]:]
                    O('counted: every payment is listed once', len(new) == 1)
                    for w in new:
                        p, t = w.e[0].f, x.f['token_identifier'].t
                        a, v = x.f['amount'].t, w.e[1].raw
                        full = mulh(27, rs(a, pxdec(ex, t), 27), rs(px(ex, t, False), 18, 27))
                        O('counted: a payment counts for at most its value', And(eq(p['token_identifier'].t, t), le(v, full)))
                        O('counted: what is not counted is refunded', eq(sub(a, p['amount'].t), ite(lt(v, full), tokens(ex, w, sub(full, v), t), 0)))
            return end
        if k == 'repay':
            ex.ghost['in'] = True
            ex.ghost['calls'] = ()
            s.iso_mark(ex)
            p = ex.val(x.e[0]).f
            s.amount, s.token, s.worth = p['amount'].t, p['token_identifier'].t, ex.val(x.e[1]).raw

            def end():
                ex.ghost['in'] = False
                s.settled(ex)
            return end
        if k == 'seize':
            ex.ghost['in'] = True
            ex.ghost['calls'] = ()
            m = positions(s.nonce, DEPOSIT)
            t = ex.val(x.e[0]).f['token_identifier'].t
            j = sub(info['idx'], info['lo'])
            O('seize: one seizure per collateral position', in_state(ex, s.snap0, lambda: eq(t, ex.coll_key_at(m, j, path_ty(TOK)).t)))
            # frame: earlier repayments write debts only, earlier seizures other collateral only
            was, now = in_state(ex, s.snap0, lambda: stored(ex, s.nonce, DEPOSIT, t)), stored(ex, s.nonce, DEPOSIT, t)
            ex.fact(z(And(eqb(was.some, now.some), Implies(was.some, veq(was.v, now.v)))))

            def end():
                ex.ghost['in'] = False
                s.settled(ex)
            return end
        return None

    def loop_entry(ex, info):
        entry(ex, info)
        s = hold[0]
        if s.started and info['it'] is not None and elem_kind(ex, info['it']) == 'repay' and not ex.ghost.get('in'):
            ex.oblige('counted: at most what brings the account back to health', le(worth(ex, info), s.closing))

    def th(ex):
        s = hold[0] = Liquidate(ck, ex, 'liquidate')
        s.unsafe = False
        n = ex.fresh(U64, 'arg.nonce')
        s.nonce = n.t
        account_state(s, ex)
        s.snap0 = snapshot(ex)
        s.d0 = debt(ex, s.nonce, False)
        s.tc = collateral(ex, s.nonce, False)
        s.w0 = collateral(ex, s.nonce, False, 'liquidation_threshold_bps')
        share = lambda k: over_map(ex, s.nonce, DEPOSIT, lambda p: mulh(27, divh(27, value(ex, p, DEPOSIT, False), s.tc), rs(p.f[k].raw, 4, 27)))
        hf = divh(27, s.w0, s.d0)
        s.closing, s.bonus = closing(ck, s.w0, share('liquidation_threshold_bps'), s.tc, s.d0, share('liquidation_bonus_bps'), hf)
        s.started = True
        ck.endpoint_fn(ex, fn, [n])
        s.guards(ex)
        O = ex.oblige
        O('account: the account is active', s.active0)
        O('health: only accounts whose health factor is below one', And(gt(s.d0, 0), lt(hf, RAY)))
        loops = [e for e in ex.trace if e['kind'] == 'loop']
        of = lambda k: [e for e in loops if e.get('it') is not None and elem_kind(ex, e['it']) == k and any(
            c['kind'] == 'call' and c.get('method') in POSARG for tr, _, _ in e['paths'] for c in tr)]
        once = lambda e, m: all([c.get('method') for c in tr if c['kind'] == 'call' and c.get('method') in POSARG] == [m]
                                for tr, _, kd in e['paths'] if kd in ('ok', 'continue'))
        rep, sei = of('repay'), of('seize')
        ok = len(rep) == 1 and once(rep[0], 'repay')
        O('repay: every kept payment repays its debt, once', ok)
        sent = [e for e in ex.trace if e['kind'] in ('transfer', 'transfer_vec')]
        back = 0
        fine = True
        for e in sent:
            fine = And(fine, eq(e['to'], s.caller), e['kind'] == 'transfer_vec')
            if e['kind'] == 'transfer_vec':
                back = add(back, over(ex, e['vec'], lambda p: ite(eq(p.f['token_identifier'].t, SK), p.f['amount'].t, 0), ()))
        O('conservation: refunds go to the liquidator', fine)
        if ok:
            i = z3.Int('dummy.i')
            p = ex.val(ex.val(ex.iter_elem(rep[0]['it'], i)).e[0]).f
            kept = ex.sum_term(ite(eq(p['token_identifier'].t, SK), p['amount'].t, 0), i, rep[0]['lo'], rep[0]['hi'], ())
            cvv = ex.cv_vec()
            O('conservation: every unit received repays debt or is refunded', eq(add(kept, back), over(
                ex, cvv, lambda q: ite(eq(q.f['token_identifier'].t, SK), q.f['amount'].t, 0), ())))
        nd = in_state(ex, s.snap0, lambda: ex.coll_len(positions(s.nonce, DEPOSIT)))
        O('seize: every collateral position pays its share', len(sei) == 1 and once(sei[0], 'withdraw') and eq(sub(sei[0]['hi'], sei[0]['lo']), nd))
        O('seize: nothing else moves', not [e for e in ex.trace if e['kind'] == 'call' and e.get('method') in POSARG])
        s.frame(ex, ('positions', 'isolated_asset_debt_usd'))
    ck.run('liquidate', CR, th, config(ck, hold, use=ctl.CORE + (EST,), iter_hook=hook, while_hook=while_hook, loop_entry=loop_entry, loop_exit=exit_))
