"""Interest-rate properties that are consequences of the verified contracts (pure lemmas over the contract terms)."""
from terms import *
from values import *
from engine import *
from contracts import *


def curve_lemmas(ck):
    """monotone, capped, and exact at the end points"""
    I_ = z3.Int
    u, v = I_('u'), I_('v')
    P = tuple(I_(n) for n in ('mx', 'base', 's1', 's2', 's3', 'mid', 'opt'))
    mx, base, s1, s2, s3, mid, opt = P
    pc = [t >= 0 for t in (u, v) + P] + [z(c) for c in params_ok(P)]
    ann = lambda w: annual(w, *P)

    def add_(name, goal, extra=()):
        ck.obls.append(dict(name='lemma ' + name, pc=pc + list(extra), qf=[], goal=goal, where='contract lemma'))
    # monotone within each segment and across the breakpoints
    seg = lambda w: [w < mid, z3.And(w >= mid, w < opt), w >= opt]
    for i in range(3):
        for j in range(i, 3):
            add_(f'annual rate non-decreasing in utilization, segments {i + 1}->{j + 1}', le(ann(u), ann(v)),
                 [seg(u)[i], seg(v)[j], u <= v])
    a, b = I_('a'), I_('b')
    cap = lambda a: ite(gt(a, mx), mx, a)
    per = lambda a: divh(27, cap(a), MS_PER_YEAR * RAY)
    add_('capped per-millisecond rate non-decreasing in the annual rate', le(per(a), per(b)), [a >= 0, b >= a])
    add_('never above the configured maximum', le(per(a), divh(27, mx, MS_PER_YEAR * RAY)), [a >= 0])
    add_('never below the base rate', ge(ann(u), base))


def annual(u, mx, base, s1, s2, s3, mid, opt):
    a1 = add(base, fdiv(mul(u, s1), mid))
    a2 = add(add(base, s1), fdiv(mul(sub(u, mid), s2), sub(opt, mid)))
    a3 = add(add(add(base, s1), s2), fdiv(mul(sub(u, opt), s3), sub(RAY, opt)))
    return ite(lt(u, mid), a1, ite(lt(u, opt), a2, a3))


def growth_lemmas(ck):
    r, t = z3.Int('r'), z3.Int('t')
    x = mulh(27, r, mul(t, RAY))
    ck.obls.append(dict(name='lemma growth factor at least 1 + rate x time', pc=[r >= 0, t >= 0, mulh(27, r, mul(t, RAY)) >= 0], qf=[],
                        goal=ge(ci_def(r, t), ite(eq(t, 0), RAY, add(RAY, x))), where='contract lemma'))
    ck.obls.append(dict(name='lemma growth factor is exactly 1 for no elapsed time', pc=[r >= 0], qf=[],
                        goal=eq(ci_def(r, 0), RAY), where='contract lemma'))


def simulate(ck):
    """the read-only simulation and the committed accrual give the same indexes"""
    import pool

    def thunk(ex):
        S0 = pool.S(ex)
        m = S0.sync()
        fn = ck.prog.lookup('common', 'simulate_update_indexes')
        st = ck.prog.struct('MarketParams', 'common')
        ps = ex.read_cell('params', (), {'k': 'path', 'p': [['MarketParams', []]]})
        D = lambda t: Dec(t, 27)
        r = ex.val(ex.inline_call(fn, [SELF, Int(S0.now, 'u64'), Int(S0.last, 'u64'), D(S0.b), D(S0.bi), D(S0.s), D(S0.si), ps],
                                  'simulate_update_indexes'))
        ex.oblige('simulated borrow index', eq(r.f['borrow_index_ray'].raw, m['bi']))
        ex.oblige('simulated supply index', eq(r.f['supply_index_ray'].raw, m['si']))
    ck.run('rates.simulate_update_indexes', 'common', thunk, pool.config_in(ck, 'common'))
