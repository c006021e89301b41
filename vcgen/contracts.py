"""Contracts of the shared functions.

Every contract is (a) assumed at call sites and (b) verified against the body of
the function in /repo's current source by the very check that relied on it.
`spec(ex, args)` returns (preconditions, result, facts);  `define` unfolds the
opaque result symbol when the body itself is verified.
"""
import z3
from terms import *
from values import *
from engine import *

RAY = 10 ** 27
WAD = 10 ** 18
BPS = 10 ** 4
MS_PER_YEAR = 31_556_926_000

BRATE = z3.Function('brate', *([I] * 9))      # util, max, base, s1, s2, s3, mid, opt -> per-ms rate
CI = z3.Function('ci', I, I, I)               # rate, dt -> growth factor


class Contract:
    def __init__(self, name, spec, deps=(), crate='common', scales=None, setup=None, define=None, posts=None, args=None, requires=False,
                 verify=None, by=None):
        self.name = name; self.spec = spec; self.deps = tuple(deps); self.crate = crate
        self.scales = scales or {}
        self.setup = setup; self.define = define; self.posts = posts; self.args = args
        self.verify = verify      # function(ck): dedicated verification run
        self.by = by              # property whose check discharges the contract
        self.requires = requires   # precondition is the caller's obligation (otherwise: the function reverts without it)

    def handler(self):
        def h(ex, args):
            vals = [ex.val(a) for a in args[1:]] if args and isinstance(args[0], SelfV) else [ex.val(a) for a in args]
            pre, res, facts = self.spec(ex, vals)
            ex.used.add(self.name)
            for p in pre:
                if self.requires:
                    ex.oblige('precondition of ' + self.name, p)
                    ex.fact(z(p))
                else:
                    ex.require(p, self.name)
            for f in facts:
                ex.fact(f)
            return res
        return h


def D(raw, s):
    return Dec(raw, s)


def nn(*ts):
    return [ge(t, 0) for t in ts if not is_c(t)]


def s_mul(ex, a):
    x, y, p = a[0], a[1], a[2].t
    r = mulh(p, rs(x.raw, x.scale, p), rs(y.raw, y.scale, p))
    return [], Dec(r, p), nn(r)


def s_div(ex, a):
    x, y, p = a[0], a[1], a[2].t
    b = rs(y.raw, y.scale, p)
    r = divh(p, rs(x.raw, x.scale, p), b)
    return [gt(b, 0)], Dec(r, p), nn(r)


def s_rh(ex, a):
    x, p = a[0], a[1].t
    r = rh(x.raw, x.scale, p)
    return [], Dec(r, p), nn(r)


def mag(t):
    return ite(lt(t, 0), sub(0, t), t)


def signed(op):
    def s(ex, a):
        x, y, p = a[0], a[1], a[2].t
        b = rs(mag(y.raw), y.scale, p)
        r = op(p, rs(mag(x.raw), x.scale, p), b)
        neg = Or(And(lt(x.raw, 0), ge(y.raw, 0)), And(ge(x.raw, 0), lt(y.raw, 0)))
        return [gt(b, 0)] if op is divh else [], Dec(ite(neg, sub(0, r), r), p, True), nn(r)
    return s


def v_signed(name):
    def v(ck):
        import mathspec
        getattr(mathspec, name)(ck)
    return v


PARAMS = ('max_borrow_rate_ray', 'base_borrow_rate_ray', 'slope1_ray', 'slope2_ray', 'slope3_ray',
          'mid_utilization_ray', 'optimal_utilization_ray')


def brate(u, P):
    return BRATE(*[z(t) for t in (u,) + tuple(P)])


def brate_def(u, mx, base, s1, s2, s3, mid, opt):
    """annual three-slope curve, capped, converted to a per-millisecond rate (raw RAY terms)"""
    a1 = add(base, fdiv(mul(u, s1), mid))
    a2 = add(add(base, s1), fdiv(mul(sub(u, mid), s2), sub(opt, mid)))
    a3 = add(add(add(base, s1), s2), fdiv(mul(sub(u, opt), s3), sub(RAY, opt)))
    ann = ite(lt(u, mid), a1, ite(lt(u, opt), a2, a3))
    cap = ite(gt(ann, mx), mx, ann)
    return divh(27, cap, MS_PER_YEAR * RAY)


def params_ok(P):
    mx, base, s1, s2, s3, mid, opt = P
    return [gt(mx, base), gt(opt, mid), lt(opt, RAY), ge(mid, 0)]


def s_brate(ex, a):
    u, P = a[0].raw, tuple(a[1].f[k].raw for k in PARAMS)
    r = brate(u, P)
    return [And(*params_ok(P))], Dec(r, 27), nn(r)


def ci_def(rate, dt):
    x = mulh(27, rate, mul(dt, RAY))
    x2 = mulh(27, x, x)
    x3 = mulh(27, x2, x)
    x4 = mulh(27, x3, x)
    x5 = mulh(27, x4, x)
    s = add(add(RAY, x), divh(27, x2, 2 * RAY))
    s = add(s, divh(27, x3, 6 * RAY))
    s = add(s, divh(27, x4, 24 * RAY))
    s = add(s, divh(27, x5, 120 * RAY))
    return ite(eq(dt, 0), RAY, s)


def s_ci(ex, a):
    r = CI(z(a[0].raw), z(a[1].t))
    return [], Dec(r, 27), [ge(r, RAY)]


def contracts():
    math = ('mul_half_up', 'div_half_up', 'rescale_half_up')
    L = [
        Contract('mul_half_up', s_mul),
        Contract('div_half_up', s_div),
        Contract('rescale_half_up', s_rh),
        Contract('mul_half_up_signed', signed(mulh), verify=v_signed('mul_signed')),
        Contract('div_half_up_signed', signed(divh), verify=v_signed('div_signed')),
        Contract('calculate_borrow_rate', s_brate, deps=('mul_half_up', 'div_half_up'), scales={'utilization': 27}, requires=True,
                 define=lambda t: subst_fun(t, 'brate', brate_def)),
        Contract('calculate_compounded_interest', s_ci, deps=('mul_half_up', 'div_half_up'), scales={'rate': 27},
                 define=lambda t: subst_fun(t, 'ci', ci_def)),
    ]
    return {c.name: c for c in L}


CONTRACTS = contracts()


def subst_fun(t, name, f):
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][1]
        ch = [go(c) for c in x.children()]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
            r = z(f(*[cv(c) for c in ch]))
        elif ch and z3.is_app(x):
            r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(x, *[(a, b) for a, b in zip(x.children(), ch)])
        else:
            r = x
        cache[k] = (x, r)
        return r
    return go(z(t))
