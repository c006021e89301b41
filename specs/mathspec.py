"""Contracts of the shared fixed-point arithmetic (common/math)."""
from terms import *
from values import *
from engine import *
from contracts import *


def signed_cfg(ck):
    cfg = ck.cfg('common', [])
    cfg.merge = None
    cfg.explore_reverts = True
    return cfg


def _signed(ck, name, zero_b):
    """half-away-from-zero on signed fixed-point values, for every sign combination and precision"""
    fn = ck.prog.lookup('common', name)
    for sa in (1, -1):
        for sb in (1, -1):
            def thunk(ex, sa=sa, sb=sb):
                x, y = ex.leaf('arg.x', (), I), ex.leaf('arg.y', (), I)
                s1, s2, p = (ex.leaf('arg.' + n, (), I) for n in ('sa', 'sb', 'p'))
                for t in (x, y, s1, s2, p):
                    ex.fact(t >= 0)
                ex.fact(s1 <= 27); ex.fact(s2 <= 27); ex.fact(p <= 27)
                if sa < 0:
                    ex.assume(x > 0)
                if sb < 0:
                    ex.assume(y > 0)
                X, Y = rs(x, s1, p), rs(y, s2, p)
                for t in (X, Y):
                    ex.fact(z(ge(t, 0)))
                a = Dec(x if sa > 0 else -x, s1, True)
                b = Dec(y if sb > 0 else -y, s2, True)
                try:
                    r = ex.val(ex.inline_call(fn, [SELF, a, b, Int(p, 'usize')], name))
                except Revert:
                    ex.oblige('reverts only on a zero divisor', eq(Y, 0) if zero_b else False)
                    return
                m = (divh if zero_b else mulh)(p, X, Y)
                ex.oblige('rounds half away from zero', eq(r.raw, m if sa * sb > 0 else sub(0, m)))
                ex.oblige('result precision', eq(r.scale, p))
            ck.run(f'math.{name}[{"+" if sa > 0 else "-"}{"+" if sb > 0 else "-"}]', 'common', thunk, signed_cfg(ck))


def mul_signed(ck):
    _signed(ck, 'mul_half_up_signed', False)


def div_signed(ck):
    _signed(ck, 'div_half_up_signed', True)
