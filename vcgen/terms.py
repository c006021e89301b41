"""Term layer: python ints/bools where constant, z3 terms otherwise.

Non-linear operations are kept as uninterpreted applications with a recorded
definition; prove.py instantiates lemmas / definitions for them on demand.
"""
import z3

I = z3.IntSort()
U = z3.DeclareSort('U')          # addresses, token ids, byte buffers
NLMUL = z3.Function('nlmul', I, I, I)          # a*b            (a,b any sign)
NLDIV = z3.Function('nldiv', I, I, I)          # floor(a/b)     (a>=0,b>0)
MULH = z3.Function('mulh', I, I, I, I)         # p,a,b -> floor((a*b + 10^p/2)/10^p)
DIVH = z3.Function('divh', I, I, I, I)         # p,a,b -> floor((a*10^p + b/2)/b)
RS = z3.Function('rs', I, I, I, I)             # raw,from,to -> truncating rescale
RH = z3.Function('rh', I, I, I, I)             # raw,from,to -> half-up rescale
P10 = z3.Function('p10', I, I)
SQRT = z3.Function('isqrt', I, I)


z3.z3.Z3_DEBUG = False
_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)
_TID, _FID = _TRUE.get_id(), _FALSE.get_id()


def is_c(x):
    return type(x) is int or type(x) is bool


def cv(x):
    """normalise z3 literals to python"""
    t = type(x)
    if t is z3.IntNumRef:
        return x.as_long()
    if t is z3.BoolRef:
        i = x.get_id()
        if i == _TID:
            return True
        if i == _FID:
            return False
    return x


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(x):
    if is_c(x):
        return x
    return cv(z3.simplify(x))


def add(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return z(a) + z(b)


def sub(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return 0
    return z(a) - z(b)


def _ord(a, b):
    ha, hb = a.hash(), b.hash()
    if ha != hb:
        return (a, b) if ha < hb else (b, a)
    return (a, b) if a.eq(b) or a.sexpr() <= b.sexpr() else (b, a)


def _norm(t):
    """canonical form so that syntactic variants of an argument meet in one UF application"""
    if is_c(t):
        return t
    return cv(z3.simplify(t, som=False))


def mul(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return z(a) * b
    a, b = _norm(a), _norm(b)
    if is_c(a) or is_c(b):
        return mul(a, b)
    # pull constant factors out:  (c*x)*y -> c*(x*y)
    ca, a1 = _split_coef(a)
    cb, b1 = _split_coef(b)
    if ca != 1 or cb != 1:
        return mul(ca * cb, mul(a1, b1))
    x, y = _ord(a, b)
    return NLMUL(x, y)


def _split_coef(t):
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        return t.arg(0).as_long(), t.arg(1)
    return 1, t


def fdiv(a, b):
    """floor division, a >= 0, b > 0 (callers have handled b == 0)"""
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a // b if b else 0
    if is_c(b):
        if b == 1:
            return a
        return z(a) / z(b)
    if is_c(a) and a == 0:
        return 0
    return NLDIV(z(_norm(a)), z(_norm(b)))


def tdiv(a, b):
    """truncating division of signed values, b != 0"""
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    if is_c(b):
        bb = abs(b)
        q = z3.If(z(a) >= 0, z(a) / bb, -((-z(a)) / bb))
        return q if b > 0 else -q
    return z3.If(z(a) >= 0,
                 z3.If(z(b) > 0, fdiv(a, b), -z(fdiv(a, sub(0, b)))),
                 z3.If(z(b) > 0, -z(fdiv(sub(0, a), b)), z(fdiv(sub(0, a), sub(0, b)))))


def p10(s):
    s = cv(s)
    if is_c(s):
        return 10 ** s
    return P10(z(s))


def same(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a == b
    if is_c(a) or is_c(b):
        return False
    return a.eq(b) or z3.simplify(a - b).eq(z3.IntVal(0)) if z3.is_arith(a) else a.eq(b)


def rs(raw, s, t):
    """truncating rescale"""
    s, t = _norm(s), _norm(t)
    if same(s, t):
        return raw
    if is_c(s) and is_c(t):
        if t > s:
            return mul(raw, 10 ** (t - s))
        return fdiv(raw, 10 ** (s - t))
    if is_c(raw) and raw == 0:
        return 0
    return RS(z(_norm(raw)), z(s), z(t))


def rs_signed(raw, s, t):
    if same(s, t):
        return raw
    if is_c(s) and is_c(t):
        return mul(raw, 10 ** (t - s)) if t > s else tdiv(raw, 10 ** (s - t))
    return z3.If(z(raw) >= 0, z(rs(raw, s, t)), -z(rs(sub(0, raw), s, t)))


def rh(raw, s, t):
    s, t = _norm(s), _norm(t)
    if same(s, t):
        return raw
    if is_c(s) and is_c(t):
        if t > s:
            return mul(raw, 10 ** (t - s))
        f = 10 ** (s - t)
        return fdiv(add(raw, f // 2), f)
    if is_c(raw) and raw == 0:
        return 0
    return RH(z(_norm(raw)), z(s), z(t))


def mulh(p, a, b):
    a, b, p = _norm(a), _norm(b), _norm(p)
    if is_c(a) and is_c(b) and is_c(p):
        s = 10 ** p
        return (a * b + s // 2) // s
    if (is_c(a) and a == 0) or (is_c(b) and b == 0):
        return 0
    if is_c(p) and is_c(a) and a == 10 ** p:
        return b
    if is_c(p) and is_c(b) and b == 10 ** p:
        return a
    x, y = _ord(z(a), z(b))
    return MULH(z(p), x, y)


def divh(p, a, b):
    a, b, p = _norm(a), _norm(b), _norm(p)
    if is_c(a) and is_c(b) and is_c(p) and b > 0:
        return (a * 10 ** p + b // 2) // b
    if is_c(a) and a == 0:
        return 0
    if is_c(p) and is_c(b) and b > 0:
        return fdiv(add(mul(a, 10 ** p), b // 2), b)
    return DIVH(z(p), z(a), z(b))


def eq(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    return z(a) == z(b)


def lt(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a < b
    return z(a) < z(b)


def le(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a <= b
    return z(a) <= z(b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def Not(c):
    c = cv(c)
    if is_c(c):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def And(*cs):
    out = []
    for c in cs:
        c = cv(c)
        if is_c(c):
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        c = cv(c)
        if is_c(c):
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    c = cv(c)
    if is_c(c):
        return a if c else b
    if is_c(a) and is_c(b) and a == b and type(a) == type(b):
        return a
    return z3.If(c, z(a), z(b))


def imin(a, b):
    return ite(lt(a, b), a, b)


def imax(a, b):
    return ite(gt(a, b), a, b)
