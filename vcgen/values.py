"""Semantic values of the executor."""
import z3
from terms import *


class V:
    __slots__ = ()


class Unit(V):
    def __repr__(s): return '()'


UNIT = Unit()


class Int(V):
    __slots__ = ('t', 'k')

    def __init__(s, t, k=None):
        s.t = cv(t); s.k = k

    def __repr__(s): return f'Int({s.t}:{s.k})'


class Bool(V):
    __slots__ = ('t',)

    def __init__(s, t): s.t = cv(t)
    def __repr__(s): return f'Bool({s.t})'


class Dec(V):
    __slots__ = ('raw', 'scale', 'signed')

    def __init__(s, raw, scale, signed=False):
        s.raw = cv(raw); s.scale = cv(scale); s.signed = signed

    def __repr__(s): return f'Dec({s.raw}@{s.scale})'


class Opq(V):
    """address / token identifier / buffer"""
    __slots__ = ('t', 'k')

    def __init__(s, t, k=''):
        s.t = t; s.k = k

    def __repr__(s): return f'Opq({s.t})'


class Struct(V):
    __slots__ = ('n', 'f')

    def __init__(s, n, f):
        s.n = n; s.f = f

    def __repr__(s): return f'{s.n}{{{", ".join(k + ": " + repr(v) for k, v in s.f.items())}}}'


class Tup(V):
    __slots__ = ('e',)

    def __init__(s, e): s.e = tuple(e)
    def __repr__(s): return f'({", ".join(map(repr, s.e))})'


class Enum(V):
    """C-like enum: tag is an Int term (index of variant)"""
    __slots__ = ('n', 'tag')

    def __init__(s, n, tag):
        s.n = n; s.tag = cv(tag)

    def __repr__(s): return f'{s.n}#{s.tag}'


class Opt(V):
    """Option / OptionalValue / ManagedOption ; some is bool term"""
    __slots__ = ('some', 'v')

    def __init__(s, some, v=None):
        s.some = cv(some); s.v = v

    def __repr__(s): return f'Opt({s.some}, {s.v})'


class Res(V):
    __slots__ = ('ok', 'v', 'e')

    def __init__(s, ok, v=None, e=None):
        s.ok = cv(ok); s.v = v; s.e = e

    def __repr__(s): return f'Res({s.ok},{s.v})'


class Seq:
    """symbolic base sequence: length term + element function (index term -> V)"""

    def __init__(s, name, length, elem):
        s.name = name; s.len = cv(length); s.elem = elem

    def __repr__(s): return f'Seq<{s.name}>'


class Vec(V):
    """base ++ items, with overlay {index-term-list} on top: ups = ((idx, val), ...) oldest first"""
    __slots__ = ('base', 'items', 'ups')

    def __init__(s, base=None, items=(), ups=()):
        s.base = base; s.items = tuple(items); s.ups = tuple(ups)

    def __repr__(s): return f'Vec({s.base}++{list(s.items)} ups={len(s.ups)})'


class MapV(V):
    """ManagedMapEncoded / in-memory map: base (name or None=empty) + writes (k, v|None)"""
    __slots__ = ('base', 'writes')

    def __init__(s, base=None, writes=()):
        s.base = base; s.writes = tuple(writes)

    def __repr__(s): return f'MapV({s.base},{s.writes})'


class Ref(V):
    __slots__ = ('loc', 'path')

    def __init__(s, loc, path=()):
        s.loc = loc; s.path = tuple(path)

    def __repr__(s): return f'&mut {s.loc}{s.path}'


class Clo(V):
    __slots__ = ('params', 'body', 'env')

    def __init__(s, params, body, env):
        s.params = params; s.body = body; s.env = env


class SelfV(V):
    """the contract object"""
    __slots__ = ()

    def __repr__(s): return 'self'


SELF = SelfV()


class Mapper(V):
    __slots__ = ('kind', 'name', 'keys', 'ty', 'addr')

    def __init__(s, kind, name, keys, ty, addr=None):
        s.kind = kind; s.name = name; s.keys = tuple(keys); s.ty = ty; s.addr = addr

    def __repr__(s): return f'{s.kind}<{s.name}>{s.keys}'


class Tx(V):
    """transaction builder"""
    __slots__ = ('d',)

    def __init__(s, d): s.d = d
    def __repr__(s): return f'Tx({s.d})'


class Marker(V):
    """framework API handle: blockchain(), call_value(), send(), types, ..."""
    __slots__ = ('n', 'x')

    def __init__(s, n, x=None):
        s.n = n; s.x = x

    def __repr__(s): return f'<{s.n}>'


class Iter(V):
    """lazy iterator over Vec or range: (kind, payload)"""
    __slots__ = ('kind', 'x', 'lo', 'hi', 'maps')

    def __init__(s, kind, x, lo=0, hi=None, maps=()):
        s.kind = kind; s.x = x; s.lo = lo; s.hi = hi; s.maps = tuple(maps)


def leaves(v, pre=''):
    """flatten to [(path, sort-term)] for comparisons; raises on non-data"""
    if isinstance(v, (Int, Bool)):
        return [(pre, v.t)]
    if isinstance(v, Dec):
        return [(pre + '.raw', v.raw), (pre + '.scale', v.scale)]
    if isinstance(v, Opq):
        return [(pre, v.t)]
    if isinstance(v, Struct):
        return [x for k, w in v.f.items() if not isinstance(w, SelfV) for x in leaves(w, pre + '.' + k)]
    if isinstance(v, Tup):
        return [x for k, w in enumerate(v.e) for x in leaves(w, f'{pre}.{k}')]
    if isinstance(v, Enum):
        return [(pre, v.tag)]
    if isinstance(v, Opt):
        return [(pre + '.some', v.some)] + (leaves(v.v, pre + '.v') if v.v is not None else [])
    if isinstance(v, Unit):
        return []
    raise TypeError(f'leaves of {v!r}')


def veq(a, b):
    """equality of two data values as a bool term"""
    if isinstance(a, Unit) and isinstance(b, Unit):
        return True
    if isinstance(a, (Int, Bool)) and isinstance(b, (Int, Bool)):
        return eq(a.t, b.t)
    if isinstance(a, Opq) and isinstance(b, Opq):
        return eq(a.t, b.t)
    if isinstance(a, Enum) and isinstance(b, Enum):
        return eq(a.tag, b.tag)
    if isinstance(a, Dec) and isinstance(b, Dec):
        if same(a.scale, b.scale):
            return eq(a.raw, b.raw)
        if is_c(a.scale) and is_c(b.scale):
            m = max(a.scale, b.scale)
            return eq(mul(a.raw, 10 ** (m - a.scale)), mul(b.raw, 10 ** (m - b.scale)))
        if is_c(a.raw) and a.raw == 0:
            return eq(b.raw, 0)
        if is_c(b.raw) and b.raw == 0:
            return eq(a.raw, 0)
        return And(eq(a.scale, b.scale), eq(a.raw, b.raw))  # callers with mixed scales use cmp_dec
    if isinstance(a, Tup) and isinstance(b, Tup):
        return And(*[veq(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Struct) and isinstance(b, Struct):
        return And(*[veq(a.f[k], b.f[k]) for k in a.f if not isinstance(a.f[k], SelfV)])
    if isinstance(a, Opt) and isinstance(b, Opt):
        inner = True
        if a.v is not None and b.v is not None:
            inner = veq(a.v, b.v)
        return And(eq(a.some, b.some), Or(Not(a.some), inner))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.base is None and b.base is None and len(a.items) == len(b.items) and not a.ups and not b.ups:
            return And(*[veq(x, y) for x, y in zip(a.items, b.items)])
        if a.base is b.base and a.items == b.items and a.ups == b.ups:
            return True
    raise TypeError(f'veq {a!r} {b!r}')
