"""Discharging obligations.

stage 1  linear arithmetic + uninterpreted products/quotients
stage 2  + ground instances of the arithmetic lemma library (lemmas.py, itself proved)
stage 3  the operations replaced by their definitions (non-linear integer arithmetic),
         z3 then cvc5; a model found here is a counterexample
"""
import os, sys, json, time, subprocess, tempfile, itertools
import z3
from terms import *

P10_MAX = 60
NAMES = {'nlmul': NLMUL, 'nldiv': NLDIV, 'mulh': MULH, 'divh': DIVH, 'rs': RS, 'rh': RH, 'p10': P10, 'isqrt': SQRT}


def apps(ts):
    """uninterpreted arithmetic applications occurring in the formulas, by name"""
    out = {}
    seen = set()
    st = [t for t in ts if z3.is_expr(t)]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity():
                out.setdefault(d.name(), []).append(x)
            st.extend(x.children())
    return out


def iv(t):
    return t.as_long() if z3.is_int_value(t) else None


def inst_lemmas(fs, limit_pairs=2500):
    """ground lemma instances for the applications in fs"""
    out = []
    ap = apps(fs)
    goal = {n: {x.get_id() for x in l} for n, l in apps(fs[-1:]).items()}

    def S(p):
        n = iv(p)
        return z3.IntVal(10 ** n) if n is not None else P10(p)

    for m in ap.get('mulh', []):
        p, a, b = m.children()
        s = S(p)
        h = z3.IntVal(10 ** iv(p) // 2) if iv(p) is not None else None
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), m >= 0))
        out.append(z3.Implies(z3.Or(a == 0, b == 0), m == 0))
        out.append(z3.Implies(z3.And(a >= 0, b <= s, b >= 0), m <= a))
        out.append(z3.Implies(z3.And(a >= 0, b <= s, a <= s, b >= 0), m <= b))
        out.append(z3.Implies(z3.And(b >= 0, a <= s, a >= 0), m <= b))
        out.append(z3.Implies(z3.And(a >= 0, b >= s), m >= a))
        out.append(z3.Implies(z3.And(b >= 0, a >= s), m >= b))
        out.append(z3.Implies(b == s, m == a))
        out.append(z3.Implies(a == s, m == b))
        if h is not None:
            x, y = _ord(a, b)
            pr = NLMUL(x, y)
            out.append(z3.And(s * m <= pr + h, pr + h < s * m + s))
    for d in ap.get('divh', []):
        p, a, b = d.children()
        s = S(p)
        pos = z3.And(a >= 0, b > 0)
        out.append(z3.Implies(pos, d >= 0))
        out.append(z3.Implies(z3.And(b > 0, a == 0), d == 0))
        out.append(z3.Implies(z3.And(pos, a <= b), d <= s))
        out.append(z3.Implies(z3.And(pos, a >= b), d >= s))
        out.append(z3.Implies(z3.And(pos, b == s), d == a))
        out.append(z3.Implies(z3.And(pos, b <= s), d >= a))
        out.append(z3.Implies(z3.And(pos, b >= s), d <= a))
        if iv(p) is not None:
            x, y = _ord(b, d)
            pr = NLMUL(x, y)
            # 2*b*q <= 2*a*S + b < 2*b*q + 2*b   (floor(b/2) rounding folded: b/2 floor)
            out.append(z3.Implies(pos, z3.And(pr <= a * s + b / 2, a * s + b / 2 < pr + b)))
    for q in ap.get('nldiv', []):
        a, b = q.children()
        pos = z3.And(a >= 0, b > 0)
        x, y = _ord(b, q)
        pr = NLMUL(x, y)
        out.append(z3.Implies(pos, z3.And(q >= 0, q <= a, pr <= a, a < pr + b)))
        out.append(z3.Implies(z3.And(pos, a < b), q == 0))
        out.append(z3.Implies(z3.And(pos, a >= b), q >= 1))
    for r in ap.get('rs', []):
        x, s, t = r.children()
        out.append(z3.Implies(x >= 0, r >= 0))
        out.append(z3.Implies(x == 0, r == 0))
        out.append(z3.Implies(z3.And(x >= 0, s <= t), r >= x))
        out.append(z3.Implies(z3.And(x >= 0, s >= t), r <= x))
        out.append(z3.Implies(z3.And(x > 0, s <= t), r > 0))
        out.append(z3.Implies(s == t, r == x))
    for r in ap.get('rh', []):
        x, s, t = r.children()
        out.append(z3.Implies(x >= 0, r >= 0))
        out.append(z3.Implies(x == 0, r == 0))
        out.append(z3.Implies(z3.And(x >= 0, s <= t), r >= x))
        out.append(z3.Implies(z3.And(x >= 0, s >= t), r <= x))
        out.append(z3.Implies(s == t, r == x))
        out.append(z3.Implies(t >= s, r == RS(x, s, t)))
        out.append(z3.Implies(z3.And(x > 0, s <= t), r > 0))
    for q in ap.get('p10', []):
        out.append(q >= 1)
        out.append(z3.Implies(q.arg(0) >= 1, q >= 10))
    for q in ap.get('isqrt', []):
        a = q.arg(0)
        out.append(z3.Implies(a >= 0, z3.And(q >= 0, NLMUL(q, q) <= a, a < NLMUL(q, q) + 2 * q + 1)))
    # pairwise monotonicity
    n = 0

    def pairs(l):
        for i in range(len(l)):
            for j in range(len(l)):
                if i != j:
                    yield l[i], l[j]
    for name, mono in (('mulh', None), ('divh', None), ('rs', None), ('rh', None), ('nldiv', None), ('nlmul', None)):
        l = ap.get(name, [])
        g = goal.get(name, ())
        l = [x for x in l if x.get_id() in g] + [x for x in l if x.get_id() not in g]
        if name == 'mulh':
            seen = {}
            for x in l:
                p, a, b = [c.get_id() for c in x.children()]
                y = seen.get((p, b, a))
                if y is not None:
                    out.append(x == y)
                seen[(p, a, b)] = x
        if len(l) > 60:
            l = l[:60]
        for x, y in pairs(l):
            n += 1
            if n > limit_pairs:
                break
            if name == 'mulh':
                p, a, b = x.children(); p2, c, d = y.children()
                if not p.eq(p2):
                    continue
                g = z3.And(a >= 0, b >= 0)
                for (u, v), (w, k) in (((a, b), (c, d)), ((a, b), (d, c))):
                    if v.eq(k):
                        out.append(z3.Implies(z3.And(g, u <= w), x <= y))
                    else:
                        out.append(z3.Implies(z3.And(g, u <= w, v <= k), x <= y))
            elif name == 'divh':
                p, a, b = x.children(); p2, c, d = y.children()
                if p.eq(p2):
                    # same divisor: monotone in the dividend; larger divisor: smaller (up to rounding of halves)
                    if b.eq(d):
                        out.append(z3.Implies(z3.And(a >= 0, b > 0, a <= c), x <= y))
                    else:
                        out.append(z3.Implies(z3.And(a >= 0, b > 0, a <= c, b == d), x <= y))
            elif name in ('rs', 'rh'):
                a, s, t = x.children(); b, s2, t2 = y.children()
                if s.eq(s2) and t.eq(t2):
                    out.append(z3.Implies(a <= b, x <= y))
            elif name == 'nldiv':
                a, b = x.children(); c, d = y.children()
                out.append(z3.Implies(z3.And(a >= 0, a <= c, d > 0, b >= d), x <= y))
            elif name == 'nlmul':
                a, b = x.children(); c, d = y.children()
                for (u, v), (w, k) in (((a, b), (c, d)), ((a, b), (d, c))):
                    if v.eq(k):
                        out.append(z3.Implies(z3.And(v >= 0, u <= w), x <= y))
                    elif u.eq(w):
                        out.append(z3.Implies(z3.And(u >= 0, v <= k), x <= y))
                    else:
                        out.append(z3.Implies(z3.And(u >= 0, v >= 0, u <= w, v <= k), x <= y))
    for m in ap.get('nlmul', []):
        a, b = m.children()
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), m >= 0))
        out.append(z3.Implies(z3.Or(a == 0, b == 0), m == 0))
        out.append(z3.Implies(z3.And(a >= 1, b >= 0), m >= b))
        out.append(z3.Implies(z3.And(b >= 1, a >= 0), m >= a))
    return out


def _ord(a, b):
    from terms import _ord as o
    return o(a, b)


def define(t, cache=None):
    """replace the uninterpreted operations by their definitions"""
    cache = {} if cache is None else cache

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_quantifier(x):
            cache[i] = (x, x)
            return x
        ch = [go(c) for c in x.children()]
        r = None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity():
            n = x.decl().name()
            if n == 'nlmul':
                r = ch[0] * ch[1]
            elif n == 'nldiv':
                r = ch[0] / ch[1]
            elif n == 'mulh':
                s = dp10(ch[0])
                r = (ch[1] * ch[2] + s / 2) / s
            elif n == 'divh':
                s = dp10(ch[0])
                r = (ch[1] * s + ch[2] / 2) / ch[2]
            elif n == 'rs':
                up, dn = sdiff(ch[2], ch[1]), sdiff(ch[1], ch[2])
                r = z3.If(ch[2] >= ch[1], ch[0] * dp10(up), ch[0] / dp10(dn))
            elif n == 'rh':
                up, dn = sdiff(ch[2], ch[1]), sdiff(ch[1], ch[2])
                f = dp10(dn)
                r = z3.If(ch[2] >= ch[1], ch[0] * dp10(up), (ch[0] + f / 2) / f)
            elif n == 'p10':
                r = dp10(ch[0])
        if r is None:
            r = x.decl()(*ch) if ch and z3.is_app(x) else x
        cache[i] = (r, x)
        return r
    return z3.simplify(go(t))


def unfold(t, cache=None):
    """definitions in terms of the uninterpreted product / quotient / power"""
    import terms as T
    cache = {} if cache is None else cache

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_quantifier(x):
            cache[i] = (x, x)
            return x
        ch = [go(c) for c in x.children()]
        r = None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity():
            n = x.decl().name()
            c = [cv(y) for y in ch]
            if n == 'nlmul':
                r = T.mul(*c)
            elif n == 'nldiv':
                r = T.fdiv(*c)
            elif n == 'mulh':
                s = T.p10(c[0])
                r = T.fdiv(T.add(T.mul(c[1], c[2]), T.fdiv(s, 2)), s)
            elif n == 'divh':
                s = T.p10(c[0])
                r = T.fdiv(T.add(T.mul(c[1], s), T.fdiv(c[2], 2)), c[2])
            elif n == 'rs':
                r = T.ite(T.ge(c[2], c[1]), T.mul(c[0], T.p10(T._norm(T.sub(c[2], c[1])))),
                          T.fdiv(c[0], T.p10(T._norm(T.sub(c[1], c[2])))))
            elif n == 'rh':
                f = T.p10(T._norm(T.sub(c[1], c[2])))
                r = T.ite(T.ge(c[2], c[1]), T.mul(c[0], T.p10(T._norm(T.sub(c[2], c[1])))),
                          T.fdiv(T.add(c[0], T.fdiv(f, 2)), f))
        if r is None:
            r = x.decl()(*ch) if ch and z3.is_app(x) else x
        r = z(r)
        cache[i] = (r, x)
        return r
    return z3.simplify(go(t))


def sdiff(a, b):
    return z3.simplify(a - b)


def dp10(e):
    e = z3.simplify(e)
    n = iv(e)
    if n is not None:
        return z3.IntVal(10 ** max(0, n))
    r = z3.IntVal(10 ** P10_MAX)
    for k in range(P10_MAX - 1, -1, -1):
        r = z3.If(e <= k, z3.IntVal(10 ** k), r)
    return r


class Result:
    def __init__(self, status, stage, backend, t, model=None, note=''):
        self.status = status; self.stage = stage; self.backend = backend; self.t = t
        self.model = model; self.note = note


def relevant(pc, goal):
    return pc


def sum_axioms(fs, sums):
    """facts about the finite sums occurring in fs (proved pointwise by the caller's solver)"""
    ap = apps(fs)
    out = []
    byname = {v['f'].name(): v for v in sums.values()}
    found = [x for n, l in ap.items() if n in byname for x in l]
    return found, byname


def check(s, timeout):
    s.set('timeout', timeout)
    return s.check()


def prove(pc, goal, qf=(), sums=None, timeouts=(2000, 6000, 15000), extra=(), splits=(), want_model=True, use_cvc5=True):
    """returns Result; status in proved / refuted / unknown"""
    t0 = time.time()
    goal = z(goal)
    if z3.is_true(z3.simplify(goal)):
        return Result('proved', 0, 'simplifier', 0.0)
    fs = [z(c) for c in pc] + list(extra)
    neg = z3.Not(goal)
    s = z3.Solver()
    s.add(*fs)
    s.add(neg)
    r = check(s, timeouts[0])
    if r == z3.unsat:
        return Result('proved', 1, 'z3', time.time() - t0)
    # instantiate quantified loop facts
    inst = inst_qf(fs + [neg], qf)
    base = fs + inst
    if inst:
        s = z3.Solver()
        s.add(*base); s.add(neg)
        if check(s, timeouts[0]) == z3.unsat:
            return Result('proved', 1, 'z3', time.time() - t0)
    if sums:
        base = base + sum_facts(base + [neg], sums, qf, fs + [neg])
    lem = inst_lemmas(base + [neg])
    lem += inst_lemmas(lem)[:0]
    s = z3.Solver()
    s.add(*base); s.add(neg); s.add(*lem)
    r2 = check(s, timeouts[1])
    if r2 == z3.unsat:
        return Result('proved', 2, 'z3', time.time() - t0)
    # definitions over uninterpreted products / quotients
    uc = {}
    s = z3.Solver()
    ub = [unfold(c, uc) for c in base] + [unfold(neg, uc)]
    s.add(*ub)
    s.add(*inst_lemmas(ub))
    if check(s, timeouts[1]) == z3.unsat:
        return Result('proved', 2, 'z3', time.time() - t0)
    # definitions
    cache = {}
    dfs = [define(c, cache) for c in base]
    dneg = define(neg, cache)
    has_nl = True
    s = z3.Solver()
    s.add(*dfs); s.add(dneg)
    r3 = check(s, timeouts[2])
    if r3 == z3.unsat:
        return Result('proved', 3, 'z3', time.time() - t0)
    if r3 == z3.sat:
        return Result('refuted', 3, 'z3', time.time() - t0, s.model())
    # definitions + lemmas together
    s2 = z3.Solver()
    s2.add(*dfs); s2.add(dneg); s2.add(*[define(c, cache) for c in lem])
    r4 = check(s2, timeouts[2])
    if r4 == z3.unsat:
        return Result('proved', 3, 'z3', time.time() - t0)
    if r4 == z3.sat:
        return Result('refuted', 3, 'z3', time.time() - t0, s2.model())
    if use_cvc5:
        r5 = cvc5_check(s, timeouts[2])
        if r5 == 'unsat':
            return Result('proved', 3, 'cvc5', time.time() - t0)
        if r5 == 'sat':
            return Result('refuted', 3, 'cvc5', time.time() - t0)
    note = 'not provable from the lemmas' if r2 == z3.sat else 'solver gave up'
    return Result('unknown', 3, 'z3+cvc5', time.time() - t0, None, note)


def cvc5_check(s, timeout):
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--nl-ext-tplanes', f'--tlimit={timeout}', f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 20)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def inst_qf(fs, qf):
    """instantiate loop facts  forall i in [lo,hi): f(i)  at the index terms in sight"""
    if not qf:
        return []
    out = []
    cands = index_terms(fs)
    for (idx, lo, hi, f, ctx) in qf:
        for c in cands:
            if c.eq(idx):
                pass
            g = z3.Implies(z3.And(c >= lo, c < z(hi)), z3.substitute(z(f), (idx, c)))
            out.append(g)
    return out


def index_terms(fs):
    out = {}
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith('i') and '~' in n or n.startswith('sk'):
                out.setdefault(n, x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity():
            n = x.decl().name()
            if '.at' in n or '.keyat' in n:
                a = x.children()[-1]
                if z3.is_int(a) and not (z3.is_const(a) and str(a).startswith('dummy')):
                    out[a.sexpr()] = a
        st.extend(x.children())
    return list(out.values())[:12]


def sum_facts(fs, sums, qf=(), direct=None, timeout=1000):
    """pointwise (in)equality of the terms of two sums over the same range lifts to the sums"""
    ap = apps(fs if direct is None else direct)
    byname = {v['f'].name(): v for v in sums.values()}
    found = []
    for n, l in ap.items():
        if n in byname:
            for x in l:
                found.append((x, byname[n]))
    out = []
    if not found:
        return out
    i = z3.Int('sk_sum')
    S = z3.Solver()
    terms = [pointwise(x, d, i) for x, d in found]
    S.add(*fs)
    S.add(*inst_qf(list(fs) + terms + [i >= 0], qf))

    def holds(goal):
        S.push()
        S.add(z3.Not(goal))
        S.add(*inst_lemmas([goal]))
        S.set('timeout', timeout)
        r = S.check() == z3.unsat
        S.pop()
        return r

    nonneg = []
    for (x, d), t in zip(found, terms):
        lo, hi = x.arg(0), x.arg(1)
        out.append(z3.Implies(hi <= lo, x == 0))
        nonneg.append(holds(z3.Implies(z3.And(i >= lo, i < hi), t >= 0)))
        if nonneg[-1]:
            out.append(x >= 0)
    for a, (x, d) in enumerate(found):
        for b, (y, e) in enumerate(found):
            if a == b or d is not e or not all(x.arg(k).eq(y.arg(k)) for k in range(x.num_args()) if k != 1):
                continue
            lo, h1, h2 = x.arg(0), x.arg(1), y.arg(1)
            at = pointwise(x, d, h1)
            out.append(z3.Implies(z3.And(h1 >= lo, h2 == h1 + 1), y == x + at))
            if nonneg[b]:
                out.append(z3.Implies(h1 <= h2, x <= y))
                out.append(z3.Implies(z3.And(lo <= h1, h1 < h2), x + at <= y))
    for a in range(len(found)):
        for b in range(a + 1, len(found)):
            x, y = found[a][0], found[b][0]
            if not (x.arg(0).eq(y.arg(0)) and x.arg(1).eq(y.arg(1))):
                if not holds(z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1))):
                    continue
            tx, ty = terms[a], terms[b]
            rng = z3.And(i >= x.arg(0), i < x.arg(1))
            if holds(z3.Implies(rng, tx == ty)):
                out.append(x == y)
            elif holds(z3.Implies(rng, tx <= ty)):
                out.append(x <= y)
            elif holds(z3.Implies(rng, tx >= ty)):
                out.append(x >= y)
    return out


def pointwise(app, d, i):
    subs = [(d['i'], i)] + [(c, a) for c, a in zip(d['ctx'], app.children()[2:])]
    return z3.substitute(d['term'], *subs)


# ------------------------------------------------------------------ parallel
def discharge(obls, jobs=None, **kw):
    """obls: list of dicts with pc, goal, qf, sums...; returns list of dict results (same order)"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    n = len(obls)
    if n == 0:
        return []
    res = [None] * n
    if n == 1 or jobs == 1:
        for i, o in enumerate(obls):
            res[i] = one(o, kw)
        return res
    # the parent hands out one obligation at a time; a worker that dies is replaced
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')

    def work(c):
        while True:
            try:
                i = c.recv()
            except EOFError:
                break
            if i < 0:
                break
            try:
                r = one(obls[i], kw)
            except Exception as x:
                r = dict(status='error', stage=0, backend='', t=0, note=repr(x), model=None)
            c.send((i, r))
        os._exit(0)

    todo = list(range(n))[::-1]
    tries = {}
    live = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=work, args=(b,))
        p.start()
        b.close()
        live[a] = [p, None]
        give(a)

    def give(a):
        if todo:
            i = todo.pop()
            live[a][1] = i
            a.send(i)
        else:
            live[a][1] = None
            try:
                a.send(-1)
            except (BrokenPipeError, OSError):
                pass
            p = live.pop(a)[0]
            a.close()
            p.join(5)

    for _ in range(min(jobs, n)):
        spawn()
    while live:
        for a in wait(list(live), timeout=60):
            try:
                i, r = a.recv()
                res[i] = r
                live[a][1] = None
                give(a)
            except (EOFError, ConnectionResetError):
                p, i = live.pop(a)
                p.join(5)
                if i is not None:
                    tries[i] = tries.get(i, 0) + 1
                    if tries[i] < 2:
                        todo.append(i)
                    else:
                        res[i] = dict(status='error', stage=0, backend='', t=0, note='solver process ended', model=None)
                if todo:
                    spawn()
    return res


def one(o, kw):
    k = dict(kw)
    if 'timeouts' in o:
        k['timeouts'] = o['timeouts']
    r = prove(o['pc'], o['goal'], o.get('qf', ()), o.get('sums'), extra=o.get('extra', ()), **k)
    m = None
    if r.model is not None:
        m = {d.name(): str(r.model[d]) for d in r.model.decls() if d.arity() == 0}
    return dict(status=r.status, stage=r.stage, backend=r.backend, t=r.t, note=r.note, model=m)
