"""Self-proof of the arithmetic lemma library used by prove.py (stage 2).

Every instance that inst_lemmas would add for schematic applications over fresh
constants is itself an obligation, discharged from the definitions of the
operations alone."""
import z3
from terms import *
import prove as PR


def obligations():
    a, b, c, d, s, t = z3.Ints('la lb lc ld ls lt')
    out = []
    p = z3.IntVal(27)
    fam = {
        'mulh': [MULH(p, a, b)], 'mulh2': [MULH(p, a, b), MULH(p, c, b)], 'mulh3': [MULH(p, a, b), MULH(p, c, d)],
        'divh': [DIVH(p, a, b)], 'divh2': [DIVH(p, a, b), DIVH(p, c, b)], 'divh3': [DIVH(p, a, b), DIVH(p, c, d)],
        'nldiv': [NLDIV(a, b)], 'nldiv2': [NLDIV(a, b), NLDIV(c, b)], 'nldiv3': [NLDIV(a, b), NLDIV(c, d)],
        'nlmul': [NLMUL(a, b)], 'nlmul2': [NLMUL(a, b), NLMUL(c, b)], 'nlmul3': [NLMUL(a, b), NLMUL(c, d)],
        'rs': [RS(a, s, t)], 'rs2': [RS(a, s, t), RS(b, s, t)], 'rh': [RH(a, s, t)], 'rh2': [RH(a, s, t), RH(b, s, t)],
        'p10': [P10(a)],
    }
    seen = set()
    for name, aps in fam.items():
        f = z3.And(*[x == x + z3.Int(f'lz{i}') - 1 for i, x in enumerate(aps)])
        for g in PR.inst_lemmas([f]):
            k = g.sexpr()
            if k in seen:
                continue
            seen.add(k)
            hyps, goal = schematic(g)
            out.append(dict(name=f'lemma {name} #{len(seen)}', pc=hyps, qf=[], goal=goal, where='lemma library', lemma=True))
    return out


def schematic(g):
    """replace each operation by a fresh result constrained by its definition (Euclidean form)"""
    hyps = []
    cache = {}
    n = [0]

    def fresh(nm):
        n[0] += 1
        return z3.Int(f'{nm}#{n[0]}')

    def pow_(e):
        e = z3.simplify(e)
        v = PR.iv(e)
        if v is not None:
            return z3.IntVal(10 ** v)
        k = ('p', e.sexpr())
        if k not in cache:
            r = fresh('pw')
            hyps.append(r >= 1)
            hyps.append(z3.Implies(e <= 0, r == 1))
            hyps.append(z3.Implies(e >= 1, z3.And(r >= 10, r % 2 == 0)))
            cache[k] = r
        return cache[k]

    def div(num, den):
        q = fresh('q')
        hyps.append(z3.Implies(den > 0, z3.And(den * q <= num, num < den * q + den)))
        return q

    def go(x):
        i = ('t', x.get_id())
        if i in cache:
            return cache[i][0]
        ch = [go(c) for c in x.children()]
        r = None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity():
            nm = x.decl().name()
            if nm == 'nlmul':
                r = ch[0] * ch[1]
            elif nm == 'nldiv':
                r = div(ch[0], ch[1])
            elif nm == 'mulh':
                s = pow_(ch[0])
                r = div(ch[1] * ch[2] + s / 2, s)
            elif nm == 'divh':
                s = pow_(ch[0])
                r = div(ch[1] * s + ch[2] / 2, ch[2])
            elif nm == 'rs':
                up, dn = pow_(ch[2] - ch[1]), pow_(ch[1] - ch[2])
                r = z3.If(ch[2] >= ch[1], ch[0] * up, div(ch[0], dn))
            elif nm == 'rh':
                up, dn = pow_(ch[2] - ch[1]), pow_(ch[1] - ch[2])
                r = z3.If(ch[2] >= ch[1], ch[0] * up, div(ch[0] + dn / 2, dn))
            elif nm == 'p10':
                r = pow_(ch[0])
        if r is None:
            r = x.decl()(*ch) if ch else x
        cache[i] = (r, x)
        return r
    goal = go(g)
    return hyps, goal
