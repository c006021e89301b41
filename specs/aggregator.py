"""Contracts of the price aggregator's entry points (price_aggregator)."""
from terms import *
from values import *
from engine import *
from contracts import *

CR = 'price_aggregator'
MAX_AGE = 30
MAX_ROUND = 1800
MAX_LIST = 50


def ty(n, *g):
    return {'k': 'path', 'p': [[n, list(g)]]}


BIG, ADDR, U64, USZ = ty('BigUint'), ty('ManagedAddress'), ty('u64'), ty('usize')
SUBS = 'submissions.inner'
ROUND = ty('TimestampedPrice')


def subs(pair):
    return Mapper('MapMapper', SUBS, pair, [ADDR, BIG])


def oracles():
    return Mapper('MapMapper', 'oracle_status', (), [ADDR, ty('OracleStatus')])


class Pair:
    """state of one token pair (plus an arbitrary oracle o of it) read at the current point of the execution"""

    def __init__(s, ex, pair, who, o):
        m = subs(pair)
        s.len = ex.coll_len(m)
        s.has = ex.coll_has(m, (who,))
        q = ex.map_get(m, (o,))
        s.ohas, s.oval = q.some, (q.v.t if q.v is not None else None)
        q = ex.map_get(m, (who,))
        s.val = q.v.t if q.v is not None else None
        s.first = ex.read_cell('first_submission_timestamp', pair, U64).t
        s.unset = ex.cell_empty('rounds', pair, ROUND)
        s.round = None
        if is_c(s.unset) and s.unset:
            return
        s.round = ex.read_cell('rounds', pair, ROUND)


class Submission:
    """contract of one accepted call for (pair, price): captured before, checked after"""

    def __init__(s, ex, a, b, price, tag):
        s.ex, s.price, s.tag = ex, price, tag
        s.pair = (a, b)
        s.caller = ex.const_leaf('caller', 'ManagedAddress').t
        s.o = ex.leaf('arb.oracle', (), U)
        s.other = (ex.leaf('arb.from', (), U), ex.leaf('arb.to', (), U))
        ex.fact(z(Not(eq(s.o, s.caller))))
        ex.fact(z(Or(Not(eq(s.other[0], a)), Not(eq(s.other[1], b)))))
        s.now = ex.const_leaf('block_timestamp', 'u64').t
        ex.fact(s.now < 2 ** 53)
        p = s.p = Pair(ex, s.pair, s.caller, s.o)
        q = s.q = Pair(ex, s.other, s.caller, s.o)
        s.quorum = ex.read_cell('submission_count', (), USZ).t
        s.listed = ex.coll_has(oracles(), (s.caller,))
        s.olisted = ex.coll_has(oracles(), (s.o,))
        # storage invariants of the module: written from earlier block timestamps, one round per accepted quorum
        ex.fact(z(p.first) <= z(s.now))
        ex.fact(z(p.round.f['round'].t) < 2 ** 32 - 1)
        ex.fact(z(Implies(p.has, ge(p.len, 1)))); ex.fact(z(Implies(p.ohas, ge(p.len, 1))))
        ex.fact(z(p.len) < 2 ** 31)
        ex.fact(z(s.quorum) >= 1)

    def check(s):
        ex, p, O = s.ex, s.p, s.ex.oblige
        t = s.tag
        stale = And(gt(p.len, 0), gt(s.now, add(p.first, MAX_ROUND)))
        fresh = Or(eq(p.len, 0), stale)
        n0 = ite(stale, 0, p.len)
        had = And(p.has, Not(stale))
        ohad = And(p.ohas, Not(stale))
        acc = Not(had)
        n1 = ite(acc, add(n0, 1), n0)
        done = And(acc, ge(n1, s.quorum))
        r = Pair(ex, s.pair, s.caller, s.o)
        O(t + 'collected submissions counted', eq(r.len, ite(done, 0, n1)))
        O(t + 'submission recorded once per round', And(Implies(And(acc, Not(done)), And(r.has, eq(r.val, s.price) if r.val is not None else False)),
                                                   Implies(done, Not(r.has)),
                                                   Implies(had, And(r.has, eq(r.val, p.val) if r.val is not None else False))))
        O(t + 'submissions of the other oracles kept within the round', And(eqb(r.ohas, And(ohad, Not(done))),
                                                                     Implies(r.ohas, eq(r.oval, p.oval)) if r.oval is not None else True))
        O(t + 'round start', Implies(And(Not(done), gt(n1, 0)), eq(r.first, ite(fresh, s.now, p.first))))
        same_round = And(eqb(r.unset, p.unset), Implies(Not(p.unset), round_eq(r.round, p.round)))
        O(t + 'published price kept until the quorum is reached', Implies(Not(done), same_round))
        nxt = ite(p.unset, 0, add(p.round.f['round'].t, 1))
        if r.round is None:
            O(t + 'round published at quorum', Not(done))
        else:
            O(t + 'round published at quorum', Implies(done, And(Not(r.unset), eq(r.round.f['round'].t, nxt),
                                                            eq(r.round.f['timestamp'].t, s.now))))
        if not t:
            O('only oracles on the list', s.listed)
        # nothing else
        k = Pair(ex, s.other, s.caller, s.o)
        q = s.q
        O(t + 'other pairs untouched', And(eq(k.len, q.len), eqb(k.has, q.has), eqb(k.ohas, q.ohas), eqb(k.unset, q.unset),
                                           eq(k.first, q.first), Implies(Not(q.unset), round_eq(k.round, q.round)),
                                           Implies(q.ohas, eq(k.oval, q.oval))))
        O(t + 'quorum untouched', eq(ex.read_cell('submission_count', (), USZ).t, s.quorum))
        O(t + 'oracle list untouched', And(eqb(ex.coll_has(oracles(), (s.caller,)), s.listed), eqb(ex.coll_has(oracles(), (s.o,)), s.olisted)))
        s.median(r, done, n1, ohad, p)

    def median(s, r, done, n1, ohad, p):
        ex, O, t = s.ex, s.ex.oblige, s.tag
        sorts = [e for e in ex.trace if e['kind'] == 'sort']
        its = [e for e in ex.trace if e['kind'] == 'iterate' and e['m'].name == SUBS and e['what'] in ('values', 'iter')]
        if not sorts or not its:
            # either no round completes on this path, or a single submission needs no sorting
            O(t + 'published price is the median', Implies(done, And(eq(n1, 1), eq(r.round.f['price'].t, s.price)) if r.round is not None else False))
            return
        srt, it = sorts[-1], its[-1]
        n = ex.vec_len(srt['src'])
        O(t + 'median over every submission', Implies(done, And(eq(n, n1), eq(it['len'], n1))))
        j = ex.leaf('arb.j', (), I)
        save = ex.snapshot()
        ex.fact(j >= 0); ex.fact(z(lt(j, n)))
        a = ex.vec_get(srt['src'], j)
        b = it['seq'].elem(ex, j)
        if isinstance(b, Tup):
            b = b.e[1]
        O(t + 'median of the collected values', Implies(done, eq(a.t, b.t)))
        # the map iterated over is exactly this round's submissions
        cur, cep = ex.storage.get(SUBS, ()), ex.epoch.get(SUBS)
        ex.storage[SUBS] = it['snap']
        m = subs(s.pair)
        O(t + 'median over this pair', And(*[eq(x, y) for x, y in zip(it['m'].keys, s.pair)]))
        w = ex.map_get(m, (s.caller,)); v = ex.map_get(m, (s.o,))
        O(t + 'median over this round', Implies(done, And(w.some, eq(w.v.t, s.price) if w.v is not None else False, eqb(v.some, ohad),
                                                     Implies(v.some, eq(v.v.t, p.oval)) if v.v is not None else True)))
        dec = ex.dec, ex.dk
        ex.storage[SUBS] = cur
        h = fdiv(n, 2)
        S = lambda i: srt['out'].base.elem(ex, i).t
        odd = S(h)
        even = fdiv(add(S(sub(h, 1)), S(h)), 2)
        if r.round is None:
            O(t + 'published price is the median', Not(done))
        else:
            O(t + 'published price is the median', Implies(done, eq(r.round.f['price'].t, ite(eq(sub(n, mul(h, 2)), 0), even, odd))))


def eqb(a, b):
    a, b = cv(a), cv(b)
    if is_c(a) and is_c(b):
        return a == b
    return z(a) == z(b)


def round_eq(a, b):
    if a is None or b is None:
        return False
    return And(*[eq(a.f[k].t, b.f[k].t) for k in ('price', 'timestamp', 'round')])


def config(ck, **kw):
    cfg = ck.cfg(CR, ())
    cfg.iter_events = True
    cfg.max_paths = 20000
    for k, v in kw.items():
        setattr(cfg, k, v)
    return cfg


def paused0(ex):
    return ex.leaf('st:pause_module:paused', (), z3.BoolSort())


def timestamp_ok(ex, ts):
    now = ex.const_leaf('block_timestamp', 'u64').t
    return And(le(ts, now), le(sub(now, ts), MAX_AGE))


def submit(ck):
    fn = ck.by_endpoint(CR, 'submit')

    def th(ex):
        a, b = [ex.fresh(ty('ManagedBuffer'), 'arg.' + n) for n in ('from', 'to')]
        ts = ex.fresh(U64, 'arg.timestamp'); pr = ex.fresh(BIG, 'arg.price')
        s = Submission(ex, a.t, b.t, pr.t, '')
        ex.brs = ()
        ck.endpoint_fn(ex, fn, [a, b, ts, pr])
        ex.oblige('not while paused', Not(paused0(ex)))
        ex.oblige('timestamp neither in the future nor older than 30 s', timestamp_ok(ex, ts.t))
        s.check()
    ck.run('submit', CR, th, config(ck))


def submit_batch(ck):
    fn = ck.by_endpoint(CR, 'submitBatch')

    def hook(ex, x, tag):
        if not isinstance(x, Tup) or len(x.e) != 4:
            return None
        a, b, ts, pr = [ex.val(y) for y in x.e]
        ex.ghost['hooked'] = True
        s = Submission(ex, a.t, b.t, pr.t, 'element: ')

        def end():
            ex.oblige('element: timestamp neither in the future nor older than 30 s', timestamp_ok(ex, ts.t))
            ex.oblige('element: not while paused', Not(paused0(ex)))
            s.check()
        return end

    def th(ex):
        v = ex.fresh(ty('MultiValueEncoded', ty('MultiValue4', ty('ManagedBuffer'), ty('ManagedBuffer'), U64, BIG)), 'arg.submissions')
        ck.endpoint_fn(ex, fn, [v])
        ex.oblige('only oracles on the list', ex.leaf('st:oracle_status.has', (ex.const_leaf('caller', 'ManagedAddress').t,), z3.BoolSort()))
        ex.oblige('not while paused', Not(paused0(ex)))
        loops = [e for e in ex.trace if e['kind'] == 'loop']
        ex.oblige('every element processed once', And(len(loops) == 1, *[And(eq(e['lo'], 0), eq(e['hi'], ex.vec_len(v))) for e in loops]))
        ex.oblige('nothing outside the elements', all(e['kind'] in ('loop', 'require_not_paused', 'check_owner', 'iterate') for e in ex.trace))
    ck.run('submitBatch', CR, th, config(ck, iter_hook=hook))


def members(ex, a, o):
    m = oracles()
    x, y = ex.map_get(m, (a,)), ex.map_get(m, (o,))
    return x, y


def stats_eq(a, b):
    if a.v is None or b.v is None:
        return True
    return And(*[eq(a.v.f[k].t, b.v.f[k].t) for k in a.v.f])


def quorum_ok(ex, n):
    q = ex.read_cell('submission_count', (), USZ).t
    ex.oblige('quorum set as requested', eq(q, n))
    ex.oblige('quorum between 1 and the number of oracles, at most 50',
              And(ge(q, 1), le(q, MAX_LIST), le(q, ex.coll_len(oracles()))))


def is_owner(ex):
    return eq(ex.const_leaf('caller', 'ManagedAddress').t, ex.const_leaf('owner_address', 'ManagedAddress').t)


def oracle_loop(ex, kind):
    """hook: one element of the list of oracles to add / remove"""
    def hook(ex, x, tag):
        if not isinstance(x, Opq) or not str(x.t).startswith('arg.oracles'):
            return None
        o = ex.leaf('arb.oracle', (), U)
        ex.fact(z(Not(eq(o, x.t))))
        a0, o0 = members(ex, x.t, o)

        def end():
            a1, o1 = members(ex, x.t, o)
            if kind == 'add':
                ex.oblige('element: on the list afterwards', a1.some)
                ex.oblige('element: statistics of a listed oracle kept', Implies(a0.some, stats_eq(a0, a1)))
            else:
                ex.oblige('element: off the list afterwards', Not(a1.some))
            ex.oblige('element: other oracles untouched', And(eqb(o0.some, o1.some), Implies(o0.some, stats_eq(o0, o1))))
        return end
    return hook


def all_elements(ex, v):
    hi = [e for e in ex.trace if e['kind'] == 'loop' and any(w['kind'] == 'write' and w['cell'] == 'oracle_status' for p in e['paths'] for w in p[0])]
    ex.oblige('every element processed once', And(len(hi) == 1, *[And(eq(e['lo'], 0), eq(e['hi'], ex.vec_len(v))) for e in hi]))


def admin(ck):
    for ep, kind in (('init', 'add'), ('addOracles', 'add'), ('removeOracles', 'remove'), ('setSubmissionCount', None)):
        fn = ck.by_endpoint(CR, ep)

        def th(ex):
            n = ex.fresh(USZ, 'arg.count')
            v = ex.fresh(ty('MultiValueEncoded', ADDR), 'arg.oracles')
            args = {'init': [n, v], 'addOracles': [v], 'removeOracles': [n, v], 'setSubmissionCount': [n]}[ep]
            q0 = ex.read_cell('submission_count', (), USZ).t
            ck.endpoint_fn(ex, fn, args)
            if ep == 'addOracles':
                ex.oblige('quorum untouched', eq(ex.read_cell('submission_count', (), USZ).t, q0))
            else:
                quorum_ok(ex, n.t)
            if ep == 'init':
                ex.oblige('deployed paused', ex.paused())
            else:
                ex.oblige('only the owner', is_owner(ex))
            if kind:
                all_elements(ex, v)
            for c in set(ex.storage) - {'oracle_status', 'submission_count', 'pause_module:paused'}:
                ex.oblige('no other storage written', not ex.storage[c])
        ck.run(ep, CR, th, config(ck, iter_hook=oracle_loop(None, kind) if kind else None))
    fn = ck.by_endpoint(CR, 'upgrade')

    def th(ex):
        ck.endpoint_fn(ex, fn, [])
        ex.oblige('paused by an upgrade', ex.paused())
        for c in set(ex.storage) - {'pause_module:paused'}:
            ex.oblige('no other storage written', not ex.storage[c])
    ck.run('upgrade', CR, th, config(ck))


def views(ck):
    fn = ck.by_endpoint(CR, 'latestPriceFeed')

    def th(ex):
        a, b = [ex.fresh(ty('ManagedBuffer'), 'arg.' + n) for n in ('from', 'to')]
        unset = ex.cell_empty('rounds', (a.t, b.t), ROUND)
        r = ex.read_cell('rounds', (a.t, b.t), ROUND)
        try:
            v = ck.endpoint_fn(ex, fn, [a, b])
        except Revert:
            ex.oblige('answers whenever a price exists and the feed is not paused', Or(unset, paused0(ex), gt(ex.cv_vec().base.len, 0)))
            return
        ex.oblige('no price while paused', Not(paused0(ex)))
        ex.oblige('no price for a pair without a round', Not(unset))
        ex.oblige('price of the last round', And(eq(v.f['price'].t, r.f['price'].t), eq(v.f['timestamp'].t, r.f['timestamp'].t),
                                                 eq(v.f['round_id'].t, r.f['round'].t), eq(v.f['from'].t, a.t), eq(v.f['to'].t, b.t)))
        ex.oblige('view writes nothing', not any(ex.storage.values()))
    ck.run('latestPriceFeed', CR, th, config(ck, explore_reverts=True))
    fn2 = ck.by_endpoint(CR, 'latestRoundData')

    def th2(ex):
        v = ex.fresh(ty('MultiValueEncoded', ty('TokenPair')), 'arg.pairs')
        ck.endpoint_fn(ex, fn2, [v])
        ex.oblige('no price while paused', Not(paused0(ex)))
        ex.oblige('view writes nothing', not any(ex.storage.values()))
    ck.run('latestRoundData', CR, th2, config(ck))
