"""python3-vt run.py <property> [quick|thorough]   — decide one property on /repo's current source"""
import sys, os, json, time, traceback, collections
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_OUT', os.path.join(HERE, 'evidence'))
sys.path[:0] = [os.path.join(HERE, 'vcgen'), os.path.join(HERE, 'specs')]
sys.setrecursionlimit(20000)
from check import Check, ToolError
import props

TRUSTED = [
    'syn 2 parser and the AST dumper in /verif/dumper (parses /repo sources mechanically on every run; macros other than '
    'require!/sc_panic!/matches!/assert! are not expanded)',
    'the verification-condition generator in /verif/vcgen (symbolic semantics of the Rust subset used by the contracts)',
    'assumed contracts of multiversx-sc 0.59: BigUint/BigInt/ManagedDecimal arithmetic, storage mappers, call value, '
    'token transfers, synchronous calls, transaction rollback on error, #[only_owner]/#[payable] enforcement',
    'SMT solvers z3 4.x (python bindings) and cvc5 1.1.2',
]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[pid]
    try:
        ck = Check(pid, tier)
        P['run'](ck)
        ck.verify_used()
        ck.verify_lemmas()
        t1 = time.time()
        to = (2000, 8000, 20000) if tier == 'quick' else (5000, 30000, 60000)
        res = ck.discharge(timeouts=to)
    except ToolError as x:
        print('ERROR: the machinery cannot decide this source:', x)
        traceback.print_exc()
        return 3
    fails = ck.failures()
    known = load_known(pid)
    by = collections.Counter(f"{r['backend']} stage {r['stage']}" for r in res if r['status'] == 'proved')
    names = sorted({o['name'] for o in ck.obls})
    bad = {}
    for o, r in fails:
        bad.setdefault(o['name'], (o, r))
    kn = {n: k for n in bad for k in known if k['obligation'] == n}
    viol = {n: v for n, v in bad.items() if n not in kn}
    cov = dict(obligations=len(res), discharged=sum(r['status'] == 'proved' for r in res),
               checker_cmd=f'python3-vt run.py {pid} {tier}',
               trusted_base=TRUSTED,
               named_obligations=len(names), samples=names[:12],
               functions_under_contract=sorted(ck.under) + sorted('contract ' + n for n in ck.verified),
               functions_executed_inline=len(ck.inlined), paths=dict(ck.paths),
               by_backend=dict(by), solver_seconds=round(sum(r['t'] for r in res), 2),
               generation_seconds=round(t1 - t0, 2), tier_timeouts_ms=list(to))
    if ck.bounded:
        cov['bounded_stand_ins'] = ck.bounded
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=ck.assumptions + P.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for n, k in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        path, found = write_replay(pid, viol, ck)
        for n, (o, r) in sorted(viol.items())[:20]:
            print(f'failed obligation: {n} [{r["status"]}] {r["note"]}')
        print(f'VIOLATION property={pid} replay={path}' + ('' if found else ' no-failing-input-found'))
        return 1
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged "
          f"({len(names)} named), {ev['wall_s']} s")
    return 0


def load_known(pid):
    """lines  finding: {json with property, obligation, what}   (lines  fixed: ...  suppress nothing)"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                k = json.loads(l[len('finding:'):])
                if k['property'] == pid:
                    out.append(k)
    return out


def write_replay(pid, viol, ck):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '.txt')
    found = False
    with open(path, 'w') as f:
        for n, (o, r) in sorted(viol.items()):
            f.write(f'FAILED OBLIGATION {n}\n  status {r["status"]} (stage {r["stage"]}, {r["backend"]}) {r["note"]}\n')
            f.write('  goal: ' + str(o['goal'])[:4000] + '\n')
            if r['model']:
                f.write('  solver model:\n')
                for k, v in sorted(r['model'].items()):
                    f.write(f'    {k} = {v}\n')
            f.write('  path condition:\n')
            for c in o['pc']:
                f.write('    ' + str(c).replace('\n', ' ')[:600] + '\n')
            f.write('\n')
        try:
            import replay
            rep = replay.attempt(pid, viol, ck)
        except Exception as x:      # a replay that cannot be carried out never decides anything
            rep = None
            f.write(f'replay not carried out: {x!r}\n')
        if rep:
            found = True
            f.write('REPLAYED ON THE REAL CODE\n' + rep + '\n')
    return path, found


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
