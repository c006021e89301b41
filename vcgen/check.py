"""One property check: symbolic runs of the functions under contract, obligations, discharge, report."""
import os, sys, json, time, collections
import z3
from terms import *
from values import *
from engine import *
from vm import VM
from program import Program, ToolError
import contracts as K
import prove as PR

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))


class Check:
    def __init__(self, pid, tier='quick', prog=None):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.prog = prog or Program()
        self.obls = []
        self.used = set()
        self.inlined = set()
        self.under = set()
        self.paths = collections.Counter()
        self.assumptions = []
        self.sums = {}
        self.filter = None        # obligation-name filter
        self.verified = set()
        self.elsewhere = set()    # contracts another property's check discharges
        self.bounded = []
        self.lemmas_used = True

    # ---------------------------------------------------------------- config
    def cfg(self, crate, use=None, **kw):
        c = Config(crate)
        use = K.CONTRACTS if use is None else {n: K.CONTRACTS[n] for n in use}
        c.contracts = {n: k.handler() for n, k in use.items()}
        c.merge = default_merge
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ------------------------------------------------------------------ runs
    def run(self, label, crate, thunk, cfg, need_ok=True):
        """enumerate the paths of thunk(ex); thunk registers its obligations with ex.oblige"""
        ex = VM(self.prog, cfg)
        ex.sums = self.sums
        outs = ex.enum(lambda: thunk(ex))
        n = sum(1 for k, _, _ in outs if k in ('ok', 'return'))
        self.paths[label] += n
        if need_ok and n == 0:
            self.obls.append(dict(name=label + ':reachable', pc=[], qf=[], goal=False, where=label))
        for o in ex.obligations:
            o = dict(o)
            o['name'] = f"{label}:{o['name']}" if not o['name'].startswith(label) else o['name']
            o['crate'] = crate
            if self.filter is None or self.filter(o['name']):
                self.obls.append(o)
        self.used |= ex.used
        self.inlined |= ex.inlined
        self.under.add(label)
        return outs

    def endpoint(self, ex, name, args):
        """call an endpoint the way the framework does (attribute checks first)"""
        fn = self.prog.lookup(ex.crate, name)
        return self.endpoint_fn(ex, fn, args)

    def endpoint_fn(self, ex, fn, args):
        kinds = [a.split('(')[0].strip() for a in fn.attrs]
        if 'only_owner' in kinds:
            ex.event('check_owner')
            ex.require(eq(ex.const_leaf('caller', 'ManagedAddress').t,
                          ex.const_leaf('owner_address', 'ManagedAddress').t), 'owner only')
        if 'payable' not in kinds:
            ex.assume(eq(ex.cv_vec().base.len, 0))
        n = len([p for p in fn.sig['a'] if not p.get('self')])
        if len(args) != n:
            raise ToolError(f'endpoint {fn.name} takes {n} arguments, specification has {len(args)}')
        v = ex.call_fn(fn, [SELF] + list(args))
        return ex.val(v)

    def by_endpoint(self, crate, ep):
        """find the function exposed under the on-chain endpoint name"""
        for k, f in self.prog.endpoint_fns(crate):
            for a in f.attrs:
                h = a.split('(')[0].strip()
                if h in ('endpoint', 'view') and '(' in a:
                    nm = a[a.index('(') + 1:a.rindex(')')].strip().strip('"')
                    if nm == ep:
                        return f
            if f.name == ep:
                return f
            if ep == 'init' and k == 'init' or ep == 'upgrade' and k == 'upgrade':
                return f
        raise ToolError(f'endpoint {ep} not found in {crate}')

    # -------------------------------------------------------------- contracts
    def verify_contract(self, name):
        c = K.CONTRACTS[name]
        if name in self.verified:
            return
        self.verified.add(name)
        if c.by and c.by != self.pid:
            self.verified.discard(name); self.elsewhere.add(name)
            self.assume(f'contract of {name} (discharged by the check of {c.by})')
            return
        if c.verify:
            flt, self.filter = self.filter, None
            c.verify(self)
            self.filter = flt
            return
        fn = self.prog.lookup(c.crate, name, must=False)
        if fn is None or fn.body is None:
            raise ToolError(f'function under contract {name} not found')
        cfg = self.cfg(c.crate, c.deps)
        cfg.explore_reverts = True
        cfg.scales = {f'arg.{k}': v for k, v in c.scales.items()}
        cfg.merge = None
        flt, self.filter = self.filter, None

        def thunk(ex):
            if c.args:
                args = c.args(ex)
            else:
                args = [SELF]
                for p in fn.sig['a'][1:]:
                    nm = p['p']['n'] if p['p']['k'] == 'ident' else 'a%d' % len(args)
                    args.append(ex.fresh(p['t'], 'arg.' + nm))
            if name in ('mul_half_up', 'div_half_up', 'rescale_half_up') or c.scales.get('*prec'):
                p = args[-1].t
                ex.fact(z(p) <= 27)
            ex.quiet = False
            pre, res, facts = c.spec(ex, [ex.val(a) for a in args[1:]])
            if c.requires:
                for q in pre:
                    ex.assume(q)
            dfn = c.define or (lambda t: t)
            try:
                v = ex.val(ex.inline_call(fn, args, name))
            except Revert:
                ex.oblige('reverts only outside its precondition', False if c.requires else Not(And(*pre)))
                return
            if not c.requires:
                ex.oblige('reverts outside its precondition', And(*pre))
            for (p1, a), (p2, b) in zip(leaves(v), leaves(res)):
                ex.oblige('result' + p1, eq(a, dfn(b) if not is_c(b) else b))
            for i, f in enumerate(facts):
                ex.oblige(f'post{i}', dfn(f) if not is_c(f) else f)
        self.run('contract ' + name, c.crate, thunk, cfg)
        self.filter = flt

    def verify_used(self):
        while True:
            todo = [n for n in sorted(self.used) if n not in self.verified and n not in self.elsewhere]
            if not todo:
                break
            for n in todo:
                self.verify_contract(n)

    def verify_lemmas(self):
        import lemmas
        self.obls += lemmas.obligations()

    # ------------------------------------------------------------------ finish
    def discharge(self, **kw):
        for o in self.obls:
            o.setdefault('sums', self.sums)
        self.results = PR.discharge(self.obls, **kw)
        return self.results

    def failures(self):
        return [(o, r) for o, r in zip(self.obls, self.results) if r['status'] != 'proved']


MERGE_NO = set()


def default_merge(fn):
    """functions whose paths are joined: no storage-touching entry points, small pure helpers"""
    kinds = [a.split('(')[0].strip() for a in fn.attrs]
    if any(k in ('endpoint', 'view', 'init', 'upgrade') for k in kinds):
        return False
    return True
