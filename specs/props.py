"""Which runs decide which property."""
import pool, rates, mathspec, aggregator

PROPS = {}


def prop(pid, run, level='proof', assumptions=()):
    PROPS[pid] = dict(run=run, level=level, assumptions=list(assumptions))


POOL_STATE = ('pool storage satisfies its own invariant at entry: parameters ordered as validated at deployment and update, last accrual not in the '
              'future, borrow index at least 1, supply index positive, totals in RAY precision (established by init and preserved: P09, P01)')
ENV = 'block timestamp in milliseconds is below 2^53 and asset decimals are at most 18'
A = [POOL_STATE, ENV]


def contract_if_present(ck, *names):
    for n in names:
        import contracts as K
        if ck.prog.lookup(K.CONTRACTS[n].crate, n, must=False) is not None:
            ck.verify_contract(n)


# ------------------------------------------------------------------ fixed point arithmetic
def m01(ck):
    contract_if_present(ck, 'mul_half_up', 'div_half_up', 'rescale_half_up')


def m02(ck):
    mathspec.mul_signed(ck)
    mathspec.div_signed(ck)


prop('M01', m01, assumptions=['precisions up to 27 decimals'])
prop('M02', m02, assumptions=['precisions up to 27 decimals'])


# ------------------------------------------------------------------ interest rates
def r01(ck):
    contract_if_present(ck, 'calculate_borrow_rate')
    rates.curve_lemmas(ck)
    pool.run_views(ck, ['borrowRate', 'capitalUtilisation'])


def r02(ck):
    contract_if_present(ck, 'calculate_compounded_interest')
    rates.growth_lemmas(ck)


STATE_TAGS = [c + ' after' for c in pool.CELLS] + ['committed before the external call']


def r03(ck):
    pool.run_eps(ck, ['updateIndexes'], STATE_TAGS)
    pool.run_wrapped(ck, pool.ep_monotone, [n for n in pool.MUTATING if n != 'flashLoan'], 'monotone')


def r04(ck):
    rates.simulate(ck)
    pool.run_eps(ck, ['updateIndexes'], ['borrow_index after', 'supply_index after', 'returned'])


prop('R01', r01, assumptions=A)
prop('R02', r02)
prop('R03', r03, assumptions=A)
prop('R04', r04, assumptions=A)
prop('R05', lambda ck: pool.run_views(ck, list(pool.VIEWS)), assumptions=A)

# ------------------------------------------------------------------ liquidity pool
OUT = ['nothing leaves', 'nothing else leaves', 'amount sent', 'recipient', 'token sent', 'single outgoing', 'within reserves', 'loan payment',
       'exactly one external call']
prop('P01', lambda ck: pool.run_eps(ck, pool.MUTATING, STATE_TAGS), assumptions=A)
prop('P02', lambda ck: pool.run_eps(ck, ['supply', 'withdraw']), assumptions=A)
prop('P03', lambda ck: pool.run_eps(ck, ['borrow', 'repay']), assumptions=A)
prop('P04', lambda ck: pool.run_eps(ck, list(pool.EPS), OUT), assumptions=A)
prop('P05', lambda ck: pool.run_eps(ck, ['flashLoan']), assumptions=A + [
    'the contract called by the flash loan is arbitrary: the pool totals and indexes it leaves behind are unconstrained (its parameters keep asset and decimals)'])
prop('P06', lambda ck: pool.run_eps(ck, ['createStrategy']), assumptions=A)


def p07(ck):
    pool.run_eps(ck, ['seizePosition'])
    pool.live_seize(ck)


prop('P07', p07, assumptions=A)
prop('P08', lambda ck: pool.run_eps(ck, ['claimRevenue', 'addRewards']), assumptions=A)


def p09(ck):
    pool.run_eps(ck, ['init', 'updateParams'])
    pool.run_eps(ck, [n for n in pool.MUTATING if n != 'updateParams'] + ['upgrade'], ['parameters unchanged', 'keeps the state'])


prop('P09', p09, assumptions=A)
prop('P10', lambda ck: pool.run_eps(ck, list(pool.EPS), ['caller is owner', 'pool asset', 'borrowed asset']), assumptions=A)
prop('P11', pool.live_accrual, assumptions=A)
prop('P12', lambda ck: pool.run_wrapped(ck, lambda n: pool.ep_conserve(n, pool.CONS[n]), list(pool.CONS), 'conservation'), assumptions=A + [
    'inductive hypothesis: at entry the supplied shares cover the treasury shares'])


# ------------------------------------------------------------------ price aggregator
GUARD = ['not while paused', 'timestamp neither', 'only oracles', 'nothing outside', 'every element processed', 'oracle list untouched', 'reachable']
MEDIAN = ['median', 'reachable']
AGG = ['block timestamps are below 2^53, fewer than 2^32-1 rounds per pair and 2^31 oracles',
       'storage of the aggregator satisfies its own invariant at entry: stored submission times are not in the future, the quorum is at least 1 (A04), a recorded submission is counted',
       'sort_unstable returns the elements in ascending order (core library)']


def tagged(ck, run, keep):
    old = ck.filter
    ck.filter = keep
    run(ck)
    ck.filter = old


def agg(keep):
    def run(ck):
        tagged(ck, aggregator.submit, keep)
        tagged(ck, aggregator.submit_batch, keep)
    return run


def has(tags):
    return lambda n: any(t in n for t in tags)


prop('A01', agg(has(GUARD)), assumptions=AGG)
prop('A02', agg(lambda n: not has(GUARD + MEDIAN)(n) or 'reachable' in n or 'every element' in n), assumptions=AGG)
prop('A03', agg(has(MEDIAN)), assumptions=AGG)
prop('A04', aggregator.admin, assumptions=AGG)
prop('A05', aggregator.views, assumptions=AGG)


# ------------------------------------------------------------------ controller: oracle
import oracle
CTL = ['controller storage satisfies its own invariant at entry: a position is stored under its own account, side and token; risk fields are at most 100%',
       'liquidity pools are those this controller deployed and behave as verified (P01-P12): a returned position differs from the one passed only in its scaled amount',
       'prices and market indexes of a token do not change within one transaction except through the calls the specification tracks',
       'collections hold fewer than 2^31 entries; asset decimals are at most 18']
ORA = ['external price contracts (aggregator storage, xExchange, Onedex, liquid staking) are arbitrary; the price is specified as a function of what they return',
       'xEGLD and LEGLD are registered with their 18 decimals', 'ESDT tickers contain no dash (so none equals EGLD-000000)']
prop('C19', oracle.resolution, assumptions=ORA)

# ------------------------------------------------------------------ controller: accounts
import controller
BASIC = ['reachable', 'precondition', 'unwrap_unchecked']


def ctl_run(runs, tags):
    """runs of entry-point specifications, keeping the obligations with one of the tags"""
    def run(ck):
        for r in runs:
            tagged(ck, r, has(tags + BASIC))
    return run


ACCOUNT = [controller.supply, controller.borrow, controller.withdraw, controller.repay]
prop('C02', ctl_run(ACCOUNT, ['account:']), assumptions=CTL)
prop('C03', ctl_run([controller.borrow], ['ltv:', 'list:']), assumptions=CTL)
prop('C04', ctl_run([controller.withdraw], ['health:']), assumptions=CTL)
prop('C05', ctl_run([controller.borrow], ['borrow rules:']), assumptions=CTL)
prop('C06', ctl_run([controller.supply], ['supply rules:', 'risk parameters', 'current threshold']), assumptions=CTL)
prop('C07', ctl_run([controller.borrow, controller.supply], ['cap:']), assumptions=CTL)
prop('C09', ctl_run([controller.borrow, controller.supply], ['limit:']), assumptions=CTL)
prop('C10', ctl_run(ACCOUNT, ['pool call:', 'positions:', 'frame:', 'borrow: ', 'supply: ', 'withdraw: ', 'repay: ']), assumptions=CTL)

# ------------------------------------------------------------------ controller: administration
import admin
ADMIN = ['pausing and the default issue callbacks come from multiversx-sc-modules (not in /repo): owner-only there',
         'collections hold fewer than 2^31 entries; fewer than 255 e-mode categories are ever created']


def admin_run(ops, tags, *more):
    def run(ck):
        tagged(ck, admin.run_ops(ops), has(tags + BASIC))
        for m in more:
            tagged(ck, m, has(tags + BASIC))
    return run


prop('C15', admin_run(admin.ALL, ['owner:', 'writes:'], admin.others), assumptions=ADMIN)
prop('C16', admin_run(admin.SETTERS + admin.ORACLE + admin.ASSETS, ['config:'], admin.init), assumptions=ADMIN)
prop('C17', admin_run(admin.POOLS, ['market:']), assumptions=ADMIN + [
    'the pool template runs the verified pool code: its initialiser (P09) calls nobody'])
prop('C22', admin_run(admin.EMODE, ['emode:']), assumptions=ADMIN + [
    'inductive hypothesis: at entry the two e-mode membership indexes agree with each other and with the flag of the asset, and a category is stored under its own number, at most the counter'])

# ------------------------------------------------------------------ controller: upkeep
import upkeep
import liquidation
UPKEEP = [upkeep.clean, upkeep.threshold, upkeep.flash, upkeep.indexes]
prop('C01', ctl_run(ACCOUNT + UPKEEP + [liquidation.liquidate], ['guard:']), assumptions=CTL)
prop('C11', ctl_run([upkeep.threshold], ['threshold:', 'account:', 'frame:']), assumptions=CTL)
prop('C08', ctl_run([controller.borrow, controller.repay, liquidation.liquidate], ['isolation:', 'isolated']), assumptions=CTL)
LIQ = CTL + ['frame used at the first seizure: repayments write debt positions only and each seizure its own collateral position (both are obligations of the same run), so a collateral position is as it was when the liquidation started']
prop('C13', ctl_run([liquidation.liquidate], ['health:', 'account:', 'conservation:', 'counted:', 'list:', 'refunds', 'repay:']), assumptions=LIQ)
prop('C14', ctl_run([liquidation.liquidate], ['seize:', 'closing amount:', 'pool call:', 'positions:', 'frame:']), assumptions=LIQ)
prop('C12', ctl_run([upkeep.clean], ['clean:', 'account:', 'isolation:', 'pool call:', 'frame:']), assumptions=CTL)
prop('C18', ctl_run([upkeep.flash], ['flash loan:', 'frame:']), assumptions=CTL + [
    'the pool contract verified by P05 enforces repayment with fee; the receiver is arbitrary'])


def c23(ck):
    for r in (upkeep.revenue, upkeep.indexes):
        tagged(ck, r, has(['claim_revenue:', 'update_indexes:', 'frame:'] + BASIC))
    tagged(ck, admin.run_ops([admin.REWARDS]), has(['market:'] + BASIC))


prop('C23', c23, assumptions=CTL + ['the pool sends the revenue it reports (P08)'])
