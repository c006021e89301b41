LIQ, LUT, LLIB = 'liquidity_layer/src/liquidity.rs', 'liquidity_layer/src/utils.rs', 'liquidity_layer/src/lib.rs'
RATES, MATH = 'common/rates/src/rates.rs', 'common/math/src/math.rs'
PRE = 'mod h;\nuse h::*;\n'
SEEDS = [
 dict(id='P03-exact-repay', prop='P03', edits=[(LUT, 'if *payment_amount_actual >= current_debt_actual {', 'if *payment_amount_actual > current_debt_actual {')],
  needs='a repayment of exactly the displayed debt, at an index where re-scaling that amount does not give the exact scaled shares',
  breaks='repaying exactly the current debt no longer clears the position: a dust share stays open',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    let (si, bi) = (nu(RAY), n("1234567890123456789012345678"));
    let debt = n("777777777777777777777123456789");
    p.state(&nu(RAY * 900), &debt, &nu(0), &si, &bi);
    let due = p.run(0, |sc| raw(&sc.scaled_to_original(&dec(&debt, 27), &dec(&bi, 27), 18)));
    let pay: u128 = due.to_string().parse().unwrap();
    let left = p.run(pay, |sc| raw(&sc.repay(user(), pos(AccountPositionType::Borrow, &debt), &price()).scaled_amount_ray));
    assert_eq!(left, nu(0), "position not cleared");
    assert_eq!(p.get()[1], nu(0));
}
'''),
 dict(id='P08-thin-reserves', prop='P08', edits=[(LIQ, 'let scaled_to_burn = if amount_to_transfer >= treasury_actual {', 'let scaled_to_burn = if amount_to_transfer >= current_reserves {')],
  needs='a revenue claim while the pool holds less than the treasury value',
  breaks='a partial revenue claim limited by reserves burns the whole treasury: the remainder is lost for the protocol',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    p.w.set_egld_balance(POOL, 400);
    p.state(&nu(RAY * 10), &nu(RAY * 9), &nu(RAY), &nu(RAY), &nu(RAY));
    let paid = p.run(0, |sc| N::from_bytes_be(sc.claim_revenue(&price()).amount.to_bytes_be().as_slice()));
    assert_eq!(paid, nu(400));
    let left = p.get()[2].clone();
    assert!(left > nu(RAY / 2), "treasury burnt: {}", left);
}
'''),
 dict(id='P06-fee-debt', prop='P06', edits=[(LIQ, 'let scaled_amount_to_add = cache.calculate_scaled_borrow(strategy_amount);', 'let scaled_amount_to_add = cache.calculate_scaled_borrow(&amount_to_send);')],
  needs='a strategy loan with a non-zero fee',
  breaks='the debt recorded for a strategy omits the fee, although the fee is credited to the treasury',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), WAD);
    p.state(&nu(RAY * 10), &nu(RAY), &nu(0), &nu(RAY), &nu(RAY));
    let d = p.run(0, |sc| raw(&sc.create_strategy(pos(AccountPositionType::Borrow, &nu(0)), &dec(&nu(WAD / 2), 18), &dec(&nu(WAD / 1000), 18), &price()).scaled_amount_ray));
    assert_eq!(d, nu(RAY / 2));
}
'''),
 dict(id='R03-fee-order', prop='R03', edits=[(LUT, '''            cache.supply_index_ray = new_supply_index;
            cache.borrow_index_ray = new_borrow_index;

            self.internal_add_protocol_revenue(cache, protocol_fee_ray);
''', '''            cache.borrow_index_ray = new_borrow_index;

            self.internal_add_protocol_revenue(cache, protocol_fee_ray);
            cache.supply_index_ray = new_supply_index;
''')],
  needs='accrual over some time with open debt and a reserve factor',
  breaks='the protocol fee is converted to shares at the old supply index, so the treasury gets more than its share of the interest',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    p.state(&nu(RAY * 10), &nu(RAY * 9), &nu(0), &nu(RAY), &nu(RAY));
    p.time(86400 * 365);
    p.run(0, |sc| { sc.update_indexes(&price()); });
    let [_, b, rev, si, bi] = p.get();
    let interest = (b * &bi) / nu(RAY) - nu(RAY * 9);
    let fee = interest / nu(10);
    let value = rev * si / nu(RAY);
    let diff = if value > fee { &value - &fee } else { &fee - &value };
    assert!(diff < nu(1000), "treasury value {} fee {}", value, fee);
}
'''),
 dict(id='P07-deep-loss', prop='P07', edits=[(LUT, 'let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());', 'let capped_bad_debt_ray = bad_debt_amount_ray;')],
  needs='a bad debt position worth more than the whole supply of its pool',
  breaks='writing off a debt larger than the supplied value reverts, so the bad debt can never be cleaned up',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    p.state(&nu(RAY), &nu(RAY * 2), &nu(0), &nu(RAY), &nu(RAY));
    p.run(0, |sc| { sc.seize_position(pos(AccountPositionType::Borrow, &nu(RAY * 2)), &price()); });
    assert_eq!(p.get()[1], nu(0));
}
'''),
 dict(id='P05-low-decimals', prop='P05', edits=[(LIQ, '''        let required_repayment = self.rescale_half_up(
            &self.mul_half_up(amount, &(self.bps() + fees.clone()), RAY_PRECISION),
            cache.parameters.asset_decimals,
        );''', '''        let required_repayment = self.mul_half_up(
            amount,
            &(self.bps() + fees.clone()),
            cache.parameters.asset_decimals,
        );''')],
  needs='an asset with fewer than four decimals and a fee below its smallest unit rate (0.09% with two decimals)',
  breaks='for low-decimals assets the fee rate is truncated to the asset precision, so flash loans need no fee',
  main=PRE + r'''
const BORROWER: TestSCAddress = TestSCAddress::new("borrower");
const BCODE: MxscPath = MxscPath::new("mxsc:borrower.mxsc.json");
mod borrower {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Borrower {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(flash)]
        fn flash(&self) {
            let p = self.call_value().egld_or_single_esdt();
            self.tx().to(self.blockchain().get_caller()).payment(p).transfer();
        }
    }
}
fn main() {
    let mut q = params();
    q.decimals = 2;
    let mut p = Pool::new(q, 10_000_000);
    p.w.register_contract(BCODE, borrower::ContractBuilder);
    p.w.account(BORROWER).code(BCODE).balance(0u64);
    p.state(&nu(RAY * 100_000), &nu(0), &nu(0), &nu(RAY), &nu(RAY));
    // 50000.00 borrowed at 0.09%: 45.00 are due; the callee repays only the principal
    let ok = p.fails(0, |sc| {
        let to = ManagedAddress::from(BORROWER.eval_to_array());
        sc.flash_loan(&egld(), &dec(&nu(5_000_000), 2), &to, ManagedBuffer::from("flash"), ManagedArgBuffer::new(), &dec(&nu(9), 4), &price());
    });
    assert!(ok, "flash loan closed without its fee");
}
'''),
 dict(id='R04-scaled-utilization', prop='R04', edits=[(RATES, 'let utilization = self.utilization(&borrowed_original, &supplied_original);', 'let _ = (&borrowed_original, &supplied_original);\n            let utilization = self.utilization(&borrowed, &supplied);')],
  needs='a pool whose two indexes have diverged, and elapsed time',
  breaks='the simulated indexes use the ratio of shares instead of values, so solvency checks see different debts than the pool commits',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    let st = [nu(RAY * 100), nu(RAY * 60), nu(0), nu(RAY + RAY / 10), nu(RAY + RAY / 5)];
    p.state(&st[0], &st[1], &st[2], &st[3], &st[4]);
    p.time(86400 * 30);
    let sim = p.run(0, |sc| {
        let m = sc.simulate_update_indexes(86400 * 30 * 1000, 0, dec(&st[1], 27), dec(&st[4], 27), dec(&st[0], 27), dec(&st[3], 27), sc.parameters().get());
        (raw(&m.borrow_index_ray), raw(&m.supply_index_ray))
    });
    p.run(0, |sc| { sc.update_indexes(&price()); });
    let g = p.get();
    assert_eq!((g[4].clone(), g[3].clone()), sim);
}
'''),
 dict(id='R01-cap-late', prop='R01', edits=[(RATES, '''        let capped_rate = if annual_rate > parameters.max_borrow_rate_ray {''',
   '''        let capped_rate = if utilization >= parameters.optimal_utilization_ray
            && annual_rate > parameters.max_borrow_rate_ray
        {'''), (RATES, 'let utilization_ratio = utilization\n', 'let utilization_ratio = utilization\n                .clone()\n'),
   (RATES, 'let excess_utilization = utilization.sub(parameters.mid_utilization_ray.clone());', 'let excess_utilization = utilization.clone().sub(parameters.mid_utilization_ray.clone());'),
   (RATES, '''                parameters
                    .optimal_utilization_ray
                    .sub(parameters.mid_utilization_ray),''', '''                parameters
                    .optimal_utilization_ray
                    .clone()
                    .sub(parameters.mid_utilization_ray),'''),
   (RATES, 'let excess_utilization = utilization.sub(parameters.optimal_utilization_ray.clone());', 'let excess_utilization = utilization.clone().sub(parameters.optimal_utilization_ray.clone());'),
   (RATES, '.div(self.ray().sub(parameters.optimal_utilization_ray));', '.div(self.ray().sub(parameters.optimal_utilization_ray.clone()));')],
  needs='a parameter set whose maximum rate is already reached below the optimal utilization',
  breaks='the borrow rate exceeds the configured maximum in the first two segments of the curve',
  main=PRE + r'''fn main() {
    let mut q = params();
    q.max = RAY / 20;
    q.s1 = RAY / 10;
    let mut p = Pool::new(q, 0);
    p.state(&nu(RAY * 100), &nu(RAY * 39), &nu(0), &nu(RAY), &nu(RAY));
    let r = p.run(0, |sc| raw(&sc.borrow_rate()));
    assert!(r <= nu(RAY / 20 / 31_556_926_000 + 1), "rate {}", r);
}
'''),
 dict(id='P02-fee-without-liquidation', prop='P02', edits=[(LUT, '        if is_liquidation {\n', '        if is_liquidation || protocol_fee_asset_decimals_opt.is_some() {\n')],
  needs='a withdrawal outside liquidation that carries a fee argument',
  breaks='a plain withdrawal is charged the liquidation protocol fee',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), WAD);
    p.state(&nu(RAY), &nu(0), &nu(0), &nu(RAY), &nu(RAY));
    p.run(0, |sc| { sc.withdraw(&user(), dec(&nu(WAD / 2), 18), pos(AccountPositionType::Deposit, &nu(RAY)), false, Some(dec(&nu(WAD / 10), 18)), &price()); });
    p.w.check_account(USER).balance((WAD / 2) as u64);
}
'''),
 dict(id='P09-full-utilization', prop='P09', edits=[(LLIB, '''            require!(
                parameters.optimal_utilization_ray < self.ray(),''', '''            require!(
                parameters.optimal_utilization_ray <= self.ray(),''')],
  needs='a parameter update with an optimal utilization of exactly 100%',
  breaks='the update is accepted and the next accrual above the kink divides by zero',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    let q = params();
    let f = p.fails(0, |sc| {
        let b = |x: u128| BigUint::<DebugApi>::from(x);
        sc.update_params(b(q.max), b(q.base), b(q.s1), b(q.s2), b(q.s3), b(q.mid), b(RAY), b(q.rf), price());
    });
    assert!(f, "optimal utilization of 100% accepted");
}
'''),
 dict(id='P12-seized-twice', prop='P12', edits=[(LIQ, '''                cache.revenue_ray += &position.scaled_amount_ray;
''', '''                cache.revenue_ray += &position.scaled_amount_ray;
                cache.supplied_ray += &position.scaled_amount_ray;
''')],
  needs='seizure of a dust collateral position',
  breaks='seized shares are counted twice in the supply total, diluting the interest of every supplier',
  main=PRE + r'''fn main() {
    let mut p = Pool::new(params(), 0);
    p.state(&nu(RAY * 5), &nu(RAY), &nu(0), &nu(RAY), &nu(RAY));
    p.run(0, |sc| { sc.seize_position(pos(AccountPositionType::Deposit, &nu(RAY)), &price()); });
    let g = p.get();
    assert_eq!((g[0].clone(), g[2].clone()), (nu(RAY * 5), nu(RAY)));
}
'''),
]
