#![allow(dead_code, unused_imports)]
pub use common_constants::*;
pub use common_structs::*;
pub use controller::config::ConfigModule;
pub use controller::oracle::OracleModule;
pub use controller::positions::{account::PositionAccountModule, borrow::PositionBorrowModule, emode::EModeModule, liquidation::PositionLiquidationModule, repay::PositionRepayModule, supply::PositionDepositModule, update::PositionUpdateModule, withdraw::PositionWithdrawModule};
pub use controller::router::RouterModule;
pub use controller::storage::Storage;
pub use controller::strategy::SnapModule;
pub use controller::utils::LendingUtilsModule;
pub use controller::validation::ValidationModule;
pub use controller::views::ViewsModule;
pub use controller::Controller;
pub use multiversx_sc_scenario::imports::*;
pub use multiversx_sc_scenario::DebugApi;
pub use multiversx_sc_modules::pause::PauseModule;
pub use num_bigint::BigUint as N;

pub const USER: TestAddress = TestAddress::new("user");
pub const LIQUIDATOR: TestAddress = TestAddress::new("liquidator");
pub const OWNER: TestAddress = TestAddress::new("owner");
pub const CTL: TestSCAddress = TestSCAddress::new("controller");
pub const AGG: TestSCAddress = TestSCAddress::new("aggregator");
pub const ACC_POOL: TestSCAddress = TestSCAddress::new("accumulator");
pub const SAFE: TestSCAddress = TestSCAddress::new("safeprice");
pub const POOLS: [TestSCAddress; 4] = [TestSCAddress::new("pool0"), TestSCAddress::new("pool1"), TestSCAddress::new("pool2"), TestSCAddress::new("pool3")];
pub const TOKENS: [&str; 4] = ["AAA-123456", "BBB-123456", "CCC-123456", "DDD-123456"];
pub const TICKERS: [&str; 4] = ["AAA", "BBB", "CCC", "DDD"];
pub const ACCOUNT: TestTokenIdentifier = TestTokenIdentifier::new("ACC-123456");
pub const C_CTL: MxscPath = MxscPath::new("mxsc:controller.mxsc.json");
pub const C_POOL: MxscPath = MxscPath::new("mxsc:pool.mxsc.json");
pub const C_AGG: MxscPath = MxscPath::new("mxsc:aggregator.mxsc.json");
pub const RAY: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WAD: u128 = 1_000_000_000_000_000_000;
/// what every user owns of every token at first
pub const START: u128 = 1_000_000_000_000_000_000_000_000_000_000;
pub const NOW: u64 = 1_000_000;

pub type D = ManagedDecimal<DebugApi, NumDecimals>;
pub type Sc = controller::ContractObj<DebugApi>;

pub fn n(s: &str) -> N { s.parse().unwrap() }
pub fn big(x: u128) -> BigUint<DebugApi> { BigUint::from(x) }
pub fn bign(x: &N) -> BigUint<DebugApi> { BigUint::from_bytes_be(&x.to_bytes_be()) }
pub fn dec(x: u128, s: usize) -> D { ManagedDecimal::from_raw_units(big(x), s) }
pub fn raw(d: &D) -> N { N::from_bytes_be(d.into_raw_units().to_bytes_be().as_slice()) }
pub fn int(d: &BigUint<DebugApi>) -> N { N::from_bytes_be(d.to_bytes_be().as_slice()) }
pub fn tid(i: usize) -> TokenIdentifier<DebugApi> { TokenIdentifier::from(TOKENS[i]) }
pub fn tok(i: usize) -> EgldOrEsdtTokenIdentifier<DebugApi> { EgldOrEsdtTokenIdentifier::esdt(tid(i)) }
pub fn buf(s: &str) -> ManagedBuffer<DebugApi> { ManagedBuffer::from(s) }
pub fn sca(a: TestSCAddress) -> ManagedAddress<DebugApi> { ManagedAddress::from(a.eval_to_array()) }
pub fn adr(a: TestAddress) -> ManagedAddress<DebugApi> { ManagedAddress::from(a.eval_to_array()) }
pub fn list<T: multiversx_sc::codec::TopEncodeMulti>(v: Vec<T>) -> MultiValueEncoded<DebugApi, T> {
    let mut r = MultiValueEncoded::new();
    for x in v { r.push(x); }
    r
}

/// the default market: LTV 75 %, threshold 80 %, bonus 5 %, liquidation fee 1 %
pub fn market() -> AssetConfig<DebugApi> {
    AssetConfig {
        loan_to_value_bps: dec(7500, 4), liquidation_threshold_bps: dec(8000, 4), liquidation_bonus_bps: dec(500, 4), liquidation_fees_bps: dec(100, 4),
        is_collateralizable: true, is_borrowable: true, e_mode_enabled: false, is_isolated_asset: false, isolation_debt_ceiling_usd_wad: dec(0, 18),
        is_siloed_borrowing: false, is_flashloanable: true, flashloan_fee_bps: dec(50, 4), isolation_borrow_enabled: false, borrow_cap_wad: None, supply_cap_wad: None,
    }
}
pub fn tolerance() -> OraclePriceFluctuation<DebugApi> {
    OraclePriceFluctuation { first_upper_ratio_bps: dec(10200, 4), first_lower_ratio_bps: dec(9804, 4), last_upper_ratio_bps: dec(11000, 4), last_lower_ratio_bps: dec(9091, 4) }
}

pub struct World { pub w: ScenarioWorld, pub decimals: Vec<usize> }
/// (token index, amount)
pub type Pay = Vec<(usize, u128)>;

impl World {
    /// markets AAA, BBB, … with the given decimals, every price 1 USD (EGLD 1 USD), each pool seeded by nobody
    pub fn new(decimals: &[usize]) -> Self {
        let mut w = ScenarioWorld::new();
        w.register_contract(C_CTL, controller::ContractBuilder);
        w.register_contract(C_POOL, liquidity_layer::ContractBuilder);
        w.register_contract(C_AGG, price_aggregator::ContractBuilder);
        for who in [OWNER, USER, LIQUIDATOR] {
            let mut a = w.account(who).nonce(1).balance(BigUint::<StaticApi>::from(START));
            for i in 0..decimals.len() { a = a.esdt_balance(TestTokenIdentifier::new(TOKENS[i]), BigUint::<StaticApi>::from(START)); }
        }
        w.account(CTL).code(C_CTL).owner(OWNER).balance(0u64).esdt_roles(ACCOUNT, vec!["ESDTRoleNFTCreate".to_string(), "ESDTRoleNFTBurn".to_string(), "ESDTRoleNFTUpdateAttributes".to_string()]);
        w.account(AGG).code(C_AGG).owner(OWNER).balance(0u64);
        w.account(SAFE).code(C_AGG).owner(OWNER).balance(0u64);
        for i in 0..decimals.len() { w.account(POOLS[i]).code(C_POOL).owner(CTL).balance(0u64); }
        w.current_block().block_timestamp(NOW);
        let mut s = World { w, decimals: decimals.to_vec() };
        sub::aggregator(&mut s.w);
        let ds = decimals.to_vec();
        s.run(OWNER, vec![], |sc| {
            sc.init(&sca(POOLS[0]), &sca(AGG), &sca(SAFE), &sca(ACC_POOL), &sca(ACC_POOL));
            sc.set_paused(false);
            sc.account().set_token_id(TokenIdentifier::from("ACC-123456"));
            let oracle = |t: EgldOrEsdtTokenIdentifier<DebugApi>, d: usize| OracleProvider {
                base_token_id: t.clone(), quote_token_id: EgldOrEsdtTokenIdentifier::egld(), tolerance: tolerance(), oracle_contract_address: sca(AGG),
                pricing_method: PricingMethod::Aggregator, oracle_type: OracleType::Normal, exchange_source: ExchangeSource::None, asset_decimals: d, onedex_pair_id: 0, max_price_stale_seconds: 900,
            };
            sc.token_oracle(&EgldOrEsdtTokenIdentifier::egld()).set(oracle(EgldOrEsdtTokenIdentifier::egld(), 18));
            for (i, d) in ds.iter().enumerate() {
                sc.token_oracle(&tok(i)).set(oracle(tok(i), *d));
                sc.asset_config(&tok(i)).set(market());
                sc.pools_map(&tok(i)).set(sca(POOLS[i]));
                let _ = sc.pools().insert(sca(POOLS[i]));
            }
        });
        for i in 0..decimals.len() {
            let d = decimals[i];
            sub::pool(&mut s.w, i, d);
            s.price(TICKERS[i], WAD);
        }
        s.price("EGLD", WAD);
        s
    }
    pub fn price(&mut self, ticker: &str, wad: u128) { self.feed(ticker, wad, NOW) }
    pub fn feed(&mut self, ticker: &str, wad: u128, at: u64) {
        sub::feed(&mut self.w, ticker, wad, at);
    }
    pub fn config(&mut self, i: usize, f: impl FnOnce(&mut AssetConfig<DebugApi>)) {
        self.run(OWNER, vec![], |sc| { let mut c = sc.asset_config(&tok(i)).get(); f(&mut c); sc.asset_config(&tok(i)).set(c); })
    }
    fn tx<R>(&mut self, who: TestAddress, account: u64, pay: Pay, f: impl FnOnce(Sc) -> R) -> Option<R> {
        let mut out = None;
        let o = &mut out;
        let mut p: MultiEgldOrEsdtPayment<StaticApi> = MultiEgldOrEsdtPayment::new();
        if account > 0 { p.push(EgldOrEsdtTokenPayment::new(EgldOrEsdtTokenIdentifier::esdt(TokenIdentifier::from("ACC-123456")), account, BigUint::from(1u64))); }
        for (t, a) in &pay { p.push(EgldOrEsdtTokenPayment::new(EgldOrEsdtTokenIdentifier::esdt(TokenIdentifier::from(TOKENS[*t])), 0, BigUint::from(*a))); }
        if p.is_empty() {
            self.w.tx().from(who).to(CTL).whitebox(controller::contract_obj, |sc| { *o = Some(f(sc)); });
        } else {
            self.w.tx().from(who).to(CTL).payment(p).whitebox(controller::contract_obj, |sc| { *o = Some(f(sc)); });
        }
        out
    }
    /// one transaction of `who`; panics when it reverts
    pub fn run<R>(&mut self, who: TestAddress, pay: Pay, f: impl FnOnce(Sc) -> R) -> R { self.tx(who, 0, pay, f).expect("transaction failed") }
    /// the same with the account NFT `nonce` sent along as the first payment
    pub fn with<R>(&mut self, who: TestAddress, nonce: u64, pay: Pay, f: impl FnOnce(Sc) -> R) -> R { self.tx(who, nonce, pay, f).expect("transaction failed") }
    pub fn fails<R>(&mut self, who: TestAddress, nonce: u64, pay: Pay, f: impl FnOnce(Sc) -> R) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.tx(who, nonce, pay, f).expect("transaction failed"))).is_err()
    }
    /// supplies from a fresh account; returns nothing, accounts are numbered 1, 2, …
    pub fn open(&mut self, who: TestAddress, pay: Pay) { self.run(who, pay, |sc| sc.supply(OptionalValue::None, OptionalValue::None)) }
    pub fn supply(&mut self, who: TestAddress, nonce: u64, pay: Pay) { self.with(who, nonce, pay, |sc| sc.supply(OptionalValue::None, OptionalValue::None)) }
    pub fn borrow(&mut self, who: TestAddress, nonce: u64, i: usize, amount: u128) { self.with(who, nonce, vec![], |sc| sc.borrow(wants(vec![(i, amount)]))) }
    pub fn withdraw(&mut self, who: TestAddress, nonce: u64, i: usize, amount: u128) { self.with(who, nonce, vec![], |sc| sc.withdraw(wants(vec![(i, amount)]))) }
    /// scaled amount of a position (0 when there is none)
    pub fn scaled(&mut self, nonce: u64, kind: AccountPositionType, i: usize) -> N {
        self.run(OWNER, vec![], |sc| { let m = sc.positions(nonce, kind); m.get(&tok(i)).map(|p| raw(&p.scaled_amount_ray)).unwrap_or_default() })
    }
    /// whether `who` owns exactly START + gained − lost units of token i
    pub fn holds(&mut self, who: TestAddress, i: usize, gained: u128, lost: u128) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { self.w.check_account(who).esdt_balance(TestTokenIdentifier::new(TOKENS[i]), BigUint::<StaticApi>::from(START + gained - lost)); })).is_ok()
    }
    pub fn reserve(&mut self, i: usize) -> N { sub::reserve(&mut self.w, i) }
    pub fn time(&mut self, t: u64) { self.w.current_block().block_timestamp(t); }
}
pub fn wants(v: Vec<(usize, u128)>) -> MultiValueEncoded<DebugApi, EgldOrEsdtTokenPayment<DebugApi>> {
    list(v.into_iter().map(|(i, a)| EgldOrEsdtTokenPayment::new(tok(i), 0, big(a))).collect())
}

mod sub {
    use super::*;
    pub fn aggregator(w: &mut ScenarioWorld) {
        use price_aggregator::admin::AdminModule as P;
        w.tx().from(OWNER).to(AGG).whitebox(price_aggregator::contract_obj, |sc| { P::init(&sc, 1, list(vec![adr(OWNER)])); sc.set_paused(false); });
    }
    pub fn feed(w: &mut ScenarioWorld, ticker: &str, wad: u128, at: u64) {
        use price_aggregator::storage::StorageModule as S;
        w.tx().from(OWNER).to(AGG).whitebox(price_aggregator::contract_obj, |sc| {
            S::rounds_new(&sc, &buf(ticker), &buf("USD")).set(price_aggregator::structs::TimestampedPrice { price: big(wad), timestamp: at, round: 1 });
        });
    }
    pub fn pool(w: &mut ScenarioWorld, i: usize, d: usize) {
        use liquidity_layer::LiquidityPool as P;
        w.tx().from(CTL).to(POOLS[i]).whitebox(liquidity_layer::contract_obj, |sc| {
            P::init(&sc, tok(i), big(RAY), big(RAY / 100), big(RAY / 25), big(RAY / 10), big(RAY * 3), big(RAY * 4 / 10), big(RAY * 8 / 10), big(1000), d);
        });
    }
    pub fn reserve(w: &mut ScenarioWorld, i: usize) -> N {
        let mut out = None;
        let o = &mut out;
        w.tx().from(CTL).to(POOLS[i]).whitebox(liquidity_layer::contract_obj, |sc| { *o = Some(int(&sc.blockchain().get_sc_balance(&tok(i), 0))); });
        out.unwrap()
    }
}
