#![allow(dead_code, unused_imports)]
pub use common_math::SharedMathModule;
pub use common_rates::InterestRates;
pub use common_structs::*;
pub use liquidity_layer::liquidity::LiquidityModule;
pub use liquidity_layer::storage::Storage;
pub use liquidity_layer::utils::UtilsModule;
pub use liquidity_layer::view::ViewModule;
pub use liquidity_layer::LiquidityPool;
pub use multiversx_sc_scenario::imports::*;
pub use multiversx_sc_scenario::DebugApi;
pub use num_bigint::BigUint as N;

pub const USER: TestAddress = TestAddress::new("user");
pub const OWNER: TestAddress = TestAddress::new("owner");
pub const POOL: TestSCAddress = TestSCAddress::new("pool");
pub const CODE: MxscPath = MxscPath::new("mxsc:pool.mxsc.json");
pub const RAY: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WAD: u128 = 1_000_000_000_000_000_000;

pub type D = ManagedDecimal<DebugApi, NumDecimals>;
pub type Sc = liquidity_layer::ContractObj<DebugApi>;

pub fn n(s: &str) -> N { s.parse().unwrap() }
pub fn nu(x: u128) -> N { N::from(x) }
pub fn big(x: &N) -> BigUint<DebugApi> { BigUint::from_bytes_be(&x.to_bytes_be()) }
pub fn dec(x: &N, s: usize) -> D { ManagedDecimal::from_raw_units(big(x), s) }
pub fn raw(d: &D) -> N { N::from_bytes_be(d.into_raw_units().to_bytes_be().as_slice()) }
pub fn price() -> D { dec(&nu(WAD), 18) }
pub fn egld() -> EgldOrEsdtTokenIdentifier<DebugApi> { EgldOrEsdtTokenIdentifier::egld() }
pub fn user() -> ManagedAddress<DebugApi> { ManagedAddress::from(USER.eval_to_array()) }
pub fn pos(t: AccountPositionType, scaled: &N) -> AccountPosition<DebugApi> {
    AccountPosition::new(t, egld(), dec(scaled, 27), 1, dec(&nu(8000), 4), dec(&nu(500), 4), dec(&nu(100), 4), dec(&nu(7500), 4))
}

#[derive(Clone)]
pub struct Params { pub max: u128, pub base: u128, pub s1: u128, pub s2: u128, pub s3: u128, pub mid: u128, pub opt: u128, pub rf: u128, pub decimals: usize }
pub fn params() -> Params {
    Params { max: RAY, base: RAY / 100, s1: RAY / 25, s2: RAY / 10, s3: RAY * 3, mid: RAY * 4 / 10, opt: RAY * 8 / 10, rf: 1000, decimals: 18 }
}

pub struct Pool { pub w: ScenarioWorld }
impl Pool {
    pub fn new(p: Params, reserves: u128) -> Self {
        let mut w = ScenarioWorld::new();
        w.register_contract(CODE, liquidity_layer::ContractBuilder);
        w.account(OWNER).nonce(1).balance(BigUint::<StaticApi>::from(u128::MAX));
        w.account(USER).nonce(1).balance(0u64);
        w.account(POOL).code(CODE).owner(OWNER).balance(BigUint::<StaticApi>::from(reserves));
        w.current_block().block_timestamp(0);
        let mut s = Pool { w };
        s.run(0, move |sc| {
            let b = |x: u128| BigUint::<DebugApi>::from(x);
            sc.init(egld(), b(p.max), b(p.base), b(p.s1), b(p.s2), b(p.s3), b(p.mid), b(p.opt), b(p.rf), p.decimals);
        });
        s
    }
    /// one owner transaction carrying `pay` EGLD
    pub fn run<R>(&mut self, pay: u128, f: impl FnOnce(Sc) -> R) -> R {
        let mut out = None;
        let o = &mut out;
        self.w.tx().from(OWNER).to(POOL).egld(BigUint::<StaticApi>::from(pay)).whitebox(liquidity_layer::contract_obj, |sc| { *o = Some(f(sc)); });
        out.expect("transaction failed")
    }
    pub fn fails<R>(&mut self, pay: u128, f: impl FnOnce(Sc) -> R) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run(pay, f))).is_err()
    }
    pub fn state(&mut self, supplied: &N, borrowed: &N, revenue: &N, si: &N, bi: &N) {
        self.run(0, |sc| {
            sc.supplied().set(dec(supplied, 27)); sc.borrowed().set(dec(borrowed, 27)); sc.revenue().set(dec(revenue, 27));
            sc.supply_index().set(dec(si, 27)); sc.borrow_index().set(dec(bi, 27));
        })
    }
    /// (supplied, borrowed, revenue, supply index, borrow index)
    pub fn get(&mut self) -> [N; 5] {
        self.run(0, |sc| [raw(&sc.supplied().get()), raw(&sc.borrowed().get()), raw(&sc.revenue().get()), raw(&sc.supply_index().get()), raw(&sc.borrow_index().get())])
    }
    pub fn time(&mut self, seconds: u64) { self.w.current_block().block_timestamp(seconds); }
    pub fn reserves(&mut self) -> N { self.run(0, |sc| raw(&sc.reserves())) }
}
