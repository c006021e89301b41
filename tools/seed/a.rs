#![allow(dead_code, unused_imports)]
pub use multiversx_sc_scenario::imports::*;
pub use multiversx_sc_scenario::DebugApi;
pub use price_aggregator::admin::AdminModule;
pub use price_aggregator::storage::StorageModule;
pub use price_aggregator::structs::*;
pub use price_aggregator::views::ViewsModule;
pub use price_aggregator::PriceAggregator;
pub use multiversx_sc_modules::pause::PauseModule;

pub const OWNER: TestAddress = TestAddress::new("owner");
pub const AGG: TestSCAddress = TestSCAddress::new("aggregator");
pub const CODE: MxscPath = MxscPath::new("mxsc:aggregator.mxsc.json");
pub const O: [TestAddress; 6] = [TestAddress::new("o0"), TestAddress::new("o1"), TestAddress::new("o2"), TestAddress::new("o3"), TestAddress::new("o4"), TestAddress::new("o5")];
pub type Sc = price_aggregator::ContractObj<DebugApi>;

pub fn buf(s: &str) -> ManagedBuffer<DebugApi> { ManagedBuffer::from(s) }
pub fn addr(i: usize) -> ManagedAddress<DebugApi> { ManagedAddress::from(O[i].eval_to_array()) }
pub fn addrs(r: std::ops::Range<usize>) -> MultiValueEncoded<DebugApi, ManagedAddress<DebugApi>> {
    let mut v = MultiValueEncoded::new();
    for i in r { v.push(addr(i)); }
    v
}

pub struct Agg { pub w: ScenarioWorld }
impl Agg {
    /// `n` listed oracles, unpaused, block time 10000 s
    pub fn new(n: usize, quorum: usize) -> Self {
        let mut w = ScenarioWorld::new();
        w.register_contract(CODE, price_aggregator::ContractBuilder);
        w.account(OWNER).nonce(1).balance(1u64);
        for o in O { w.account(o).nonce(1).balance(1u64); }
        w.account(AGG).code(CODE).owner(OWNER).balance(0u64);
        w.current_block().block_timestamp(10_000);
        let mut s = Agg { w };
        s.owner(move |sc| { sc.init(quorum, addrs(0..n)); sc.set_paused(false); });
        s
    }
    pub fn time(&mut self, t: u64) { self.w.current_block().block_timestamp(t); }
    pub fn by<R>(&mut self, who: TestAddress, f: impl FnOnce(Sc) -> R) -> R {
        let mut out = None;
        let o = &mut out;
        self.w.tx().from(who).to(AGG).whitebox(price_aggregator::contract_obj, |sc| { *o = Some(f(sc)); });
        out.expect("transaction failed")
    }
    pub fn owner<R>(&mut self, f: impl FnOnce(Sc) -> R) -> R { self.by(OWNER, f) }
    pub fn fails<R>(&mut self, who: TestAddress, f: impl FnOnce(Sc) -> R) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.by(who, f))).is_err()
    }
    pub fn submit(&mut self, i: usize, now: u64, price: u64) {
        self.time(now);
        self.by(O[i], |sc| sc.submit(buf("A"), buf("USD"), now, BigUint::from(price)))
    }
    /// (price, round) of the published price of A/USD, if any
    pub fn published(&mut self) -> Option<(u64, u32)> {
        self.owner(|sc| {
            let m = sc.rounds_new(&buf("A"), &buf("USD"));
            if m.is_empty() { None } else { let r = m.get(); Some((r.price.to_u64().unwrap(), r.round)) }
        })
    }
}
