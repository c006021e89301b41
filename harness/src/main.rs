use liquidity_layer::liquidity::LiquidityModule;
use liquidity_layer::storage::Storage;
use multiversx_sc_scenario::imports::*;

use common_structs::*;


const USER: TestAddress = TestAddress::new("user");
const OWNER: TestAddress = TestAddress::new("owner");
const POOL: TestSCAddress = TestSCAddress::new("pool");
const CODE: MxscPath = MxscPath::new("mxsc:pool.mxsc.json");

fn main() {
    let mut world = ScenarioWorld::new();
    world.register_contract(CODE, liquidity_layer::ContractBuilder);
    world.account(OWNER).nonce(1).balance(4_000_000_000_000_000_000u64);
    world.account(POOL).code(CODE).owner(OWNER);
    world.current_block().block_timestamp(0);
    world.tx().from(OWNER).to(POOL).whitebox(liquidity_layer::contract_obj, |sc| {
        use liquidity_layer::LiquidityPool;
        let b = |x: u128| BigUint::from(x);
        let ray = 1_000_000_000_000_000_000_000_000_000u128;
        sc.init(EgldOrEsdtTokenIdentifier::egld(), b(ray), b(ray / 100), b(ray / 25), b(ray / 10), b(ray * 3), b(ray * 4 / 10), b(ray * 8 / 10), b(1000), 18);
    });
    let price = || ManagedDecimal::from_raw_units(BigUint::from(1_000_000_000_000_000_000u64), 18);
    let unit = 200_000_000_000_000_000u64;
    world.account(USER).nonce(1).balance(unit);

    // 0.4 token supplied, all of it borrowed
    world.tx().from(OWNER).to(POOL).egld(unit).whitebox(liquidity_layer::contract_obj, |sc| {
        let p = sc.supply(pos(AccountPositionType::Deposit, 0), &price());
        println!("supplied {}", p.scaled_amount_ray);
    });
    let mut debt = num_bigint::BigUint::default();
    let dr = &mut debt;
    world.tx().from(OWNER).to(POOL).whitebox(liquidity_layer::contract_obj, |sc| {
        let to = ManagedAddress::from(USER.eval_to_array());
        let p = sc.borrow(&to, &ManagedDecimal::from_raw_units(BigUint::from(unit), 18), pos(AccountPositionType::Borrow, 0), &price());
        println!("borrowed {}", p.scaled_amount_ray);
        *dr = num_bigint::BigUint::from_bytes_be(p.scaled_amount_ray.into_raw_units().to_bytes_be().as_slice());
    });
    world.current_block().block_timestamp(86400 * 30);
    world.tx().from(OWNER).to(POOL).whitebox(liquidity_layer::contract_obj, |sc| {
        let mut p = pos(AccountPositionType::Borrow, 0);
        p.scaled_amount_ray = ManagedDecimal::from_raw_units(BigUint::from_bytes_be(&debt.to_bytes_be()), 27);
        sc.seize_position(p, &price());
        println!("after the bad debt: supply index {} supplied {} borrowed {}", sc.supply_index().get(), sc.supplied().get(), sc.borrowed().get());
    });
    world.current_block().block_timestamp(86400 * 31);
    world.tx().from(OWNER).to(POOL).whitebox(liquidity_layer::contract_obj, |sc| {
        sc.update_indexes(&price());
        println!("accrual works");
    });
}

fn pos(t: AccountPositionType, s: u64) -> AccountPosition<DebugApi> {
    AccountPosition::new(t, EgldOrEsdtTokenIdentifier::egld(), ManagedDecimal::from_raw_units(BigUint::from(s), 27), 1,
        ManagedDecimal::from_raw_units(BigUint::from(8000u64), 4), ManagedDecimal::from_raw_units(BigUint::from(500u64), 4),
        ManagedDecimal::from_raw_units(BigUint::from(100u64), 4), ManagedDecimal::from_raw_units(BigUint::from(7500u64), 4))
}
