//! C15, C16, C28: consensus parameters and stored chain state.
use crate::eng::*;
use crate::{ensure, fail};
use model::refjson::hexs;
use model::rng::Rng;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde_json::json;
use sia::consensus::*;
use sia::encoding::{SiaDecodable, SiaEncodable};
use sia::types::*;
use time::{Duration, OffsetDateTime};

fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
fn must<T>(key: &str, what: impl std::fmt::Display, f: impl FnOnce() -> T) -> Result<T, Fail> {
    caught(f).map_err(|p| Fail { key: format!("panic:{key}"), msg: format!("{what}: panicked: {} at {}", p.msg, p.loc) })
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2 * 2).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()
}
fn addr(s: &str) -> Address {
    let b: [u8; 32] = if s.is_empty() { [0; 32] } else { unhex(s)[..32].try_into().unwrap() };
    Address::new(b)
}
fn target(zeros: usize, b: u8) -> BlockID {
    let mut t = [0u8; 32];
    t[zeros] = b;
    BlockID::new(t)
}
fn ts(s: i64) -> OffsetDateTime {
    OffsetDateTime::UNIX_EPOCH + Duration::seconds(s)
}
const SC: u128 = 1_000_000_000_000_000_000_000_000;

/// the published parameters of the three networks
fn published() -> Vec<(Network, Network)> {
    let mainnet = Network {
        name: "mainnet".into(),
        initial_coinbase: Currency::new(300_000 * SC),
        minimum_coinbase: Currency::new(30_000 * SC),
        initial_target: target(4, 32),
        block_interval: Duration::new(600, 0),
        maturity_delay: 144,
        hardfork_dev_addr: HardforkDevAddr {
            height: 10_000,
            old_address: addr("7d0c44f7664e2d34e53efde0661a6f628ec9264785ae8e3cd7c973e8d190c3c9"),
            new_address: addr("f371c70bce9eb8979cd5099f599ec4e4fcb14e0afcf31f9791e03e6496a4c0b3"),
        },
        hardfork_tax: HardforkTax { height: 21_000 },
        hardfork_storage_proof: HardforkStorageProof { height: 100_000 },
        hardfork_oak: HardforkOak { height: 135_000, fix_height: 139_000, genesis_timestamp: ts(1_433_600_000) },
        hardfork_asic: HardforkASIC { height: 179_000, oak_time: Duration::new(120_000, 0), oak_target: target(8, 32) },
        hardfork_foundation: HardforkFoundation {
            height: 298_000,
            primary_address: addr("053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb"),
            failsafe_address: addr("27c22a6c6e6645802a3b8fa0e5374657438ef12716d2205d3e866272de1b644d"),
        },
        hardfork_v2: HardforkV2 { allow_height: 1_000_000, require_height: 1_025_000 },
    };
    let test = |name: &str, genesis: i64, primary: &str, allow: u64, require: u64| Network {
        name: name.into(),
        initial_coinbase: Currency::new(300_000 * SC),
        minimum_coinbase: Currency::new(300_000 * SC),
        initial_target: target(3, 1),
        block_interval: Duration::new(600, 0),
        maturity_delay: 144,
        hardfork_dev_addr: HardforkDevAddr { height: 1, old_address: addr(""), new_address: addr("") },
        hardfork_tax: HardforkTax { height: 2 },
        hardfork_storage_proof: HardforkStorageProof { height: 5 },
        hardfork_oak: HardforkOak { height: 10, fix_height: 12, genesis_timestamp: ts(genesis) },
        hardfork_asic: HardforkASIC { height: 20, oak_time: Duration::new(10_000, 0), oak_target: target(3, 1) },
        hardfork_foundation: HardforkFoundation { height: 30, primary_address: addr(primary), failsafe_address: addr("") },
        hardfork_v2: HardforkV2 { allow_height: allow, require_height: require },
    };
    vec![
        (Network::mainnet(), mainnet),
        (Network::zen(), test("zen", 1_673_600_000, "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb", 100_000, 102_000)),
        (Network::anagami(), test("anagami", 1_724_284_800, "241352c83da002e61f57e96b14f3a5f8b5de22156ce83b753ea495e64f1affeb", 2016, 2304)),
    ]
}

fn h32(r: &mut Rng) -> [u8; 32] {
    r.fixed(32).try_into().unwrap()
}

fn some_network(r: &mut Rng) -> Network {
    let mut n = match r.below(4) {
        0 => Network::zen(),
        1 => Network::anagami(),
        _ => Network::mainnet(),
    };
    if r.one_in(4) {
        return n;
    }
    let h = |r: &mut Rng| match r.below(3) {
        0 => r.below(50) as u64,
        1 => r.below(2_000_000) as u64,
        _ => r.n64(),
    };
    n.hardfork_tax.height = h(r);
    n.hardfork_asic.height = h(r);
    n.hardfork_foundation.height = h(r);
    n.hardfork_v2.allow_height = h(r);
    n.hardfork_v2.require_height = h(r);
    n.hardfork_oak.height = h(r);
    n.hardfork_dev_addr.height = h(r);
    n.hardfork_storage_proof.height = h(r);
    n.hardfork_foundation.primary_address = Address::new(h32(r));
    n.hardfork_foundation.failsafe_address = Address::new(h32(r));
    n.maturity_delay = match r.below(3) {
        0 => 144,
        1 => r.below(1000) as u64,
        _ => r.n64(),
    };
    n.block_interval = Duration::nanoseconds(match r.below(8) {
        0..=3 => 600_000_000_000,
        4 => 1 + r.below(1000) as i64,
        5 => 1_000_000_000 * (1 + r.below(100_000) as i64),
        6 => 2_628_000_000_000_000 / (1 + r.below(40) as i64) + r.below(3) as i64 - 2,
        _ => 1 + (r.u64() % 2_628_000_000_000_000) as i64,
    });
    let sc = |r: &mut Rng| match r.below(4) {
        0 => r.below(400_000) as u128 * SC,
        1 => r.below(400_000) as u128 * SC + r.below(3) as u128,
        2 => r.n128(),
        _ => (r.n64() as u128 % (u128::MAX / SC)) * SC,
    };
    if r.bool() {
        n.initial_coinbase = Currency::new(sc(r));
        n.minimum_coinbase = Currency::new(sc(r));
    }
    n
}

fn state_at(height: u64, r: &mut Rng) -> State {
    State {
        index: ChainIndex { height, id: BlockID::new(h32(r)) },
        prev_timestamps: [OffsetDateTime::UNIX_EPOCH; 11],
        depth: BlockID::new(h32(r)),
        child_target: BlockID::new(h32(r)),
        siafund_pool: Currency::new(r.n128()),
        oak_time: Duration::nanoseconds((r.n64() >> 1) as i64),
        oak_target: BlockID::new(h32(r)),
        foundation_primary_address: Address::new(h32(r)),
        foundation_failsafe_address: Address::new(h32(r)),
        total_work: Work::from(&h32(r)),
        difficulty: Work::from(&h32(r)),
        oak_work: Work::from(&h32(r)),
        elements: ElementAccumulator::default(),
        attestations: r.n64(),
    }
}

/// heights around what matters on this network
fn some_height(n: &Network, r: &mut Rng) -> u64 {
    let base = match r.below(9) {
        0 => n.hardfork_tax.height,
        1 => n.hardfork_asic.height,
        2 | 3 => n.hardfork_foundation.height,
        4 => n.hardfork_v2.allow_height,
        5 => return r.n64(),
        6 => ((*n.initial_coinbase).saturating_sub(*n.minimum_coinbase) / SC).min(u64::MAX as u128) as u64,
        7 => (*n.initial_coinbase / SC).min(u64::MAX as u128) as u64,
        _ => return r.below(400_000) as u64,
    };
    base.wrapping_add(r.below(5) as u64).wrapping_sub(3)
}

// ---------------------------------------------------------------------------------------------
// C15

fn v1_contract(payout: u128, r: &mut Rng) -> v1::FileContract {
    v1::FileContract {
        file_size: r.n64(),
        file_merkle_root: Hash256::new(h32(r)),
        window_start: r.n64(),
        window_end: r.n64(),
        payout: Currency::new(payout),
        valid_proof_outputs: vec![],
        missed_proof_outputs: vec![],
        unlock_hash: Address::new(h32(r)),
        revision_number: r.n64(),
    }
}

/// payouts around the places where a rounding changes
fn payout(r: &mut Rng) -> u128 {
    let near = |x: u128, r: &mut Rng| x.saturating_add(r.below(5) as u128).saturating_sub(2);
    match r.below(8) {
        0 => r.below(2_000_000) as u128,
        1 => {
            // the tax passes a multiple of the siafund count
            let k = r.n128() % (u128::MAX / 1000 * 39 / 10_000);
            let x = big(k) * big(10_000_000) / big(39);
            near(x.to_u128().unwrap_or(u128::MAX), r)
        }
        2 => near(u128::MAX - r.below(3) as u128, r),
        3 => near(1u128 << r.below(128), r),
        4 => near(10u128.pow(r.below(39) as u32), r),
        5 => near((r.n128() / 10_000_000) * 10_000_000, r),
        6 => near((r.n64() as u128) * SC, r),
        _ => r.n128(),
    }
}

fn tax_v1(c: &mut Ctx) -> Res {
    let n = some_network(&mut c.r);
    let fork = n.hardfork_tax.height;
    let height = if c.r.bool() { fork.wrapping_add(c.r.below(4) as u64).wrapping_sub(3) } else { some_height(&n, &mut c.r) };
    let cs = ChainState { state: state_at(height, &mut c.r), network: n };
    let early = height.wrapping_add(1) < fork;
    for _ in 0..8 {
        let p = payout(&mut c.r);
        let fc = v1_contract(p, &mut c.r);
        let exact = if early {
            // 0.039 as a double is m / 2^e
            let bits = 0.039f64.to_bits();
            let (m, e) = ((bits & ((1 << 52) - 1)) | 1 << 52, 1075 - (bits >> 52));
            (big(p) * big(m as u128)) >> e
        } else {
            big(p) * big(39) / big(1000)
        };
        let want = &exact - &exact % big(10_000);
        let got = *must("v1", format!("tax of payout {p} at height {height} (fork {fork})"), || fc.tax(&cs))?;
        ensure!(big(got) == want, "v1", "tax of payout {p} at tip height {height} with the hardfork at {fork} is {got} instead of {want}");
        c.obs(if early { "taxes before the hardfork" } else { "taxes after the hardfork" }, 1);
        c.seen("v1", &[&p.to_le_bytes()[..], &[early as u8]].concat());
        let other = big(p) * big(39) / big(1000);
        if early && (&other - &other % big(10_000)) != want {
            c.obs("taxes that differ across the hardfork", 1);
        }
        c.sample(|| format!("payout {p} at {height} (fork {fork}): {got}"));
    }
    Ok(())
}

fn tax_v2(c: &mut Ctx) -> Res {
    let n = some_network(&mut c.r);
    let height = some_height(&n, &mut c.r);
    let cs = ChainState { state: state_at(height, &mut c.r), network: n };
    for _ in 0..8 {
        let sum = match c.r.below(3) {
            0 => {
                let k = c.r.n128() % (u128::MAX / 250_000);
                (k * 250_000).saturating_add(c.r.below(60) as u128).saturating_sub(30)
            }
            _ => payout(&mut c.r),
        };
        let x = match c.r.below(4) {
            0 => 0,
            1 => sum / 2,
            _ => c.r.n128() % sum.max(1),
        };
        let (mut a, mut b) = (x, sum - x);
        if c.r.one_in(6) {
            // sum does not fit, or only just
            b = (u128::MAX - a).wrapping_add(c.r.below(4) as u128).max(b);
        }
        if c.r.bool() {
            std::mem::swap(&mut a, &mut b);
        }
        let fc = v2::FileContract {
            capacity: c.r.n64(),
            filesize: c.r.n64(),
            file_merkle_root: Hash256::new(h32(&mut c.r)),
            proof_height: c.r.n64(),
            expiration_height: c.r.n64(),
            renter_output: SiacoinOutput { value: Currency::new(a), address: Address::new(h32(&mut c.r)) },
            host_output: SiacoinOutput { value: Currency::new(b), address: Address::new(h32(&mut c.r)) },
            missed_host_value: Currency::new(c.r.n128()),
            total_collateral: Currency::new(c.r.n128()),
            renter_public_key: sia::signing::PublicKey::new(h32(&mut c.r)),
            host_public_key: sia::signing::PublicKey::new(h32(&mut c.r)),
            revision_number: c.r.n64(),
            renter_signature: Default::default(),
            host_signature: Default::default(),
        };
        let total = big(a) + big(b);
        let got = caught(|| *fc.tax(&cs));
        if total > big(u128::MAX) {
            if let Ok(g) = got {
                fail!("v2-overflow", "tax of outputs {a} + {b}, which overflow, is {g} instead of a panic");
            }
            c.obs("overflowing sums refused", 1);
        } else {
            let t = total / big(25);
            let want = &t - &t % big(10_000);
            match got {
                Ok(g) => ensure!(big(g) == want, "v2", "tax of outputs {a} + {b} is {g} instead of {want}"),
                Err(p) => fail!("panic:v2", "tax of outputs {a} + {b} panicked: {} at {}", p.msg, p.loc),
            }
            c.obs("v2 taxes", 1);
        }
        c.seen("v2", &[a.to_le_bytes(), b.to_le_bytes()].concat());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16

fn schedule(c: &mut Ctx) -> Res {
    let n = some_network(&mut c.r);
    for _ in 0..4 {
        let height = some_height(&n, &mut c.r);
        one_height(c, &n, height)?;
    }
    c.sample(|| format!("{n:?}"));
    Ok(())
}

fn clone_network(n: &Network) -> Network {
    Network {
        name: n.name.clone(),
        initial_coinbase: n.initial_coinbase,
        minimum_coinbase: n.minimum_coinbase,
        initial_target: n.initial_target,
        block_interval: n.block_interval,
        maturity_delay: n.maturity_delay,
        hardfork_dev_addr: HardforkDevAddr {
            height: n.hardfork_dev_addr.height,
            old_address: n.hardfork_dev_addr.old_address.clone(),
            new_address: n.hardfork_dev_addr.new_address.clone(),
        },
        hardfork_tax: HardforkTax { height: n.hardfork_tax.height },
        hardfork_storage_proof: HardforkStorageProof { height: n.hardfork_storage_proof.height },
        hardfork_oak: HardforkOak { height: n.hardfork_oak.height, fix_height: n.hardfork_oak.fix_height, genesis_timestamp: n.hardfork_oak.genesis_timestamp },
        hardfork_asic: HardforkASIC { height: n.hardfork_asic.height, oak_time: n.hardfork_asic.oak_time, oak_target: n.hardfork_asic.oak_target },
        hardfork_foundation: HardforkFoundation {
            height: n.hardfork_foundation.height,
            primary_address: n.hardfork_foundation.primary_address.clone(),
            failsafe_address: n.hardfork_foundation.failsafe_address.clone(),
        },
        hardfork_v2: HardforkV2 { allow_height: n.hardfork_v2.allow_height, require_height: n.hardfork_v2.require_height },
    }
}

const YEAR_NS: u128 = 365 * 86_400 * 1_000_000_000;

fn one_height(c: &mut Ctx, n: &Network, height: u64) -> Res {
    let cs = ChainState { state: state_at(height, &mut c.r), network: clone_network(n) };
    let child = height.wrapping_add(1);
    let at = format!("tip height {height} on {}", n.name);
    let g = must("child_height", &at, || (cs.child_height(), cs.state.index.child_height()))?;
    ensure!(g == (child, child), "child_height", "{at}: child height {g:?}");
    // block reward
    let (init, min) = (big(*n.initial_coinbase), big(*n.minimum_coinbase));
    let dec = big(child as u128) * big(SC);
    let want = if init >= dec && &init - &dec >= min { init - dec } else { min };
    let g = big(*must("block_reward", &at, || cs.block_reward())?);
    ensure!(g == want, "block_reward", "{at}: block reward {g} instead of {want} (initial {}, minimum {})", *n.initial_coinbase, *n.minimum_coinbase);
    // maturity
    if let Some(want) = child.checked_add(n.maturity_delay) {
        let g = must("maturity_height", &at, || cs.maturity_height())?;
        ensure!(g == want, "maturity_height", "{at}: maturity height {g} instead of {want}");
    }
    let want = if child < n.hardfork_asic.height { 1 } else { 1009 };
    let g = must("nonce_factor", &at, || cs.nonce_factor())?;
    ensure!(g == want, "nonce_factor", "{at}: nonce factor {g} instead of {want} (ASIC fork {})", n.hardfork_asic.height);
    let g = must("constants", &at, || (cs.siafund_count(), cs.ancestor_depth(), cs.max_block_weight()))?;
    ensure!(g == (10_000, 1000, 2_000_000), "constants", "{at}: siafund count, ancestor depth, block weight {g:?}");
    // foundation subsidy
    let ns = n.block_interval.whole_nanoseconds() as u128;
    let (year, month) = ((YEAR_NS / ns) as u64, (YEAR_NS / 12 / ns) as u64);
    let g = must("blocks_per_month", &at, || cs.blocks_per_month())?;
    ensure!(g == month, "blocks_per_month", "{at}: {g} blocks per month instead of {month}");
    let fork = n.hardfork_foundation.height;
    let want = if child >= fork && (child - fork) % month == 0 {
        let blocks = if child == fork { year } else { month };
        (big(blocks as u128) * big(30_000 * SC)).to_u128().map(|v| (v, cs.state.foundation_primary_address.clone()))
    } else {
        None
    };
    let due = child >= fork && (child - fork) % month == 0;
    if due && want.is_none() {
        return Ok(()); // more than 128 bits: no such amount
    }
    let g = must("foundation_subsidy", &at, || cs.foundation_subsidy())?.map(|o| (*o.value, o.address));
    ensure!(
        g == want,
        "foundation_subsidy",
        "{at}: Foundation subsidy {g:?} instead of {want:?} (fork {fork}, {month} blocks per month, network address {})",
        n.hardfork_foundation.primary_address
    );
    c.obs(if due { "subsidies due" } else { "no subsidy due" }, 1);
    if due && child == fork {
        c.obs("first subsidies", 1);
    }
    c.obs("heights checked", 1);
    let key = format!("{height} {ns} {fork} {} {} {}", n.hardfork_asic.height, *n.initial_coinbase, *n.minimum_coinbase);
    c.seen("height", key.as_bytes());
    Ok(())
}

/// runs of consecutive heights: reward falls, subsidies come once a month
fn runs(c: &mut Ctx) -> Res {
    let n = some_network(&mut c.r);
    let ns = n.block_interval.whole_nanoseconds() as u128;
    let month = (YEAR_NS / 12 / ns) as u64;
    let fork = n.hardfork_foundation.height;
    // a window around the k-th month
    let k = c.r.below(40) as u64;
    if let Some(mid) = month.checked_mul(k).and_then(|x| x.checked_add(fork)) {
        for h in mid.saturating_sub(4)..=mid.saturating_add(3) {
            one_height(c, &n, h)?;
        }
    }
    // a whole window of tips on the real networks
    let (net, _) = published().swap_remove(c.r.below(3));
    let start = c.r.below(600_000) as u64;
    let mut last: Option<u128> = None;
    for h in start..start + 200 {
        let cs = ChainState { state: state_at(h, &mut c.r), network: clone_network(&net) };
        let g = *must("block_reward", "block reward", || cs.block_reward())?;
        if let Some(l) = last {
            let min = *net.minimum_coinbase;
            ensure!(g == l.saturating_sub(SC).max(min), "block_reward", "reward goes from {l} to {g} at height {h} on {}", net.name);
        }
        last = Some(g);
    }
    c.obs("consecutive heights", 200);
    Ok(())
}

fn networks(c: &mut Ctx) -> Res {
    for (got, want) in must("network", "building the networks", published)? {
        ensure!(got == want, "network", "{}: parameters {got:?} instead of {want:?}", want.name);
        c.obs("networks compared", 1);
        c.seen("network", want.name.as_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C28

fn leaves(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        4 => u64::MAX << r.below(64),
        5 => r.below(300) as u64,
        6 => r.u64() & r.u64() & r.u64(),
        _ => r.u64(),
    }
}

fn trees(r: &mut Rng) -> [Hash256; 64] {
    let mut t = [Hash256::default(); 64];
    for x in t.iter_mut() {
        *x = Hash256::new(h32(r));
    }
    t
}
fn same_acc(got: &ElementAccumulator, n: u64, t: &[Hash256; 64], how: &str) -> Res {
    ensure!(got.num_leaves == n, "leaves", "{how}: {} leaves instead of {n}", got.num_leaves);
    for i in 0..64 {
        let want = if n >> i & 1 == 1 { t[i] } else { Hash256::default() };
        ensure!(got.trees[i] == want, "tree", "{how}: with {n:#x} leaves the tree of height {i} is {} instead of {want}", got.trees[i]);
    }
    Ok(())
}

fn acc(c: &mut Ctx) -> Res {
    let n = leaves(&mut c.r);
    let t = trees(&mut c.r);
    // trees without a leaf bit hold garbage in memory; they are not part of the accumulator
    let mut a = ElementAccumulator { num_leaves: n, trees: t };
    if c.r.bool() {
        for i in 0..64 {
            if n >> i & 1 == 0 {
                a.trees[i] = Hash256::default();
            }
        }
    }
    let mut want = n.to_le_bytes().to_vec();
    let mut list = vec![];
    for i in 0..64 {
        if n >> i & 1 == 1 {
            want.extend_from_slice(AsRef::<[u8]>::as_ref(&t[i]));
            list.push(hexs(t[i].as_ref()));
        }
    }
    let mut b = vec![];
    match must("encode", "encoding", || a.encode(&mut b))? {
        Ok(()) => {}
        Err(e) => fail!("encode", "encoding an accumulator of {n:#x} leaves failed: {e}"),
    }
    ensure!(b == want, "bytes", "accumulator of {n:#x} leaves: {} bytes instead of {}, or other content", b.len(), want.len());
    let mut r: &[u8] = &want;
    match must("decode", "decoding", || ElementAccumulator::decode(&mut r))? {
        Ok(g) => {
            ensure!(r.is_empty(), "decode", "{} bytes left over", r.len());
            same_acc(&g, n, &t, "binary")?
        }
        Err(e) => fail!("decode", "stored accumulator of {n:#x} leaves is refused: {e}"),
    }
    if !want.is_empty() {
        let k = c.r.below(want.len());
        ensure!(must("decode", "decoding", || ElementAccumulator::decode(&mut &want[..k]).is_err())?, "short", "accumulator of {n:#x} leaves with {k} of {} bytes is accepted", want.len());
    }
    let doc = json!({"numLeaves": n, "trees": list});
    let j = must("json", "serializing", || serde_json::to_value(&a).unwrap_or_default())?;
    ensure!(j == doc, "json", "accumulator of {n:#x} leaves serializes as {j}");
    for (how, g) in [
        ("JSON", must("json", "parsing", || serde_json::from_value::<ElementAccumulator>(doc.clone()).ok())?),
        ("JSON text", must("json", "parsing", || serde_json::from_str::<ElementAccumulator>(&doc.to_string()).ok())?),
    ] {
        match g {
            Some(g) => same_acc(&g, n, &t, how)?,
            None => fail!("refused", "{how}: accumulator of {n:#x} leaves is refused"),
        }
    }
    // any other number of trees is refused
    for k in 0..70usize {
        if k == list.len() {
            continue;
        }
        let l: Vec<String> = (0..k).map(|i| hexs(t[i % 64].as_ref())).collect();
        let doc = json!({"numLeaves": n, "trees": l});
        let g = must("json", "parsing", || serde_json::from_value::<ElementAccumulator>(doc).is_ok())?;
        ensure!(!g, "count", "accumulator of {n:#x} leaves with {k} trees is accepted");
        c.obs("wrong tree counts refused", 1);
    }
    c.obs("accumulators", 1);
    c.obs("trees compared", list.len() as u64 * 3);
    c.seen("acc", &n.to_le_bytes());
    c.sample(|| format!("{n:#x} leaves, {} trees", list.len()));
    Ok(())
}

fn state(c: &mut Ctx) -> Res {
    let height = match c.r.below(4) {
        0 => c.r.below(13) as u64,
        1 => u64::MAX - c.r.below(3) as u64,
        2 => c.r.below(1_000_000) as u64,
        _ => c.r.n64(),
    };
    let count = height.wrapping_add(1).min(11) as usize;
    let n = leaves(&mut c.r);
    let t = trees(&mut c.r);
    let mut stamps = [OffsetDateTime::UNIX_EPOCH; 11];
    let fill = if c.r.bool() { 11 } else { count };
    for (i, s) in stamps.iter_mut().enumerate() {
        if i < fill {
            *s = ts(match c.r.below(3) {
                0 => 1_433_600_000 + c.r.below(1 << 30) as i64,
                1 => c.r.below(4) as i64,
                _ => (c.r.u64() % 253_402_300_800) as i64,
            });
        }
    }
    let make = |r: &mut Rng| {
        let mut s = state_at(height, r);
        s.prev_timestamps = stamps;
        s.elements = ElementAccumulator { num_leaves: n, trees: t };
        s
    };
    let mut fork = c.fork("state");
    let orig = make(&mut fork);
    let mut fork = c.fork("state");
    let mut cur = make(&mut fork);
    let steps = 1 + c.r.below(4);
    let mut seen_binary = false;
    let mut route = vec![];
    for _ in 0..steps {
        let how = *c.r.pick(&["binary", "JSON", "JSON text", "CBOR", "chain state JSON"]);
        route.push(how);
        let what = format!("chain state at height {height} through {}", route.join(", "));
        let next: Result<State, String> = must("reload", &what, || match how {
            "binary" => {
                let mut b = vec![];
                cur.encode(&mut b).map_err(|e| e.to_string())?;
                let want = 8 + 32 + 8 * count + 32 * 2 + 16 + 8 + 32 * 3 + 32 * 3 + 8 + 32 * n.count_ones() as usize + 8;
                if b.len() != want {
                    return Err(format!("stored in {} bytes instead of {want}", b.len()));
                }
                let mut r: &[u8] = &b;
                let s = State::decode(&mut r).map_err(|e| e.to_string())?;
                if !r.is_empty() {
                    return Err(format!("{} bytes left over", r.len()));
                }
                Ok(s)
            }
            "JSON" => serde_json::to_value(&cur).and_then(serde_json::from_value).map_err(|e| e.to_string()),
            "JSON text" => serde_json::to_string(&cur).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string()),
            "CBOR" => {
                let mut b = vec![];
                ciborium::ser::into_writer(&cur, &mut b).map_err(|e| e.to_string())?;
                ciborium::de::from_reader(&b[..]).map_err(|e| e.to_string())
            }
            _ => {
                let s = std::mem::replace(&mut cur, state_at(0, &mut Rng::new(0, "", 0)));
                let cs = ChainState { network: Network::mainnet(), state: s };
                let t = serde_json::to_string(&cs).map_err(|e| e.to_string())?;
                let g: ChainState = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                if g.network != cs.network {
                    return Err(format!("network changed: {:?}", g.network));
                }
                Ok(g.state)
            }
        })?;
        let g = match next {
            Ok(g) => g,
            Err(e) => fail!("reload", "{what}: {e}"),
        };
        seen_binary |= how == "binary";
        // field by field
        ensure!(g.index == orig.index, "index", "{what}: tip {} instead of {}", g.index, orig.index);
        for i in 0..11 {
            let want = if i < count || !seen_binary { stamps[i] } else { OffsetDateTime::UNIX_EPOCH };
            ensure!(g.prev_timestamps[i] == want, "timestamps", "{what}: timestamp {i} is {} instead of {want}", g.prev_timestamps[i]);
        }
        ensure!(g.depth == orig.depth, "depth", "{what}: depth {}", g.depth);
        ensure!(g.child_target == orig.child_target, "child_target", "{what}: child target {}", g.child_target);
        ensure!(g.siafund_pool == orig.siafund_pool, "siafund_pool", "{what}: siafund pool {} instead of {}", *g.siafund_pool, *orig.siafund_pool);
        ensure!(g.oak_time == orig.oak_time, "oak_time", "{what}: oak time {:?} instead of {:?}", g.oak_time, orig.oak_time);
        ensure!(g.oak_target == orig.oak_target, "oak_target", "{what}: oak target {}", g.oak_target);
        ensure!(g.foundation_primary_address == orig.foundation_primary_address, "primary", "{what}: primary address {}", g.foundation_primary_address);
        ensure!(g.foundation_failsafe_address == orig.foundation_failsafe_address, "failsafe", "{what}: failsafe address {}", g.foundation_failsafe_address);
        ensure!(g.total_work == orig.total_work, "total_work", "{what}: total work {} instead of {}", g.total_work, orig.total_work);
        ensure!(g.difficulty == orig.difficulty, "difficulty", "{what}: difficulty {} instead of {}", g.difficulty, orig.difficulty);
        ensure!(g.oak_work == orig.oak_work, "oak_work", "{what}: oak work {} instead of {}", g.oak_work, orig.oak_work);
        ensure!(g.attestations == orig.attestations, "attestations", "{what}: {} attestations instead of {}", g.attestations, orig.attestations);
        same_acc(&g.elements, n, &t, &what)?;
        cur = g;
        c.obs("states reloaded", 1);
        c.obs(&format!("route:{how}"), 1);
        c.obs(&format!("timestamps:{count}"), 1);
    }
    c.seen("state", format!("{height} {n} {route:?}").as_bytes());
    c.sample(|| format!("height {height}, {n:#x} leaves, {}", route.join(" → ")));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let std: &[&str] = &["the harness's own big-integer arithmetic and copies of the published parameters are the reference"];
    vec![
        Prop {
            id: "C15",
            rule: "payouts and output pairs around every rounding and overflow boundary, at heights around the tax hardfork of built-in and random networks; distinct by payout and side of the hardfork",
            monitors: vec![Monitor { name: "v1", weight: 1, f: tax_v1 }, Monitor { name: "v2", weight: 1, f: tax_v2 }],
            quick_ms: 12_000,
            thorough_ms: 60_000,
            must: &[("taxes before the hardfork", 5000), ("taxes after the hardfork", 5000), ("taxes that differ across the hardfork", 100), ("v2 taxes", 5000), ("overflowing sums refused", 500)],
            assumptions: std,
        },
        Prop {
            id: "C16",
            rule: "tip heights around every hardfork, coinbase limit and subsidy month of built-in and random networks; distinct by height and network parameters",
            monitors: vec![Monitor { name: "schedule", weight: 4, f: schedule }, Monitor { name: "runs", weight: 1, f: runs }, Monitor { name: "networks", weight: 1, f: networks }],
            quick_ms: 12_000,
            thorough_ms: 60_000,
            must: &[("heights checked", 20_000), ("subsidies due", 500), ("first subsidies", 200), ("no subsidy due", 5000), ("networks compared", 100), ("consecutive heights", 2000)],
            assumptions: std,
        },
        Prop {
            id: "C28",
            rule: "chain states of every timestamp count and accumulators of every leaf pattern, stored and reloaded through binary, JSON and CBOR in sequence; distinct by height, leaf count and route",
            monitors: vec![Monitor { name: "acc", weight: 1, f: acc }, Monitor { name: "state", weight: 2, f: state }],
            quick_ms: 12_000,
            thorough_ms: 60_000,
            must: &[
                ("accumulators", 1000),
                ("states reloaded", 2000),
                ("wrong tree counts refused", 50_000),
                ("route:binary", 200),
                ("route:JSON", 200),
                ("route:JSON text", 200),
                ("timestamps:0", 20),
                ("timestamps:1", 20),
                ("timestamps:5", 20),
                ("timestamps:10", 20),
                ("timestamps:11", 200),
            ],
            assumptions: std,
        },
    ]
}
