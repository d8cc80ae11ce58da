//! C17–C23: IDs, signature hashes, derived identifiers and addresses.
#![allow(deprecated)]
use super::util::*;
use crate::eng::*;
use crate::models::*;
use crate::{ensure, fail};
use model::blake::concat256;
use model::refhash::{self as rh, Heights, H};
use model::rng::Rng;
use model::val::*;
use sia::consensus::*;
use sia::types::v2::SpendPolicy;
use sia::types::*;
use std::collections::HashMap;

fn must<T>(key: &str, what: impl std::fmt::Display, f: impl FnOnce() -> T) -> Result<T, Fail> {
    caught(f).map_err(|p| Fail { key: format!("panic:{key}"), msg: format!("{what}: panicked: {} at {}", p.msg, p.loc) })
}
fn hs(b: &H) -> String {
    hex::encode(b)
}
fn raw<T: AsRef<[u8]>>(t: T) -> H {
    t.as_ref().try_into().unwrap()
}
fn addr_raw(a: &Address) -> H {
    AsRef::<[u8]>::as_ref(a).try_into().unwrap()
}
fn small_budget(r: &mut Rng) -> isize {
    match r.below(20) {
        0..=7 => 20 + r.below(40) as isize,
        8..=17 => 60 + r.below(150) as isize,
        18 => 500,
        _ => 1500,
    }
}

/// a chain whose three replay hardforks are at the heights of `h`
pub fn chain(h: &Heights) -> ChainState {
    let mut cs = mainnet_at(h.tip);
    cs.network.hardfork_asic.height = h.asic;
    cs.network.hardfork_foundation.height = h.foundation;
    cs.network.hardfork_v2.allow_height = h.v2;
    cs
}
/// hardfork heights and a tip near one of them; the last value names the side
fn heights(r: &mut Rng) -> (Heights, usize) {
    let mut f = match r.below(4) {
        0 => [179_000, 298_000, 1_000_000],
        1 => [20, 30, 2016],
        2 => [r.below(20) as u64, r.below(20) as u64, r.below(20) as u64],
        _ => [r.n64(), r.n64(), r.n64()],
    };
    f.sort();
    let b = *r.pick(&f);
    let tip = match r.below(6) {
        0 => b,
        1 => b.wrapping_sub(1),
        2 => b.wrapping_add(1),
        3 => r.below(2_000_000) as u64,
        4 => r.n64(),
        _ => b / 2,
    };
    let side = f.iter().filter(|x| tip >= **x).count();
    (Heights { tip, asic: f[0], foundation: f[1], v2: f[2] }, side)
}
/// one chain on every side of the replay hardforks
fn sides() -> [Heights; 4] {
    [0, 1, 2, 3].map(|i| Heights { tip: [5, 10, 25, 30][i], asic: 10, foundation: 20, v2: 30 })
}

fn pick_path(r: &mut Rng, p: &[String]) -> String {
    // half of the picks go to a uniformly chosen class of places, so that rare places are not
    // drowned by long lists
    if r.bool() {
        let mut cls: Vec<String> = p.iter().map(|x| class(x)).collect();
        cls.sort();
        cls.dedup();
        let c = r.pick(&cls).clone();
        let l: Vec<&String> = p.iter().filter(|x| class(x) == c).collect();
        (*r.pick(&l)).clone()
    } else {
        r.pick(p).clone()
    }
}
/// a path without its list positions
fn class(p: &str) -> String {
    let mut s: Vec<&str> = p
        .split('/')
        .filter(|x| !x.is_empty() && x.parse::<u64>().is_err() && !(x.starts_with("of") && x[2..].parse::<u64>().is_ok()))
        .collect();
    s.truncate(6);
    s.join("/")
}

// ---------------------------------------------------------------------------------------------
// C17

type V1Ids = (H, Vec<(String, H)>);

fn v1_ids(t: &v1::Transaction, idx: &[usize]) -> V1Ids {
    let mut l = vec![];
    for &i in idx {
        l.push((format!("siacoin output {i}"), raw(t.siacoin_output_id(i))));
        l.push((format!("siafund output {i}"), raw(t.siafund_output_id(i))));
        l.push((format!("file contract {i}"), raw(t.file_contract_id(i))));
    }
    (raw(t.id()), l)
}
fn v1_ids_ref(ty: &Ty, v: &Val, idx: &[usize]) -> V1Ids {
    let mut l = vec![];
    for &i in idx {
        for s in ["siacoin output", "siafund output", "file contract"] {
            l.push((format!("{s} {i}"), rh::v1_child(ty, v, s, i as u64)));
        }
    }
    (rh::v1_id(ty, v), l)
}
fn cmp_v1(got: &V1Ids, want: &V1Ids, v: &Val) -> Res {
    ensure!(got.0 == want.0, "id", "transaction ID {} instead of {} for {}", hs(&got.0), hs(&want.0), short(v));
    for ((n, g), (_, w)) in got.1.iter().zip(&want.1) {
        ensure!(g == w, "child", "ID of {n} is {} instead of {} for {}", hs(g), hs(w), short(v));
    }
    Ok(())
}

fn v1_id(c: &mut Ctx) -> Res {
    let ty = v1::Transaction::ty();
    let b = small_budget(&mut c.r);
    let v = Gen::new(b).gen(&ty, &mut c.r);
    let mut idx = vec![0, 1, 2];
    idx.push(match c.r.below(4) {
        0 => usize::MAX,
        1 => c.r.n64() as usize,
        2 => 255 + c.r.below(3),
        _ => c.r.below(3000),
    });
    idx.sort();
    idx.dedup();
    let t = v1::Transaction::from_val(&v);
    let got = must("id", "computing IDs", || v1_ids(&t, &idx))?;
    cmp_v1(&got, &v1_ids_ref(&ty, &v, &idx), &v)?;
    // IDs of different kinds or positions differ
    let mut seen: HashMap<H, String> = HashMap::new();
    seen.insert(got.0, "the transaction".into());
    for (n, h) in &got.1 {
        if let Some(o) = seen.insert(*h, n.clone()) {
            fail!("shared", "{n} and {o} share the ID {}", hs(h));
        }
    }
    c.obs("v1 IDs", 1 + got.1.len() as u64);
    let mut p = vec![];
    paths(&ty, &v, "", &mut p);
    for _ in 0..6 {
        let path = pick_path(&mut c.r, &p);
        let Some(v2) = modify(&ty, &v, &path, &mut c.r) else { continue };
        let t2 = v1::Transaction::from_val(&v2);
        let got2 = must("id", "computing IDs", || v1_ids(&t2, &idx))?;
        cmp_v1(&got2, &v1_ids_ref(&ty, &v2, &idx), &v2)?;
        if path.starts_with("/signatures") {
            ensure!(got == got2, "signature", "IDs change when {path} changes");
            c.obs("signature changes", 1);
        } else {
            ensure!(got.0 != got2.0, "ignored", "transaction ID does not change when {path} changes");
            for ((n, a), (_, b)) in got.1.iter().zip(&got2.1) {
                ensure!(a != b, "ignored", "ID of {n} does not change when {path} changes");
            }
            c.obs("content changes", 1);
            c.obs(&format!("changed:{}", path.split('/').nth(1).unwrap_or("")), 1);
        }
        c.seen("v1 change", format!("{} {:?}", class(&path), got2.0).as_bytes());
    }
    c.sample(|| format!("v1 transaction {} with children at {idx:?}", hs(&got.0)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

#[derive(PartialEq, Clone, Copy, Debug)]
enum Role {
    Witness,
    Content,
    Unspecified,
}
/// what a place of a v2 transaction is, by the property's own list
fn role(p: &str) -> Role {
    let s: Vec<&str> = p.split('/').skip(1).collect();
    let sig = |x: &str| x == "renter_signature" || x == "host_signature";
    match s[0] {
        "siacoin_inputs" | "siafund_inputs" if s.len() > 2 => match s[2] {
            "parent" if s[3] == "id" => Role::Content,
            "parent" | "satisfied_policy" => Role::Witness,
            _ => Role::Unspecified,
        },
        "file_contracts" if s.len() > 2 && sig(s[2]) => Role::Witness,
        "file_contract_revisions" if s.len() > 2 => match s[2] {
            "parent" if s[3] == "id" => Role::Content,
            "parent" => Role::Witness,
            _ if s.len() > 3 && sig(s[3]) => Role::Witness,
            _ => Role::Content,
        },
        "file_contract_resolutions" if s.len() > 2 => match s[2] {
            "parent" if s[3] == "id" => Role::Content,
            "parent" => Role::Witness,
            _ if s.iter().any(|x| sig(x)) => Role::Witness,
            _ if s.contains(&"merkle_proof") => Role::Witness,
            _ => Role::Content,
        },
        "attestations" if s.last() == Some(&"signature") => Role::Unspecified,
        _ => Role::Content,
    }
}

fn v2_id(c: &mut Ctx) -> Res {
    let ty = v2::Transaction::ty();
    let b = small_budget(&mut c.r);
    let v = Gen::new(b).gen(&ty, &mut c.r);
    let t = v2::Transaction::from_val(&v);
    let want = rh::v2_semantics(&ty, &v);
    let want_id = rh::v2_id(&ty, &v);
    let id = raw(must("id", "computing the ID", || t.id())?);
    ensure!(id == want_id, "id", "v2 transaction ID {} instead of {} for {}", hs(&id), hs(&want_id), short(&v));
    c.obs("v2 IDs", 1);
    let mut p = vec![];
    paths(&ty, &v, "", &mut p);
    for _ in 0..8 {
        let path = pick_path(&mut c.r, &p);
        let Some(v2) = modify(&ty, &v, &path, &mut c.r) else { continue };
        let t2 = v2::Transaction::from_val(&v2);
        let id2 = raw(must("id", "computing the ID", || t2.id())?);
        let same = rh::v2_semantics(&ty, &v2) == want;
        ensure!(
            id2 == rh::v2_id(&ty, &v2),
            "id",
            "v2 transaction ID {} instead of {} for {}",
            hs(&id2),
            hs(&rh::v2_id(&ty, &v2)),
            short(&v2)
        );
        match role(&path) {
            Role::Witness => {
                ensure!(id == id2, "witness", "v2 transaction ID changes when {path} changes");
                c.obs("witness changes", 1);
                c.obs(&format!("witness:{}", class(&path)), 1);
            }
            Role::Content if !same => {
                ensure!(id != id2, "ignored", "v2 transaction ID does not change when {path} changes");
                c.obs("content changes", 1);
                c.obs(&format!("content:{}", path.split('/').nth(1).unwrap_or("")), 1);
            }
            _ => c.obs("unspecified changes", 1),
        }
        c.seen("v2 change", format!("{} {:?}", class(&path), id2).as_bytes());
    }
    c.sample(|| format!("v2 transaction {} of {} semantic bytes", hs(&id), want.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

fn v1_whole(c: &mut Ctx) -> Res {
    let ty = v1::Transaction::ty();
    let b = small_budget(&mut c.r);
    let v = Gen::new(b).gen(&ty, &mut c.r);
    let t = v1::Transaction::from_val(&v);
    let (h, side) = heights(&mut c.r);
    let cs = chain(&h);
    let parent: H = c.r.fixed(32).try_into().unwrap();
    let (key, lock) = (c.r.n64(), c.r.n64());
    let run = |t: &v1::Transaction, cs: &ChainState, parent: &H, key: u64, lock: u64, how: usize| -> Result<H, Fail> {
        let r = must("whole_sig_hash", "whole_sig_hash", || match how {
            0 => t.whole_sig_hash(cs, &SiacoinOutputID::from(*parent), key, lock),
            1 => t.whole_sig_hash(cs, &SiafundOutputID::from(*parent), key, lock),
            2 => t.whole_sig_hash(cs, &FileContractID::from(*parent), key, lock),
            _ => t.whole_sig_hash(cs, &Hash256::from(*parent), key, lock),
        })?;
        match r {
            Ok(h) => Ok(raw(h)),
            Err(e) => fail!("whole_error", "whole_sig_hash failed: {e}"),
        }
    };
    let how = c.r.below(4);
    let g = run(&t, &cs, &parent, key, lock, how)?;
    let w = rh::v1_whole(&ty, &v, &h, &parent, key, lock);
    ensure!(g == w, "whole", "whole signature hash {} instead of {} at {h:?}, key {key}, timelock {lock}, for {}", hs(&g), hs(&w), short(&v));
    c.obs(&format!("side {side}"), 1);
    // the arguments are covered
    let mut p2 = parent;
    p2[c.r.below(32)] ^= 1 << c.r.below(8);
    for (n, g2) in [
        ("parent ID", run(&t, &cs, &p2, key, lock, how)?),
        ("key index", run(&t, &cs, &parent, key ^ (1 << c.r.below(64)), lock, how)?),
        ("timelock", run(&t, &cs, &parent, key, lock ^ (1 << c.r.below(64)), how)?),
    ] {
        ensure!(g2 != g, "argument", "whole signature hash does not depend on the {n}");
    }
    // replay protection separates the sides as soon as there is an input
    if !(t.siacoin_inputs.is_empty() && t.siafund_inputs.is_empty()) {
        let mut seen: HashMap<H, usize> = HashMap::new();
        for (i, s) in sides().iter().enumerate() {
            let g = run(&t, &chain(s), &parent, key, lock, how)?;
            if let Some(o) = seen.insert(g, i) {
                fail!("replay", "whole signature hash is the same on sides {o} and {i} of the replay hardforks");
            }
        }
        c.obs("replay sides compared", 4);
    }
    let mut p = vec![];
    paths(&ty, &v, "", &mut p);
    for _ in 0..5 {
        let path = pick_path(&mut c.r, &p);
        let Some(v2) = modify(&ty, &v, &path, &mut c.r) else { continue };
        let t2 = v1::Transaction::from_val(&v2);
        let g2 = run(&t2, &cs, &parent, key, lock, how)?;
        let w2 = rh::v1_whole(&ty, &v2, &h, &parent, key, lock);
        ensure!(g2 == w2, "whole", "whole signature hash {} instead of {} at {h:?} for {}", hs(&g2), hs(&w2), short(&v2));
        if path.starts_with("/signatures") {
            ensure!(g == g2, "signature", "whole signature hash changes when {path} changes");
            c.obs("signature changes", 1);
        } else {
            ensure!(g != g2, "ignored", "whole signature hash does not change when {path} changes");
            c.obs("content changes", 1);
        }
        c.seen("whole", &g2);
    }
    c.obs("whole signature hashes", 1);
    Ok(())
}

const COVER: [&str; 10] = [
    "siacoin_inputs",
    "siacoin_outputs",
    "file_contracts",
    "file_contract_revisions",
    "storage_proofs",
    "siafund_inputs",
    "siafund_outputs",
    "miner_fees",
    "arbitrary_data",
    "signatures",
];

fn v1_partial(c: &mut Ctx) -> Res {
    let ty = v1::Transaction::ty();
    let cty = v1::CoveredFields::ty();
    let (Ty::Struct(td), Ty::Struct(cd)) = (&ty, &cty) else { panic!() };
    let b = small_budget(&mut c.r);
    let v = Gen::new(b).gen(&ty, &mut c.r);
    let t = v1::Transaction::from_val(&v);
    let (h, side) = heights(&mut c.r);
    let cs = chain(&h);
    // covered fields: subsets in any order with repetitions, sometimes with a wrong index
    let mut cov = empty(&cty);
    let mut bad = false;
    cov.st_mut()[cd.idx("whole_transaction")] = Val::Bool(c.r.one_in(4));
    for n in COVER {
        let len = v.st()[td.idx(n)].list().len();
        let mut l = vec![];
        match c.r.below(4) {
            0 => {}
            1 => l = (0..len).collect(),
            2 if len > 0 => {
                for _ in 0..c.r.below(5) {
                    l.push(c.r.below(len));
                }
            }
            _ => {
                l = (0..len).filter(|_| c.r.bool()).collect();
                if c.r.one_in(3) {
                    l.reverse();
                }
            }
        }
        if c.r.one_in(40) {
            let i = match c.r.below(6) {
                0 | 1 => len as u64,
                2 => len as u64 + 1 + c.r.below(3) as u64,
                3 => u64::MAX,
                4 => 1 << (8 * (1 + c.r.below(7))),
                _ => (len as u64).wrapping_add(1 << 32),
            } as usize;
            let at = c.r.below(l.len() + 1);
            l.insert(at, i);
            bad = true;
        }
        cov.st_mut()[cd.idx(n)] = Val::List(l.into_iter().map(|x| Val::U(x as u64)).collect());
    }
    let cf = v1::CoveredFields::from_val(&cov);
    let run = |t: &v1::Transaction, cs: &ChainState, cf: &v1::CoveredFields| must("partial_sig_hash", format!("partial_sig_hash of {}", short(cf)), || t.partial_sig_hash(cs, cf).map(raw).map_err(|e| e.to_string()));
    let g = run(&t, &cs, &cf)?;
    let w = rh::v1_partial(&ty, &v, &h, &cty, &cov);
    match (&g, &w) {
        (Ok(a), Some(b)) => ensure!(a == b, "partial", "partial signature hash {} instead of {} at {h:?}, covering {}, of {}", hs(a), hs(b), short(&cf), short(&v)),
        (Err(_), None) => {
            c.obs("out-of-range refused", 1);
            return Ok(());
        }
        (Ok(_), None) => fail!("range", "out-of-range covered field accepted: {} of {}", short(&cf), short(&v)),
        (Err(e), Some(_)) => fail!("refused", "valid covered fields refused ({e}): {}", short(&cf)),
    }
    ensure!(!bad, "range", "MONITOR: wrong index not noticed");
    let g = g.unwrap();
    let covered: usize = COVER.iter().map(|n| cov.st()[cd.idx(n)].list().len()).sum();
    let inputs: usize = ["siacoin_inputs", "siafund_inputs"].iter().map(|n| cov.st()[cd.idx(n)].list().len()).sum();
    c.obs("partial signature hashes", 1);
    c.obs("covered elements", covered as u64);
    c.obs(&format!("side {side}"), 1);
    c.seen("partial", &g);
    if inputs > 0 {
        let mut seen: HashMap<H, usize> = HashMap::new();
        for (i, s) in sides().iter().enumerate() {
            let Ok(g) = run(&t, &chain(s), &cf)? else { fail!("refused", "valid covered fields refused") };
            if let Some(o) = seen.insert(g, i) {
                fail!("replay", "partial signature hash is the same on sides {o} and {i} of the replay hardforks");
            }
        }
        c.obs("replay sides compared", 4);
    }
    // changing a covered element changes the hash, changing another one does not
    let mut p = vec![];
    paths(&ty, &v, "", &mut p);
    p.retain(|x| x.split('/').nth(2).map(|s| s.parse::<u64>().is_ok()).unwrap_or(false));
    if p.is_empty() {
        return Ok(());
    }
    for _ in 0..5 {
        let path = pick_path(&mut c.r, &p);
        let s: Vec<&str> = path.split('/').collect();
        let i: u64 = s[2].parse().unwrap();
        let is = cov.st()[cd.idx(s[1])].list().contains(&Val::U(i));
        let Some(v2) = modify(&ty, &v, &path, &mut c.r) else { continue };
        let t2 = v1::Transaction::from_val(&v2);
        let Ok(g2) = run(&t2, &cs, &cf)? else { fail!("refused", "valid covered fields refused") };
        let w2 = rh::v1_partial(&ty, &v2, &h, &cty, &cov);
        ensure!(Some(g2) == w2, "partial", "partial signature hash {} instead of {:?} at {h:?}, covering {}, of {}", hs(&g2), w2.map(|x| hs(&x)), short(&cf), short(&v2));
        if is {
            ensure!(g2 != g, "ignored", "partial signature hash does not change when the covered {path} changes");
            c.obs("covered changes", 1);
        } else {
            ensure!(g2 == g, "uncovered", "partial signature hash changes when {path} changes, which is not covered by {}", short(&cf));
            c.obs("uncovered changes", 1);
        }
    }
    // order of the covered elements counts
    for n in COVER {
        let k = cd.idx(n);
        let mut cov2 = cov.clone();
        let l = cov2.st_mut()[k].list_mut();
        if l.len() < 2 {
            continue;
        }
        let i = c.r.below(l.len() - 1);
        l.swap(i, i + 1);
        let cf2 = v1::CoveredFields::from_val(&cov2);
        let Ok(g2) = run(&t, &cs, &cf2)? else { fail!("refused", "valid covered fields refused") };
        let w2 = rh::v1_partial(&ty, &v, &h, &cty, &cov2);
        ensure!(Some(g2) == w2, "order", "partial signature hash of reordered {n} is wrong: covering {}", short(&cf2));
        c.obs("orders compared", 1);
        break;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

fn v2_sigs(c: &mut Ctx) -> Res {
    let (h, side) = heights(&mut c.r);
    let cs = chain(&h);
    let b = small_budget(&mut c.r);
    type Obj = (&'static str, Ty, fn(&Val, &ChainState) -> H, fn(&Ty, &Val, &Heights) -> H);
    let objs: [Obj; 4] = [
        ("input", v2::Transaction::ty(), |v, cs| raw(v2::Transaction::from_val(v).input_sig_hash(cs)), rh::v2_input_sig),
        ("contract", v2::FileContract::ty(), |v, cs| raw(v2::FileContract::from_val(v).sig_hash(cs)), rh::contract_sig),
        ("renewal", v2::FileContractRenewal::ty(), |v, cs| raw(v2::FileContractRenewal::from_val(v).sig_hash(cs)), rh::renewal_sig),
        ("attestation", v2::Attestation::ty(), |v, cs| raw(v2::Attestation::from_val(v).sig_hash(cs)), rh::attestation_sig),
    ];
    let mut seen: HashMap<H, String> = HashMap::new();
    for (name, ty, sig, reference) in &objs {
        let mut g = Gen::new(b);
        let v = g.gen(ty, &mut c.r);
        let got = must("sig_hash", format!("{name} signature hash"), || sig(&v, &cs))?;
        let want = reference(ty, &v, &h);
        ensure!(got == want, "hash", "{name} signature hash {} instead of {} at {h:?} for {}", hs(&got), hs(&want), short(&v));
        c.obs(&format!("{name} hashes"), 1);
        c.obs(&format!("side {side}"), 1);
        for (i, s) in sides().iter().enumerate() {
            let g = must("sig_hash", format!("{name} signature hash"), || sig(&v, &chain(s)))?;
            ensure!(g == reference(ty, &v, s), "hash", "{name} signature hash {} instead of {} at {s:?}", hs(&g), hs(&reference(ty, &v, s)));
            let me = format!("{name} at side {i}");
            if let Some(o) = seen.insert(g, me.clone()) {
                fail!("shared", "{me} and {o} share the signature hash {}", hs(&g));
            }
            c.obs("replay sides compared", 1);
        }
        let mut p = vec![];
        paths(ty, &v, "", &mut p);
        for _ in 0..4 {
            let path = pick_path(&mut c.r, &p);
            let Some(v2) = modify(ty, &v, &path, &mut c.r) else { continue };
            let got2 = must("sig_hash", format!("{name} signature hash"), || sig(&v2, &cs))?;
            let want2 = reference(ty, &v2, &h);
            ensure!(got2 == want2, "hash", "{name} signature hash {} instead of {} at {h:?} for {}", hs(&got2), hs(&want2), short(&v2));
            let role = match *name {
                "input" => role(&path),
                "attestation" => {
                    if path == "/signature" {
                        Role::Witness
                    } else {
                        Role::Content
                    }
                }
                _ => {
                    if path.ends_with("_signature") {
                        Role::Witness
                    } else {
                        Role::Content
                    }
                }
            };
            match role {
                Role::Witness => {
                    ensure!(got2 == got, "witness", "{name} signature hash changes when {path} changes");
                    c.obs("signature changes", 1);
                    c.obs(&format!("blanked:{name}"), 1);
                }
                Role::Content if want2 != want => {
                    ensure!(got2 != got, "ignored", "{name} signature hash does not change when {path} changes");
                    c.obs("content changes", 1);
                    c.seen(name, &got2);
                }
                _ => {}
            }
        }
        if *name == "input" {
            // the ID of the same transaction is a different hash
            let id = raw(must("id", "v2 ID", || v2::Transaction::from_val(&v).id())?);
            if let Some(o) = seen.insert(id, "transaction ID".into()) {
                fail!("shared", "transaction ID and {o} share the hash {}", hs(&id));
            }
        }
    }
    c.sample(|| format!("signature hashes at {h:?}"));
    Ok(())
}

/// contracts that occur at several places are hashed for each purpose separately
fn v2_shared(c: &mut Ctx) -> Res {
    let (h, _) = heights(&mut c.r);
    let cs = chain(&h);
    let cty = v2::FileContract::ty();
    let v = Gen::new(60).gen(&cty, &mut c.r);
    let rty = v2::FileContractRenewal::ty();
    let Ty::Struct(rd) = &rty else { panic!() };
    let mut r = Gen::new(60).gen(&rty, &mut c.r);
    r.st_mut()[rd.idx("final_revision")] = v.clone();
    r.st_mut()[rd.idx("new_contract")] = v.clone();
    let con = v2::FileContract::from_val(&v);
    let ren = v2::FileContractRenewal::from_val(&r);
    let tty = v2::Transaction::ty();
    let Ty::Struct(td) = &tty else { panic!() };
    let mut t = empty(&tty);
    t.st_mut()[td.idx("file_contracts")] = Val::List(vec![v.clone()]);
    let txn = v2::Transaction::from_val(&t);
    let hs4 = must("sig_hash", "signature hashes", || [raw(con.sig_hash(&cs)), raw(ren.sig_hash(&cs)), raw(ren.final_revision.sig_hash(&cs)), raw(ren.new_contract.sig_hash(&cs)), raw(txn.input_sig_hash(&cs)), raw(txn.id())])?;
    ensure!(hs4[0] == hs4[2] && hs4[2] == hs4[3], "place", "the same contract has different signature hashes at different places: {}", short(&v));
    ensure!(hs4[0] == rh::contract_sig(&cty, &v, &h), "hash", "contract signature hash {} at {h:?}", hs(&hs4[0]));
    ensure!(hs4[1] == rh::renewal_sig(&rty, &r, &h), "hash", "renewal signature hash {} at {h:?}", hs(&hs4[1]));
    ensure!(hs4[4] == rh::v2_input_sig(&tty, &t, &h), "hash", "input signature hash {} at {h:?}", hs(&hs4[4]));
    for (a, b) in [(0, 1), (0, 4), (1, 4), (0, 5), (1, 5), (4, 5)] {
        ensure!(hs4[a] != hs4[b], "shared", "hashes for purposes {a} and {b} coincide");
    }
    // signing does not depend on who has signed before
    let mut signed = v2::FileContract::from_val(&v);
    signed.renter_signature = sia::signing::Signature::new(c.r.fixed(64).try_into().unwrap());
    signed.host_signature = sia::signing::Signature::new(c.r.fixed(64).try_into().unwrap());
    ensure!(raw(signed.sig_hash(&cs)) == hs4[0], "witness", "contract signature hash depends on the signatures");
    c.obs("shared contracts", 1);
    c.seen("shared", &hs4[1]);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

fn derived(c: &mut Ctx) -> Res {
    // a few parents, among them nearly equal ones
    let base: H = c.r.fixed(32).try_into().unwrap();
    let mut near = base;
    near[c.r.below(32)] ^= 1 << c.r.below(8);
    let other: H = c.r.fixed(32).try_into().unwrap();
    let mut parents = vec![base, near, other];
    parents.sort();
    parents.dedup();
    let mut idx: Vec<usize> = vec![0, 1, 2];
    for _ in 0..3 {
        idx.push(match c.r.below(5) {
            0 => c.r.below(300),
            1 => 255 + c.r.below(3),
            2 => usize::MAX - c.r.below(2),
            3 => 1 << c.r.below(64),
            _ => c.r.n64() as usize,
        });
    }
    idx.sort();
    idx.dedup();
    let spec = |s: &str| rh::specifier(s);
    let mut seen: HashMap<H, String> = HashMap::new();
    let mut n = 0;
    for p in &parents {
        let (bid, tid, sf, fc) = (BlockID::from(*p), TransactionID::from(*p), SiafundOutputID::from(*p), FileContractID::from(*p));
        let mut l: Vec<(String, H, H)> = vec![];
        must("derive", "deriving IDs", || {
            l.push(("Foundation output".into(), raw(bid.foundation_output_id()), concat256(&[p, &spec("foundation")])));
            l.push(("claim output".into(), raw(sf.claim_output_id()), concat256(&[p])));
            l.push(("v2 claim output".into(), raw(sf.v2_claim_output_id()), rh::tagged("id/v2siacoinclaimoutput", &[p])));
            l.push(("v2 renewal".into(), raw(fc.v2_renewal_id()), rh::tagged("id/v2filecontractrenewal", &[p])));
            l.push(("v2 renter output".into(), raw(fc.v2_renter_output_id()), rh::tagged("id/v2filecontractoutput", &[p, &0u64.to_le_bytes()])));
            l.push(("v2 host output".into(), raw(fc.v2_host_output_id()), rh::tagged("id/v2filecontractoutput", &[p, &1u64.to_le_bytes()])));
            for &i in &idx {
                let ib = (i as u64).to_le_bytes();
                l.push((format!("miner output {i}"), raw(bid.miner_output_id(i)), concat256(&[p, &ib])));
                l.push((format!("v2 siacoin output {i}"), raw(tid.v2_siacoin_output_id(i)), rh::tagged("id/siacoinoutput", &[p, &ib])));
                l.push((format!("v2 siafund output {i}"), raw(tid.v2_siafund_output_id(i)), rh::tagged("id/siafundoutput", &[p, &ib])));
                l.push((format!("v2 contract {i}"), raw(tid.v2_file_contract_id(i)), rh::tagged("id/filecontract", &[p, &ib])));
                l.push((format!("v2 attestation {i}"), raw(tid.v2_attestation_id(i)), rh::tagged("id/attestation", &[p, &ib])));
                l.push((format!("valid output {i}"), raw(fc.valid_output_id(i)), concat256(&[&spec("storage proof"), p, &[1], &ib])));
                l.push((format!("missed output {i}"), raw(fc.missed_output_id(i)), concat256(&[&spec("storage proof"), p, &[0], &ib])));
            }
        })?;
        for (name, got, want) in l {
            ensure!(got == want, name.trim_end_matches(|c: char| c.is_ascii_digit()).trim(), "{name} of {} is {} instead of {}", hs(p), hs(&got), hs(&want));
            if let Some(o) = seen.insert(got, format!("{name} of {}", hs(p))) {
                fail!("shared", "{name} of {} and {o} share the ID {}", hs(p), hs(&got));
            }
            n += 1;
            c.seen("derived", &got);
        }
    }
    c.obs("derived IDs", n);
    // deriving from a transaction and from its ID agree
    let ty = v2::Transaction::ty();
    let v = Gen::new(60).gen(&ty, &mut c.r);
    let t = v2::Transaction::from_val(&v);
    let i = *c.r.pick(&idx);
    let id = must("id", "v2 ID", || t.id())?;
    let wid = rh::v2_id(&ty, &v);
    let got = raw(must("derive", "deriving IDs", || id.v2_file_contract_id(i))?);
    let want = rh::tagged("id/filecontract", &[&wid, &(i as u64).to_le_bytes()]);
    ensure!(got == want, "v2 contract", "contract {i} of v2 transaction {} is {} instead of {}", hs(&wid), hs(&got), hs(&want));
    c.obs("chained derivations", 1);
    c.sample(|| format!("{n} IDs derived from {} parents at {idx:?}", parents.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

fn pol(v: &Val) -> SpendPolicy {
    SpendPolicy::from_val(v)
}
/// replace some sub-policies by their opaque form
fn conceal(v: &Val, r: &mut Rng, top: bool, prob: usize, n: &mut u64) -> Val {
    let Val::En(k, x) = v else { panic!() };
    if !top && r.below(100) < prob {
        *n += 1;
        return Val::En(5, Box::new(Val::B(rh::policy_address(v).to_vec())));
    }
    if *k == 4 {
        let s = x.st();
        let l = s[1].list().iter().map(|y| conceal(y, r, false, prob, n)).collect();
        Val::En(4, Box::new(Val::St(vec![s[0].clone(), Val::List(l)])))
    } else {
        v.clone()
    }
}
fn depth(v: &Val) -> usize {
    match v {
        Val::En(4, x) => 1 + x.st()[1].list().iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn some_policy(r: &mut Rng) -> Val {
    match r.below(20) {
        // chains of thresholds
        0 => {
            let mut v = Gen::new(5).policy(r, 0, &uc());
            let n = if r.one_in(4) { 700 } else { 60 };
            for _ in 0..r.below(n) {
                let mut l = vec![v];
                if r.one_in(3) {
                    l.insert(r.below(2), Gen::new(5).policy(r, 0, &uc()));
                }
                v = Val::En(4, Box::new(Val::St(vec![Val::U(r.below(3) as u64), Val::List(l)])));
            }
            v
        }
        // wide ones
        1 => {
            let n = *r.pick(&[64usize, 127, 128, 129, 200, 254, 255]);
            let mut g = Gen::new(100_000);
            g.big = false;
            let l = (0..n).map(|_| g.policy(r, 0, &uc())).collect();
            Val::En(4, Box::new(Val::St(vec![Val::U(r.below(256) as u64), Val::List(l)])))
        }
        _ => {
            let m = if r.one_in(6) { 400 } else { 60 };
            let b = 5 + r.below(m) as isize;
            let d = 1 + r.below(7);
            let mut g = Gen::new(b);
            let mut v = g.policy(r, d, &uc());
            for _ in 0..4 {
                if matches!(v, Val::En(4, _)) {
                    break;
                }
                if r.bool() {
                    g.budget = b;
                    v = g.policy(r, d, &uc());
                }
            }
            v
        }
    }
}

fn policy(c: &mut Ctx) -> Res {
    let v = some_policy(&mut c.r);
    let want = rh::policy_address(&v);
    let p = pol(&v);
    let got = addr_raw(&must("address", "policy address", || p.address())?);
    ensure!(got == want, "address", "address {} instead of {} of {}", hs(&got), hs(&want), short(&v));
    c.obs("policy addresses", 1);
    c.obs(&format!("kind {}", match &v { Val::En(k, _) => *k, _ => 9 }), 1);
    let d = depth(&v);
    if d >= 30 {
        c.obs("deep policies", 1);
    }
    c.seen("policy", &want);
    // revealing
    for prob in [10, 50, 100] {
        let mut n = 0;
        let w = conceal(&v, &mut c.r, true, prob, &mut n);
        if n == 0 {
            continue;
        }
        let got = addr_raw(&must("address", "policy address", || pol(&w).address())?);
        ensure!(got == want, "opaque", "address {} instead of {} after concealing {n} sub-policies of {}", hs(&got), hs(&want), short(&v));
        c.obs("concealed policies", 1);
        c.obs("concealed sub-policies", n);
    }
    // the whole policy made opaque
    let o = addr_raw(&must("address", "policy address", || SpendPolicy::Opaque(p.address()).address())?);
    ensure!(o == want, "opaque", "the opaque form of {} has address {}", hs(&want), hs(&o));
    // round trips keep the address, and so do clones
    if policy_nodes(&v) < 1000 {
        let mut b = vec![];
        let g = must("encode", "encoding", || {
            use sia::encoding::*;
            p.encode(&mut b).map_err(|e| e.to_string())?;
            SpendPolicy::decode(&mut &b[..]).map(|x| addr_raw(&x.address())).map_err(|e| e.to_string())
        })?;
        match g {
            Ok(g) => ensure!(g == want, "decoded", "decoding changes the address to {} from {}", hs(&g), hs(&want)),
            // what may be encoded is the business of C01
            Err(_) => c.obs("not encodable", 1),
        }
    }
    // changes
    let mut ps = vec![];
    paths(&Ty::Policy, &v, "", &mut ps);
    for _ in 0..6 {
        let path = c.r.pick(&ps).clone();
        let Some(w) = modify(&Ty::Policy, &v, &path, &mut c.r) else { continue };
        let want2 = rh::policy_address(&w);
        let got2 = addr_raw(&must("address", "policy address", || pol(&w).address())?);
        ensure!(got2 == want2, "address", "address {} instead of {} of {}", hs(&got2), hs(&want2), short(&w));
        // replacing a policy by its own opaque form is the only change without effect
        if want2 == want {
            c.obs("changes without effect", 1);
            continue;
        }
        ensure!(got2 != got, "ignored", "address does not change when {path} of {} changes", short(&v));
        c.obs("content changes", 1);
        c.obs(&format!("changed:{}", path.rsplit('/').next().unwrap_or("").trim_end_matches(|c: char| c.is_ascii_digit())), 1);
    }
    c.sample(|| format!("policy of depth {d} with {} nodes: {}", policy_nodes(&v), hs(&want)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C23

fn unlock(c: &mut Ctx) -> Res {
    let ty = v1::UnlockConditions::ty();
    let n = match c.r.below(8) {
        0 => 0,
        1 => 1,
        2 => 1 + c.r.below(4),
        3 => (1usize << (1 + c.r.below(7))) - 2 + c.r.below(4),
        4 => c.r.below(300),
        _ => c.r.below(20),
    };
    let mut g = Gen::new(100_000);
    g.big = c.r.one_in(5);
    let mut keys: Vec<Val> = (0..n).map(|_| g.unlock_key(&mut c.r)).collect();
    if n > 1 && c.r.one_in(4) {
        // repeated keys
        let i = c.r.below(n);
        let k = keys[i].clone();
        let j = c.r.below(n);
        keys[j] = k;
    }
    let v = Val::St(vec![Val::U(c.r.n64()), Val::List(keys), Val::U(c.r.n64())]);
    let u = v1::UnlockConditions::from_val(&v);
    let want = rh::uc_address(&v);
    let got = addr_raw(&must("address", "unlock conditions address", || u.address())?);
    ensure!(got == want, "address", "address {} instead of {} for {n} keys: {}", hs(&got), hs(&want), short(&v));
    c.obs("addresses", 1);
    c.obs("leaves", n as u64 + 2);
    if n > 13 {
        c.obs("many keys", 1);
    }
    c.obs(&format!("keys:{}", if n <= 8 { n.to_string() } else { "more".into() }), 1);
    c.seen("unlock", &want);
    let v2 = must("address", "policy address", || addr_raw(&SpendPolicy::UnlockConditions(v1::UnlockConditions::from_val(&v)).address()))?;
    ensure!(v2 == want, "policy", "as a v2 policy the address is {} instead of {}", hs(&v2), hs(&want));
    let made = must("new", "constructor", || v1::UnlockConditions::new(u.timelock, u.public_keys.clone(), u.signatures_required))?;
    ensure!(made == u && addr_raw(&made.address()) == want, "new", "constructor loses something: {}", short(&made));
    if n == 1 || c.r.one_in(10) {
        let pk: [u8; 32] = c.r.fixed(32).try_into().unwrap();
        let s = must("standard", "standard conditions", || v1::UnlockConditions::standard_unlock_conditions(sia::signing::PublicKey::new(pk)))?;
        let sv = Val::St(vec![Val::U(0), Val::List(vec![Val::St(vec![Val::B(rh::specifier("ed25519").to_vec()), Val::Blob(pk.to_vec())])]), Val::U(1)]);
        ensure!(s.to_val() == sv, "standard", "standard unlock conditions of {} are {}", hex::encode(pk), short(&s));
        ensure!(addr_raw(&s.address()) == rh::uc_address(&sv), "address", "standard address of {}", hex::encode(pk));
        c.obs("standard addresses", 1);
    }
    let mut p = vec![];
    paths(&ty, &v, "", &mut p);
    for k in 0..5 {
        let path = if k < 2 { pick_path(&mut c.r, &p) } else { c.r.pick(&p).clone() };
        let Some(w) = modify(&ty, &v, &path, &mut c.r) else { continue };
        let want2 = rh::uc_address(&w);
        let got2 = addr_raw(&must("address", "unlock conditions address", || v1::UnlockConditions::from_val(&w).address())?);
        ensure!(got2 == want2, "address", "address {} instead of {} for {}", hs(&got2), hs(&want2), short(&w));
        ensure!(got2 != got, "ignored", "address does not change when {path} of {} changes", short(&v));
        c.obs("changes", 1);
        c.obs(&format!("changed:{}", class(&path)), 1);
    }
    c.sample(|| format!("{n} keys: {}", hs(&want)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let std: &[&str] = &["the harness's own encoder and hash composition, written from the Sia specification over an independent BLAKE2b, are the reference"];
    let p = |id, rule, monitors, must| Prop { id, rule, monitors, quick_ms: 15_000, thorough_ms: 90_000, must, assumptions: std };
    let m = |name, weight, f| Monitor { name, weight, f };
    vec![
        p(
            "C17",
            "random v1 transactions, and each with one place changed; distinct by changed place and resulting ID",
            vec![m("v1_id", 1, v1_id as fn(&mut Ctx) -> Res)],
            &[
                ("v1 IDs", 20_000),
                ("content changes", 5000),
                ("signature changes", 500),
                ("changed:siacoin_inputs", 100),
                ("changed:siacoin_outputs", 100),
                ("changed:file_contracts", 100),
                ("changed:file_contract_revisions", 100),
                ("changed:storage_proofs", 100),
                ("changed:siafund_inputs", 100),
                ("changed:siafund_outputs", 100),
                ("changed:miner_fees", 100),
                ("changed:arbitrary_data", 100),
            ],
        ),
        p(
            "C18",
            "random v2 transactions, and each with one place changed; distinct by changed place and resulting ID",
            vec![m("v2_id", 1, v2_id as fn(&mut Ctx) -> Res)],
            &[
                ("v2 IDs", 5000),
                ("content changes", 5000),
                ("witness changes", 2000),
                ("content:siacoin_inputs", 100),
                ("content:siacoin_outputs", 100),
                ("content:siafund_inputs", 100),
                ("content:siafund_outputs", 100),
                ("content:file_contracts", 100),
                ("content:file_contract_revisions", 100),
                ("content:file_contract_resolutions", 100),
                ("content:attestations", 100),
                ("content:arbitrary_data", 100),
                ("content:new_foundation_address", 100),
                ("content:miner_fee", 100),
            ],
        ),
        p(
            "C19",
            "random v1 transactions signed whole or in part on every side of the replay hardforks, and each with one place changed; distinct by resulting hash",
            vec![m("v1_whole", 1, v1_whole as fn(&mut Ctx) -> Res), m("v1_partial", 2, v1_partial)],
            &[
                ("whole signature hashes", 2000),
                ("partial signature hashes", 3000),
                ("out-of-range refused", 300),
                ("covered changes", 2000),
                ("uncovered changes", 2000),
                ("content changes", 3000),
                ("signature changes", 300),
                ("orders compared", 1000),
                ("side 0", 200),
                ("side 1", 200),
                ("side 2", 200),
                ("side 3", 200),
            ],
        ),
        p(
            "C20",
            "random v2 transactions, contracts, renewals and attestations signed on every side of the replay hardforks, and each with one place changed; distinct by purpose and resulting hash",
            vec![m("v2_sigs", 3, v2_sigs as fn(&mut Ctx) -> Res), m("v2_shared", 1, v2_shared)],
            &[
                ("input hashes", 2000),
                ("contract hashes", 2000),
                ("renewal hashes", 2000),
                ("attestation hashes", 2000),
                ("content changes", 10_000),
                ("signature changes", 3000),
                ("blanked:contract", 300),
                ("blanked:renewal", 300),
                ("blanked:attestation", 300),
                ("replay sides compared", 10_000),
                ("side 0", 200),
                ("side 1", 200),
                ("side 2", 200),
                ("side 3", 200),
                ("shared contracts", 500),
            ],
        ),
        p(
            "C21",
            "every derivation from several parents, among them parents that differ in one bit, at small, large and power-of-two indices; distinct by resulting ID",
            vec![m("derived", 1, derived as fn(&mut Ctx) -> Res)],
            &[("derived IDs", 100_000), ("chained derivations", 1000)],
        ),
        p(
            "C22",
            "random, wide and deeply nested policies, each concealed at several densities and with one place changed; distinct by address",
            vec![m("policy", 1, policy as fn(&mut Ctx) -> Res)],
            &[
                ("policy addresses", 5000),
                ("concealed policies", 2000),
                ("concealed sub-policies", 10_000),
                ("content changes", 10_000),
                ("deep policies", 30),
                ("kind 4", 1000),
                ("kind 6", 100),
                ("changed:n", 300),
                ("changed:len", 300),
                ("changed:kind", 300),
            ],
        ),
        p(
            "C23",
            "unlock conditions with 0 to 300 keys of any algorithm and length, and each with one place changed; distinct by address",
            vec![m("unlock", 1, unlock as fn(&mut Ctx) -> Res)],
            &[
                ("addresses", 5000),
                ("changes", 10_000),
                ("many keys", 500),
                ("keys:0", 100),
                ("keys:1", 100),
                ("keys:2", 100),
                ("keys:5", 100),
                ("keys:6", 100),
                ("standard addresses", 300),
                ("changed:timelock", 100),
                ("changed:signatures_required", 100),
                ("changed:public_keys/len", 100),
                ("changed:public_keys/alg", 100),
                ("changed:public_keys/key", 100),
            ],
        ),
    ]
}
