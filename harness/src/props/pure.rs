//! C29: results depend only on the arguments, under any history and concurrency.
#![allow(deprecated)]
use super::hashes::chain;
use super::util::*;
use crate::eng::*;
use crate::io::*;
use crate::models::*;
use crate::{ensure, fail};
use model::blake::{blake2b256, concat256};
use model::refhash::{self as rh, Heights};
use model::rng::{fnv, Rng};
use model::val::*;
use sia::consensus::*;
use sia::rhp::sector_root;
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::v2::SpendPolicy;
use sia::types::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

/// one call of the code under test; its result as text, and what the specification says it is
struct Job {
    name: String,
    want: Option<String>,
    f: Box<dyn Fn() -> String + Send + Sync>,
}
struct Shared {
    e: &'static Entry,
    v: Val,
    d: Box<dyn Dyn>,
}

fn digest(kind: &str, b: &[u8]) -> String {
    format!("{kind} {} bytes {:016x}", b.len(), fnv(b))
}
fn res<T, E>(r: Result<T, E>, f: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(t) => f(&t),
        Err(_) => "error".into(),
    }
}
/// run one job; a panic is part of the result
fn run(j: &Job) -> String {
    match catch_unwind(AssertUnwindSafe(|| (j.f)())) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("MONITOR:") {
                std::panic::resume_unwind(e);
            }
            "panic".into()
        }
    }
}
fn h32(r: &mut Rng) -> [u8; 32] {
    r.fixed(32).try_into().unwrap()
}

struct Bomb;
impl std::io::Read for Bomb {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        panic!("reader gives up")
    }
}
impl std::io::Write for Bomb {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        panic!("writer gives up")
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// every computation over one value
fn value_jobs(s: &Arc<Shared>, r: &mut Rng, out: &mut Vec<Job>) {
    let e = s.e;
    let n = e.name;
    macro_rules! job {
        ($what:expr, $want:expr, $f:expr) => {
            out.push(Job { name: format!("{n} {}", $what), want: $want, f: Box::new($f) })
        };
    }
    for ver in [1u8, 2] {
        if !(if ver == 1 { e.v1 } else { e.v2 }) {
            continue;
        }
        let o = reference(e, &s.v, ver);
        let w = Arc::new(o.buf.clone());
        let t = s.clone();
        let want = digest("encoding", &w);
        job!(format!("encode v{ver}"), Some(want), move || {
            let mut b = vec![];
            let r = if ver == 1 { t.d.enc1(&mut b) } else { t.d.enc2(&mut b) };
            res(r, |_| digest("encoding", &b))
        });
        // an encoding that fails part way, and one that is abandoned by a panic
        if !w.is_empty() {
            let (t, at) = (s.clone(), r.below(w.len()));
            let kind = *r.pick(&[WFault::Once, WFault::Always, WFault::Full]);
            job!(format!("encode v{ver}, failing"), None, move || {
                let mut b = Wr::failing(at, kind);
                let r = if ver == 1 { t.d.enc1(&mut b) } else { t.d.enc2(&mut b) };
                format!("{} {}", r.is_ok(), digest("delivered", &b.buf[..b.before.min(b.buf.len())]))
            });
            if r.one_in(3) {
                let t = s.clone();
                job!(format!("encode v{ver}, abandoned"), Some("panic".into()), move || {
                    let r = if ver == 1 { t.d.enc1(&mut Bomb) } else { t.d.enc2(&mut Bomb) };
                    format!("{}", r.is_ok())
                });
            }
        }
        let dec = move |mut rd: Rd| {
            let r = if ver == 1 { (e.dec1)(&mut rd) } else { (e.dec2)(&mut rd) };
            let pos = rd.pos;
            res(r, |d| format!("{pos} {:?}", d.to_val()))
        };
        let b = w.clone();
        let want = format!("{} {:?}", w.len(), s.v);
        let want = digest("value", want.as_bytes());
        job!(format!("decode v{ver}"), Some(want), move || digest("value", dec(Rd::new(&b)).as_bytes()));
        let bad = Arc::new(mutate(&o, r));
        job!(format!("decode v{ver}, damaged"), None, move || {
            let s = dec(Rd::new(&bad));
            digest(if s == "error" { "error" } else { "value" }, s.as_bytes())
        });
        if !w.is_empty() {
            let (b, at) = (w.clone(), r.below(w.len()));
            job!(format!("decode v{ver}, cut"), Some("error".into()), move || dec(Rd::new(&b[..at])));
            let (b, seed) = (w.clone(), r.u64());
            let want = format!("{} {:?}", w.len(), s.v);
            job!(format!("decode v{ver}, slowly"), Some(digest("value", want.as_bytes())), move || {
                digest("value", dec(Rd::chunked(&b, Chunks::Random, Rng::new(seed, "slow", 0))).as_bytes())
            });
        }
        if r.one_in(4) {
            job!(format!("decode v{ver}, abandoned"), None, move || {
                let r = if ver == 1 { (e.dec1)(&mut Bomb) } else { (e.dec2)(&mut Bomb) };
                format!("{}", r.is_ok())
            });
        }
    }
    if e.json {
        let text = model::refjson::to_json(&e.ty, &s.v).to_string();
        let want: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        let t = s.clone();
        job!("to JSON", Some(digest("json", want.to_string().as_bytes())), move || res(t.d.json_value(), |j| digest(
            "json",
            j.to_string().as_bytes()
        )));
        let t = s.clone();
        job!("to JSON text", None, move || res(t.d.json_text(), |j| { digest("json", j.as_bytes()) }));
        let t = s.clone();
        job!("to CBOR", None, move || res(t.d.cbor(), |j| digest("cbor", j)));
        let x = text.clone();
        let parse = move |x: &str| res((e.parse_text)(x), |d| digest("value", format!("{:?}", d.to_val()).as_bytes()));
        // the depth limit of the JSON library is not the code under test
        let known = (e.parse_text)(&x).is_ok();
        let want = if known { Some(digest("value", format!("{:?}", s.v).as_bytes())) } else { None };
        job!("parse JSON", want, move || parse(&x));
        let mut b = text.into_bytes();
        for _ in 0..1 + r.below(3) {
            let i = r.below(b.len());
            b[i] = *r.pick(b"\"{}[],:0919afzE-.\\ ");
        }
        if let Ok(x) = String::from_utf8(b) {
            job!("parse damaged JSON", None, move || parse(&x));
        }
    }
    let t = s.clone();
    job!("debug", None, move || digest("debug", t.d.debug().as_bytes()));
    let t = s.clone();
    job!("derive", None, move || digest("derived", t.d.touch().as_bytes()));
    let t = s.clone();
    let o = (e.from_val)(&s.v);
    job!("compare", Some("true".into()), move || t.d.same(&*o).to_string());
    let t = s.clone();
    job!("read", Some(digest("value", format!("{:?}", s.v).as_bytes())), move || digest("value", format!("{:?}", t.d.to_val()).as_bytes()));
}

fn hex_of(b: &[u8]) -> String {
    hex::encode(b)
}
fn one_hash<T: AsRef<[u8]>>(t: T) -> String {
    hex::encode(t.as_ref())
}

/// hashing of transactions, contracts and policies for several chains
fn hash_jobs(r: &mut Rng, out: &mut Vec<Job>) {
    let h0 = Heights { tip: r.below(60) as u64, asic: 10, foundation: 20, v2: 30 };
    let tip = h0.tip;
    let mut hs = vec![h0];
    for t in [5u64, 10, 25, 30, 1_000_000] {
        hs.push(Heights { tip: t, asic: 10, foundation: 20, v2: 30 });
    }
    // the same tip on a network with other hardforks
    hs.push(Heights { tip, asic: 10 + r.below(30) as u64, foundation: 40 + r.below(10) as u64, v2: 50 + r.below(10) as u64 });
    let css: Vec<Arc<ChainState>> = hs.iter().map(|h| Arc::new(chain(h))).collect();
    let t1 = v1::Transaction::ty();
    let t2 = v2::Transaction::ty();
    let b = 20 + r.below(100) as isize;
    let va = Gen::new(b).gen(&t1, r);
    let mut p = vec![];
    paths(&t1, &va, "", &mut p);
    let path = r.pick(&p).clone();
    let mut vs = vec![va.clone()];
    vs.extend(modify(&t1, &va, &path, r));
    let cty = v1::CoveredFields::ty();
    for v in &vs {
        let t = Arc::new(v1::Transaction::from_val(v));
        let x = t.clone();
        out.push(Job { name: "v1 ID".into(), want: Some(hex_of(&rh::v1_id(&t1, v))), f: Box::new(move || one_hash(x.id())) });
        for (n, spec) in ["siacoin output", "siafund output", "file contract"].iter().enumerate() {
            let (x, i) = (t.clone(), r.below(5));
            out.push(Job {
                name: format!("v1 {spec} ID"),
                want: Some(hex_of(&rh::v1_child(&t1, v, spec, i as u64))),
                f: Box::new(move || match n {
                    0 => one_hash(x.siacoin_output_id(i)),
                    1 => one_hash(x.siafund_output_id(i)),
                    _ => one_hash(x.file_contract_id(i)),
                }),
            });
        }
        let parent = h32(r);
        let (k, l) = (r.n64(), r.n64());
        for (h, cs) in hs.iter().zip(&css) {
            let (x, cs2) = (t.clone(), cs.clone());
            out.push(Job {
                name: "v1 whole signature hash".into(),
                want: Some(hex_of(&rh::v1_whole(&t1, v, h, &parent, k, l))),
                f: Box::new(move || res(x.whole_sig_hash(&cs2, &Hash256::from(parent), k, l), |h| one_hash(*h))),
            });
            let mut cov = empty(&cty);
            let Ty::Struct(cd) = &cty else { panic!("MONITOR: covered fields") };
            let Ty::Struct(td) = &t1 else { panic!("MONITOR: transaction") };
            for f in ["siacoin_inputs", "siafund_inputs", "siacoin_outputs", "arbitrary_data", "signatures"] {
                let n = v.st()[td.idx(f)].list().len() + usize::from(r.one_in(20));
                cov.st_mut()[cd.idx(f)] = Val::List((0..n as u64).filter(|_| r.bool()).map(Val::U).collect());
            }
            let cf = v1::CoveredFields::from_val(&cov);
            let (x, cs2) = (t.clone(), cs.clone());
            out.push(Job {
                name: "v1 partial signature hash".into(),
                want: Some(rh::v1_partial(&t1, v, h, &cty, &cov).map(|h| hex_of(&h)).unwrap_or("error".into())),
                f: Box::new(move || res(x.partial_sig_hash(&cs2, &cf), |h| one_hash(*h))),
            });
        }
    }
    let va = Gen::new(b).gen(&t2, r);
    let mut p = vec![];
    paths(&t2, &va, "", &mut p);
    let path = r.pick(&p).clone();
    let mut vs = vec![va.clone()];
    vs.extend(modify(&t2, &va, &path, r));
    for v in &vs {
        let t = Arc::new(v2::Transaction::from_val(v));
        let x = t.clone();
        out.push(Job { name: "v2 ID".into(), want: Some(hex_of(&rh::v2_id(&t2, v))), f: Box::new(move || one_hash(x.id())) });
        for (h, cs) in hs.iter().zip(&css) {
            let (x, cs2) = (t.clone(), cs.clone());
            out.push(Job {
                name: "v2 input signature hash".into(),
                want: Some(hex_of(&rh::v2_input_sig(&t2, v, h))),
                f: Box::new(move || one_hash(x.input_sig_hash(&cs2))),
            });
        }
    }
    let (ct, rt, at) = (v2::FileContract::ty(), v2::FileContractRenewal::ty(), v2::Attestation::ty());
    let (cv, rv, av) = (Gen::new(40).gen(&ct, r), Gen::new(40).gen(&rt, r), Gen::new(40).gen(&at, r));
    let (c, n, a) = (
        Arc::new(v2::FileContract::from_val(&cv)),
        Arc::new(v2::FileContractRenewal::from_val(&rv)),
        Arc::new(v2::Attestation::from_val(&av)),
    );
    for (h, cs) in hs.iter().zip(&css) {
        let (x, cs2) = (c.clone(), cs.clone());
        out.push(Job {
            name: "contract signature hash".into(),
            want: Some(hex_of(&rh::contract_sig(&ct, &cv, h))),
            f: Box::new(move || one_hash(x.sig_hash(&cs2))),
        });
        let (x, cs2) = (n.clone(), cs.clone());
        out.push(Job {
            name: "renewal signature hash".into(),
            want: Some(hex_of(&rh::renewal_sig(&rt, &rv, h))),
            f: Box::new(move || one_hash(x.sig_hash(&cs2))),
        });
        let (x, cs2) = (a.clone(), cs.clone());
        out.push(Job {
            name: "attestation signature hash".into(),
            want: Some(hex_of(&rh::attestation_sig(&at, &av, h))),
            f: Box::new(move || one_hash(x.sig_hash(&cs2))),
        });
        let cs2 = cs.clone();
        out.push(Job {
            name: "chain parameters".into(),
            want: None,
            f: Box::new(move || {
                format!(
                    "{} {:?} {:?} {} {} {:?} {} {} {} {}",
                    cs2.child_height(),
                    *cs2.block_reward(),
                    cs2.foundation_subsidy(),
                    cs2.maturity_height(),
                    cs2.blocks_per_month(),
                    cs2.replay_prefix(),
                    cs2.nonce_factor(),
                    cs2.siafund_count(),
                    cs2.ancestor_depth(),
                    cs2.max_block_weight()
                )
            }),
        });
        let cs2 = cs.clone();
        out.push(Job {
            name: "replay prefix".into(),
            want: Some(hex_of(&rh::replay(h))),
            f: Box::new(move || hex_of(cs2.replay_prefix())),
        });
        let (x, cs2) = (c.clone(), cs.clone());
        out.push(Job { name: "v2 tax".into(), want: None, f: Box::new(move || format!("{}", *x.tax(&cs2))) });
    }
    // taxes of one contract on both sides of the tax hardfork
    let ft = v1::FileContract::ty();
    let fv = Gen::new(40).gen(&ft, r);
    let f = Arc::new(v1::FileContract::from_val(&fv));
    for h in [0, 20_999, 21_000, 300_000] {
        let (x, cs) = (f.clone(), mainnet_at(h));
        out.push(Job { name: format!("v1 tax at {h}"), want: None, f: Box::new(move || format!("{}", *x.tax(&cs))) });
    }
    // addresses
    for _ in 0..4 {
        let mut g = Gen::new(30);
        let v = g.policy(r, 4, &uc());
        let w = hex_of(&rh::policy_address(&v));
        let p = Arc::new(SpendPolicy::from_val(&v));
        out.push(Job { name: "policy address".into(), want: Some(w.clone()), f: Box::new(move || one_hash(p.address())) });
        let ut = v1::UnlockConditions::ty();
        let v = Gen::new(60).gen(&ut, r);
        let u = Arc::new(v1::UnlockConditions::from_val(&v));
        out.push(Job {
            name: "unlock address".into(),
            want: Some(hex_of(&rh::uc_address(&v))),
            f: Box::new(move || one_hash(u.address())),
        });
    }
    // derived identifiers of one and the same parent
    let p = h32(r);
    let i = r.below(300);
    let ib = (i as u64).to_le_bytes();
    let jobs: Vec<(&str, [u8; 32], Box<dyn Fn() -> String + Send + Sync>)> = vec![
        ("miner output", concat256(&[&p, &ib]), Box::new(move || one_hash(BlockID::from(p).miner_output_id(i)))),
        (
            "foundation output",
            concat256(&[&p, &rh::specifier("foundation")]),
            Box::new(move || one_hash(BlockID::from(p).foundation_output_id())),
        ),
        ("claim output", concat256(&[&p]), Box::new(move || one_hash(SiafundOutputID::from(p).claim_output_id()))),
        (
            "v2 claim output",
            rh::tagged("id/v2siacoinclaimoutput", &[&p]),
            Box::new(move || one_hash(SiafundOutputID::from(p).v2_claim_output_id())),
        ),
        (
            "v2 siacoin output",
            rh::tagged("id/siacoinoutput", &[&p, &ib]),
            Box::new(move || one_hash(TransactionID::from(p).v2_siacoin_output_id(i))),
        ),
        (
            "v2 contract",
            rh::tagged("id/filecontract", &[&p, &ib]),
            Box::new(move || one_hash(TransactionID::from(p).v2_file_contract_id(i))),
        ),
        ("v2 renewal", rh::tagged("id/v2filecontractrenewal", &[&p]), Box::new(move || one_hash(FileContractID::from(p).v2_renewal_id()))),
        (
            "valid output",
            concat256(&[&rh::specifier("storage proof"), &p, &[1], &ib]),
            Box::new(move || one_hash(FileContractID::from(p).valid_output_id(i))),
        ),
        (
            "missed output",
            concat256(&[&rh::specifier("storage proof"), &p, &[0], &ib]),
            Box::new(move || one_hash(FileContractID::from(p).missed_output_id(i))),
        ),
    ];
    for (n, w, f) in jobs {
        out.push(Job { name: format!("{n} ID"), want: Some(hex_of(&w)), f });
    }
}

fn key_jobs(r: &mut Rng, out: &mut Vec<Job>) {
    let ent: [u8; 16] = r.fixed(16).try_into().unwrap();
    let mut ent2 = ent;
    ent2[r.below(16)] ^= 1;
    for e in [ent, ent2] {
        let seed = Arc::new(Seed::new(e));
        let s = seed.clone();
        out.push(Job { name: "seed bytes".into(), want: Some(hex_of(&e)), f: Box::new(move || hex_of(s.as_bytes())) });
        let s = seed.clone();
        out.push(Job {
            name: "mnemonic round trip".into(),
            want: Some(hex_of(&e)),
            f: Box::new(move || res(Seed::from_mnemonic(&s.to_mnemonic()), |x| hex_of(x.as_bytes()))),
        });
        out.push(Job {
            name: "bad mnemonic".into(),
            want: Some("error".into()),
            f: Box::new(move || res(Seed::from_mnemonic("abandon abandon abandon"), |_| "seed".into())),
        });
        let i = r.below(3) as u64;
        for i in [i, i + 1, 1 << 32] {
            let s = seed.clone();
            let key: [u8; 32] = concat256(&[&blake2b256(&e), &i.to_le_bytes()]);
            out.push(Job {
                name: "derived key".into(),
                want: Some(hex_of(&key)),
                f: Box::new(move || hex_of(&s.private_key(i).as_bytes()[..32])),
            });
        }
    }
    let ks = h32(r);
    let k = Arc::new(PrivateKey::from_seed(&ks));
    let pk = model::ed::public(&ks);
    let (m1, m2) = (h32(r), h32(r));
    let (s1, s2) = (model::ed::sign(&ks, &pk, &m1), model::ed::sign(&ks, &pk, &m2));
    for (m, s) in [(m1, s1), (m2, s2)] {
        let x = k.clone();
        out.push(Job { name: "sign".into(), want: Some(hex_of(&s)), f: Box::new(move || hex_of(x.sign_hash(&Hash256::from(m)).data())) });
    }
    let bad = [2u8; 32];
    for (n, p, m, s, w) in [
        ("verify", pk, m1, s1, true),
        ("verify other", pk, m1, s2, m1 == m2),
        ("verify second", pk, m2, s2, true),
        ("verify bad key", bad, m1, s1, model::ed::verify(&bad, &m1, &s1)),
    ] {
        out.push(Job {
            name: n.into(),
            want: Some(w.to_string()),
            f: Box::new(move || PublicKey::new(p).verify(&Hash256::from(m), &Signature::new(s)).to_string()),
        });
    }
    let x = k.clone();
    out.push(Job { name: "public key".into(), want: Some(hex_of(&pk)), f: Box::new(move || one_hash(x.public_key())) });
}

fn text_jobs(r: &mut Rng, out: &mut Vec<Job>) {
    let n = r.n128();
    let m = r.n128().max(1);
    let opt = |x: Option<Currency>| x.map(|c| (*c).to_string()).unwrap_or("none".into());
    let txt = |x: Option<u128>| Some(x.map(|c| c.to_string()).unwrap_or("none".into()));
    let pan = |x: Option<u128>| Some(x.map(|c| c.to_string()).unwrap_or("panic".into()));
    let (a, b) = (Currency::new(n), Currency::new(m));
    out.push(Job { name: "checked add".into(), want: txt(n.checked_add(m)), f: Box::new(move || opt(a.checked_add(b))) });
    out.push(Job { name: "checked mul".into(), want: txt(n.checked_mul(m)), f: Box::new(move || opt(a.checked_mul(b))) });
    out.push(Job { name: "add".into(), want: pan(n.checked_add(m)), f: Box::new(move || (*(a + b)).to_string()) });
    out.push(Job { name: "sub".into(), want: pan(n.checked_sub(m)), f: Box::new(move || (*(a - b)).to_string()) });
    out.push(Job { name: "mul".into(), want: pan(n.checked_mul(m)), f: Box::new(move || (*(a * b)).to_string()) });
    out.push(Job { name: "div".into(), want: pan(n.checked_div(m)), f: Box::new(move || (*(a / b)).to_string()) });
    let s = n.to_string();
    out.push(Job {
        name: "parse currency".into(),
        want: Some(s.clone()),
        f: Box::new(move || res(Currency::parse_string(&s), |c| (**c).to_string())),
    });
    for s in ["1.5 SC", "1..5 SC", "SC", "340282366920938463463374607431768211456", "1.0000000000000000000000001 SC", "7 mS"] {
        let w = match s {
            "1.5 SC" => (1_500_000_000_000_000_000_000_000u128).to_string(),
            "7 mS" => (7_000_000_000_000_000_000_000u128).to_string(),
            _ => "error".into(),
        };
        out.push(Job {
            name: format!("parse {s}"),
            want: Some(w),
            f: Box::new(move || res(Currency::parse_string(s), |c| (**c).to_string())),
        });
    }
    let h = h32(r);
    let good = model::refjson::address(&h);
    let mut bad = good.clone().into_bytes();
    let i = r.below(bad.len());
    bad[i] = if bad[i] == b'0' { b'1' } else { b'0' };
    let bad = String::from_utf8(bad).unwrap();
    let (g, g2) = (good.clone(), Address::new(h));
    out.push(Job {
        name: "parse address".into(),
        want: Some(hex_of(&h)),
        f: Box::new(move || res(Address::parse_string(&g), |a| one_hash(a.clone()))),
    });
    out.push(Job {
        name: "parse bad address".into(),
        want: Some("error".into()),
        f: Box::new(move || res(Address::parse_string(&bad), |a| one_hash(a.clone()))),
    });
    out.push(Job { name: "print address".into(), want: Some(good), f: Box::new(move || g2.to_string()) });
}

type Call = Box<dyn Fn() -> String + Send + Sync>;
/// calls for the leak monitor of C30
pub fn jobs_for_leaks(r: &mut Rng) -> Vec<(String, Call)> {
    let mut jobs = vec![];
    match r.below(6) {
        0 => hash_jobs(r, &mut jobs),
        4 | 5 => return super::json::parse_calls(r),
        1 => {
            key_jobs(r, &mut jobs);
            text_jobs(r, &mut jobs);
        }
        _ => {
            let e = pick_entry(r, |e| e.v1 || e.v2);
            let b = 10 + r.below(60) as isize;
            let v = gen_both(e, r, b);
            value_jobs(&Arc::new(Shared { e, d: (e.from_val)(&v), v }), r, &mut jobs);
        }
    }
    jobs.into_iter().map(|j| (j.name, j.f)).collect()
}
pub fn shared_value(e: &'static Entry, v: Val, r: &mut Rng) -> Vec<Call> {
    let mut jobs = vec![];
    value_jobs(&Arc::new(Shared { e, d: (e.from_val)(&v), v }), r, &mut jobs);
    jobs.into_iter().map(|j| j.f).collect()
}
/// run a call whose panic is of no interest
pub fn run_job(f: &Call) -> String {
    caught(|| f()).unwrap_or_default()
}

fn compare(j: &Job, got: &str, want: &str, how: &str) -> Res {
    let key = j.name.split(|c: char| c == ',' || c.is_ascii_digit()).next().unwrap_or("").trim().replace(' ', "_");
    ensure!(got == want, format!("{how}:{key}"), "{}: result {got} {how} instead of {want}", j.name);
    Ok(())
}

/// a value in normal form that differs in one place only (a chain state of another height has other timestamps)
fn twin(e: &'static Entry, v: &Val, r: &mut Rng) -> Option<Val> {
    let mut p = vec![];
    paths(&e.ty, v, "", &mut p);
    if p.is_empty() {
        return None;
    }
    let path = r.pick(&p).clone();
    let w = modify(&e.ty, v, &path, r)?;
    let encodable = [1u8, 2].iter().all(|k| {
        let has = if *k == 1 { e.v1 } else { e.v2 };
        let mut b = vec![];
        let d = (e.from_val)(&w);
        !has || caught(|| {
            if *k == 1 {
                d.enc1(&mut b).is_ok() && (e.dec1)(&mut &b[..]).is_ok_and(|x| x.to_val() == w)
            } else {
                d.enc2(&mut b).is_ok() && (e.dec2)(&mut &b[..]).is_ok_and(|x| x.to_val() == w)
            }
        })
        .unwrap_or(false)
    });
    let back = e.json
        && caught(|| (e.from_val)(&w).json_text().is_ok_and(|t| (e.parse_text)(&t).is_ok_and(|d| d.to_val() == w))).unwrap_or(false);
    (encodable && (back || !e.json)).then_some(w)
}

fn everything(e: &Entry, d: &dyn Dyn, which: usize) -> String {
    let txt = |r: Result<Result<String, String>, Panicked>| match r {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => "error".into(),
        Err(_) => "panic".into(),
    };
    match which {
        1 | 2 => txt(caught(|| {
            let mut b = vec![];
            let r = if which == 1 { d.enc1(&mut b) } else { d.enc2(&mut b) };
            r.map(|_| hex::encode(&b)).map_err(|e| e.to_string())
        })),
        3 => txt(caught(|| d.json_text())),
        4 => txt(caught(|| Ok(d.debug()))),
        5 => txt(caught(|| Ok(d.touch()))),
        6 => txt(caught(|| d.cbor().map(|b| hex::encode(&b)))),
        7 => txt(caught(|| d.json_value().map(|j| j.to_string()))),
        _ => {
            let Some(W2(cs)) = d.any().downcast_ref::<W2<ChainState>>() else { return String::new() };
            let t = v2::Transaction::from_val(&empty(&v2::Transaction::ty()));
            let u = v1::Transaction::from_val(&empty(&v1::Transaction::ty()));
            let f = v1::FileContract::from_val(&empty(&v1::FileContract::ty()));
            let h = Hash256::from([7; 32]);
            let parts: Vec<String> = vec![
                txt(caught(|| Ok(format!("{:?}", cs.foundation_subsidy())))),
                txt(caught(|| Ok(format!("{} {} {:?}", cs.child_height(), *cs.block_reward(), cs.replay_prefix())))),
                txt(caught(|| Ok(format!("{} {}", cs.maturity_height(), cs.nonce_factor())))),
                txt(caught(|| Ok(format!("{}", cs.blocks_per_month())))),
                txt(caught(|| Ok(format!("{} {:?}", t.input_sig_hash(cs), u.whole_sig_hash(cs, &h, 1, 2).ok())))),
                txt(caught(|| Ok(format!("{:?}", f.tax(cs))))),
            ];
            let _ = e;
            parts.join(" ")
        }
    }
}

/// one value at one address that changes in place, between and after calls on it: each result is that of
/// a value built afresh
fn in_place(c: &mut Ctx) -> Res {
    let e = if c.r.bool() {
        // the types with computations of their own
        let n = *c.r.pick(&["v1::Transaction", "v2::Transaction", "ChainState", "v2::FileContract", "v2::FileContractRenewal", "v2::Attestation", "v2::SpendPolicy", "v1::UnlockConditions", "v1::FileContract", "Block"]);
        pick_entry(&mut c.r, |e| e.name == n)
    } else {
        pick_entry(&mut c.r, |e| (e.v1 || e.v2 || e.json) && matches!(e.ty, Ty::Struct(_) | Ty::Policy | Ty::List(_) | Ty::Opt(_)))
    };
    let b = 15 + c.r.below(60) as isize;
    let v = gen_both(e, &mut c.r, b);
    let mut d = (e.from_val)(&v);
    let mut cur = v.clone();
    let mut ops: Vec<usize> = vec![4, 5, 8];
    if e.v1 {
        ops.push(1);
    }
    if e.v2 {
        ops.push(2);
    }
    if e.json {
        ops.extend([3, 6, 7]);
    }
    for step in 0..10 {
        let next = match c.r.below(4) {
            0 => Some(v.clone()),
            1 => {
                let n = 10 + c.r.below(60) as isize;
                Some(gen_both(e, &mut c.r, n))
            }
            _ => twin(e, &cur, &mut c.r),
        };
        let Some(next) = next else { continue };
        // the operations of the last value happen right before the change, and again right after it
        d.put(&next);
        let fresh = (e.from_val)(&next);
        for i in (1..ops.len()).rev() {
            ops.swap(i, c.r.below(i + 1));
        }
        let first_fresh = c.r.bool();
        for &k in &ops {
            let (got, want) = if first_fresh {
                let w = everything(e, &*fresh, k);
                (everything(e, &*d, k), w)
            } else {
                let g = everything(e, &*d, k);
                (g, everything(e, &*fresh, k))
            };
            let names = ["", "encode_v1", "encode", "json", "debug", "derive", "cbor", "json_value", "chain"];
            ensure!(got == want, format!("in-place:{}", names[k]), "{}: after {step} changes in place, {} gives {} instead of {}: now {}", e.name, names[k], short_text(&got), short_text(&want), vdiff(&cur, &next));
            if k == 1 || k == 2 {
                let o = reference(e, &next, k as u8);
                ensure!(got == hex::encode(&o.buf), "in-place:encoding", "{}: after {step} changes in place, it encodes to {} instead of {}", e.name, short_text(&got), hx(&o.buf));
            }
            c.obs("calls on values changed in place", 1);
        }
        ensure!(d.same(&*fresh) && d.to_val() == next, "in-place:equal", "{}: after {step} changes in place, it differs from a value built afresh: {}", e.name, vdiff(&d.to_val(), &next));
        c.seen(e.name, format!("{next:?}").as_bytes());
        cur = next;
    }
    Ok(())
}
fn short_text(s: &str) -> String {
    s.chars().take(300).collect()
}

fn history(c: &mut Ctx) -> Res {
    let mut jobs: Vec<Job> = vec![];
    let mut shared: Vec<Arc<Shared>> = vec![];
    for _ in 0..3 {
        let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
        let b = 15 + c.r.below(80) as isize;
        let v = gen_both(e, &mut c.r, b);
        let mut p = vec![];
        paths(&e.ty, &v, "", &mut p);
        let mut vs = vec![v.clone()];
        // a value that differs in one place only
        vs.extend(twin(e, &v, &mut c.r));
        for v in vs {
            let s = Arc::new(Shared { e, d: (e.from_val)(&v), v });
            value_jobs(&s, &mut c.r, &mut jobs);
            shared.push(s);
        }
    }
    match c.r.below(3) {
        0 => {
            hash_jobs(&mut c.r, &mut jobs);
        }
        1 => {
            key_jobs(&mut c.r, &mut jobs);
            text_jobs(&mut c.r, &mut jobs);
        }
        _ => text_jobs(&mut c.r, &mut jobs),
    }
    let sectors = c.r.one_in(60);
    for _ in 0..if sectors { 2 + c.r.below(3) } else { 0 } {
        let mut data = vec![c.r.u64() as u8; 1 << 22];
        let at = c.r.below(1 << 22);
        data[at] ^= 1;
        let data = Arc::new(data);
        let d = data.clone();
        jobs.push(Job { name: "sector root".into(), want: None, f: Box::new(move || one_hash(sector_root(&d))) });
        jobs.push(Job {
            name: "sector root, short".into(),
            want: Some("panic".into()),
            f: Box::new(move || one_hash(sector_root(&data[1..]))),
        });
        c.obs("sector roots", 1);
    }
    // first results, in order
    let mut base: Vec<String> = vec![];
    for j in &jobs {
        let got = run(j);
        if let Some(w) = &j.want {
            compare(j, &got, w, "at first")?;
        }
        base.push(got);
    }
    c.obs("calls", jobs.len() as u64);
    c.obs("calls with a known result", jobs.iter().filter(|j| j.want.is_some()).count() as u64);
    c.obs("panicking calls", base.iter().filter(|b| *b == "panic").count() as u64);
    c.obs("failing calls", base.iter().filter(|b| b.starts_with("error")).count() as u64);
    // any history
    let n = jobs.len();
    for _ in 0..2 {
        let len = n + c.r.below(n);
        let mut last = 0;
        for _ in 0..len {
            let i = if c.r.one_in(5) { last } else { c.r.below(n) };
            compare(&jobs[i], &run(&jobs[i]), &base[i], "in another history")?;
            c.obs("pairs of consecutive calls", 1);
            if i != last {
                c.seen("order", format!("{} after {}", jobs[i].name, jobs[last].name).as_bytes());
            }
            last = i;
        }
    }
    // simultaneously, over the same values
    let threads = 2 + c.r.below(5);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|t| {
            let mut o: Vec<usize> = (0..n).collect();
            match t % 3 {
                // in lockstep, in another order, or the same few over and over
                0 => {}
                1 => {
                    for i in (1..n).rev() {
                        let k = c.r.below(i + 1);
                        o.swap(i, k);
                    }
                }
                _ => {
                    let k = 1 + c.r.below(8.min(n));
                    let at = c.r.below(n - k + 1);
                    o = (0..n).map(|i| at + i % k).collect();
                }
            }
            o
        })
        .collect();
    let bar = Barrier::new(threads);
    let bad: Vec<Result<(), (usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (jobs, base, bar) = (&jobs, &base, &bar);
                s.spawn(move || {
                    bar.wait();
                    let mut out = Ok(());
                    for &i in o {
                        let g = run(&jobs[i]);
                        if g != base[i] && out.is_ok() {
                            out = Err((i, g));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("MONITOR: thread")).collect()
    });
    for b in bad {
        if let Err((i, g)) = b {
            compare(&jobs[i], &g, &base[i], "on several threads")?;
        }
    }
    c.obs("simultaneous calls", (threads * n) as u64);
    // as tasks of one thread pool, where a thread that waits for one call's tasks may start another call
    if sectors || c.r.one_in(20) {
        use rayon::prelude::*;
        let pool = match rayon::ThreadPoolBuilder::new().num_threads(2 + c.r.below(4)).build() {
            Ok(p) => p,
            Err(e) => panic!("MONITOR: thread pool: {e}"),
        };
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, c.r.below(i + 1));
        }
        let rounds = if sectors { 3 } else { 1 };
        for _ in 0..rounds {
            let got: Vec<(usize, String)> = pool.install(|| order.par_iter().with_max_len(1).map(|&i| (i, run(&jobs[i]))).collect());
            for (i, g) in got {
                compare(&jobs[i], &g, &base[i], "among the tasks of a thread pool")?;
            }
        }
        c.obs("pooled calls", (rounds * n) as u64);
    }
    // and once more alone, afterwards
    for (j, b) in jobs.iter().zip(&base) {
        compare(j, &run(j), b, "afterwards")?;
    }
    for s in &shared {
        let now = s.d.to_val();
        if now != s.v {
            fail!("modified", "a {} was modified by being read: {}", s.e.name, vdiff(&now, &s.v));
        }
    }
    c.obs("values unchanged", shared.len() as u64);
    c.sample(|| format!("{n} calls over {:?} on {threads} threads", shared.iter().map(|s| s.e.name).collect::<Vec<_>>()));
    Ok(())
}

/// process-wide state: results of one worker's calls are those of a fresh process, because each
/// first result is compared with the specification; this one repeats a single call very often
fn repeat(c: &mut Ctx) -> Res {
    let mut jobs = vec![];
    match c.r.below(4) {
        0 => hash_jobs(&mut c.r, &mut jobs),
        1 => key_jobs(&mut c.r, &mut jobs),
        2 => text_jobs(&mut c.r, &mut jobs),
        _ => {
            let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
            let v = gen_both(e, &mut c.r, 20);
            value_jobs(&Arc::new(Shared { e, d: (e.from_val)(&v), v }), &mut c.r, &mut jobs);
        }
    }
    let j = c.r.pick(&jobs);
    let first = run(j);
    if let Some(w) = &j.want {
        compare(j, &first, w, "at first")?;
    }
    let n = if c.thorough { 3000 } else { 300 };
    for _ in 0..n {
        compare(j, &run(j), &first, "when repeated")?;
    }
    c.obs("repetitions", n);
    c.seen("repeated", j.name.as_bytes());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "a few values, each with a twin differing in one place, and all calls over them (encoding, decoding, hashing, signing, parsing, with failing and panicking ones between), run in order, in random histories simultaneously on 2 to 6 threads, and as tasks of one thread pool; values changed in place between calls; distinct by ordered pair of consecutive calls",
        monitors: vec![
            Monitor { name: "history", weight: 3, f: history as fn(&mut Ctx) -> Res },
            Monitor { name: "repeat", weight: 1, f: repeat },
            Monitor { name: "in_place", weight: 2, f: in_place },
        ],
        quick_ms: 20_000,
        thorough_ms: 150_000,
        must: &[
            ("calls", 10_000),
            ("calls with a known result", 5000),
            ("panicking calls", 200),
            ("failing calls", 500),
            ("pairs of consecutive calls", 20_000),
            ("simultaneous calls", 40_000),
            ("pooled calls", 2000),
            ("values unchanged", 300),
            ("repetitions", 5000),
            ("calls on values changed in place", 5000),
        ],
        assumptions: &["the harness's own model is the reference of the first result; interleavings are those the operating system's scheduler produced"],
    }]
}
