//! Shared helpers of the monitors.
use crate::eng::*;
use crate::models::*;
use model::refenc::{Out, Sp};
use model::rng::Rng;
use model::val::*;
use std::sync::OnceLock;

pub fn reg() -> &'static [Entry] {
    static R: OnceLock<Vec<Entry>> = OnceLock::new();
    R.get_or_init(registry)
}
pub fn entry(name: &str) -> &'static Entry {
    reg().iter().find(|e| e.name == name).unwrap_or_else(|| panic!("no entry {name}"))
}

const BIG: &[&str] = &[
    "v2::Transaction",
    "v1::Transaction",
    "Block",
    "State",
    "v2::SpendPolicy",
    "v2::SatisfiedPolicy",
    "v2::FileContractResolution",
    "v2::SiacoinInput",
    "v2::SiafundInput",
    "v1::FileContract",
    "v1::TransactionSignature",
    "v1::UnlockConditions",
    "v2::Attestation",
    "v2::FileContractRevision",
    "ElementAccumulator",
    "Option<Vec<SiacoinOutput>>",
    "ChainState",
    "Network",
    "v2::Transaction",
    "v1::Transaction",
];

pub fn pick_entry(r: &mut Rng, ok: impl Fn(&Entry) -> bool) -> &'static Entry {
    for _ in 0..10_000 {
        let e = if r.bool() {
            entry(r.pick(BIG))
        } else {
            r.pick(reg())
        };
        if ok(e) {
            return e;
        }
    }
    panic!("MONITOR: no entry");
}

pub fn budget(r: &mut Rng) -> isize {
    match r.below(40) {
        0..=9 => 5 + r.below(20) as isize,
        10..=35 => 20 + r.below(130) as isize,
        36..=38 => 400,
        _ => 3000,
    }
}

pub fn gen(e: &Entry, r: &mut Rng) -> Val {
    let b = budget(r);
    let mut v = Gen::new(b).gen(&e.ty, r);
    rarely_long(e, &mut v, r, false);
    v
}
/// once in a while, a value with a very long list
fn rarely_long(e: &Entry, v: &mut Val, r: &mut Rng, json: bool) {
    if r.one_in(10_000) {
        let n = *r.pick(&[16_384usize, 32_768, 65_535, 65_536, 65_537, 100_000, 131_073]);
        inflate(&e.ty, v, r, n, 5000, json);
    }
}
/// a value with one list of any length a machine can hold
pub fn gen_huge(e: &Entry, r: &mut Rng) -> Option<Val> {
    let b = 5 + r.below(40) as isize;
    let mut v = Gen::new(b).gen(&e.ty, r);
    let n = match r.below(16) {
        0..=4 => 65_535 + r.below(3),
        5..=7 => 65_536 + r.below(70_000),
        8 | 9 => (1 << 17) - 1 + r.below(3),
        10 => 300_000 + r.below(100_000),
        11 | 12 => (1 << 20) - 1 + r.below(3),
        13 => 1_000_000 + r.below(1_000_000),
        14 => (1 << 21) + r.below(2),
        _ => (1 << 22) + 1 + r.below(20_000),
    };
    inflate(&e.ty, &mut v, r, n, 70_000, false).then_some(v)
}
pub fn gen_json(e: &Entry, r: &mut Rng) -> Val {
    let b = budget(r);
    let mut v = Gen::json(b).gen(&e.ty, r);
    rarely_long(e, &mut v, r, true);
    v
}
/// value with both binary and JSON form (no sub-second times)
pub fn gen_both(e: &Entry, r: &mut Rng, budget: isize) -> Val {
    let mut g = Gen::json(budget);
    g.nanos = false;
    g.gen(&e.ty, r)
}

/// which codec: 1 or 2
pub fn has(e: &Entry, ver: u8) -> bool {
    if ver == 1 {
        e.v1
    } else {
        e.v2
    }
}
pub fn enc(d: &dyn Dyn, ver: u8, w: &mut dyn std::io::Write) -> EResult<()> {
    if ver == 1 {
        d.enc1(w)
    } else {
        d.enc2(w)
    }
}
pub fn enc_vec(d: &dyn Dyn, ver: u8) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    enc(d, ver, &mut v).map_err(|e| e.to_string())?;
    Ok(v)
}
pub fn dec(e: &Entry, ver: u8, r: &mut dyn std::io::Read) -> EResult<Box<dyn Dyn>> {
    if ver == 1 {
        (e.dec1)(r)
    } else {
        (e.dec2)(r)
    }
}
pub fn reference(e: &Entry, v: &Val, ver: u8) -> Out {
    let mut o = Out::default();
    if ver == 1 {
        model::refenc::enc1(&e.ty, v, &mut o);
    } else {
        model::refenc::enc2(&e.ty, v, &mut o);
    }
    o
}

pub fn hx(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex::encode(b)
    } else {
        format!("{}… ({} bytes)", hex::encode(&b[..160]), b.len())
    }
}
pub fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() <= 500 {
        s
    } else {
        let mut k = 500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    }
}

/// describe the first difference of two byte strings, in terms of the reference's spans
pub fn diff(got: &[u8], want: &Out) -> String {
    let i = got.iter().zip(&want.buf).position(|(a, b)| a != b).unwrap_or(got.len().min(want.buf.len()));
    let sp = want.spans.iter().find(|s| s.off <= i && i < s.off + s.len.max(1));
    let lo = i.saturating_sub(8);
    format!(
        "first difference at byte {i} ({:?}), lengths {} / {}: got …{}…, expected …{}…",
        sp.map(|s| (s.kind, s.off, s.len)),
        got.len(),
        want.buf.len(),
        hx(&got[lo.min(got.len())..(i + 24).min(got.len())]),
        hx(&want.buf[lo.min(want.buf.len())..(i + 24).min(want.buf.len())])
    )
}

/// first differing place of two value trees
pub fn vdiff(a: &Val, b: &Val) -> String {
    fn go(a: &Val, b: &Val, p: &mut String) -> bool {
        if a == b {
            return false;
        }
        match (a, b) {
            (Val::St(x), Val::St(y)) | (Val::List(x), Val::List(y)) if x.len() == y.len() => {
                for (i, (u, v)) in x.iter().zip(y).enumerate() {
                    if u != v {
                        p.push_str(&format!("/{i}"));
                        return go(u, v, p);
                    }
                }
                true
            }
            (Val::Opt(Some(x)), Val::Opt(Some(y))) => go(x, y, p),
            (Val::En(i, x), Val::En(j, y)) if i == j => {
                p.push_str(&format!("/<{i}>"));
                go(x, y, p)
            }
            _ => {
                p.push_str(&format!(": {} vs {}", short(a), short(b)));
                true
            }
        }
    }
    let mut p = String::new();
    go(a, b, &mut p);
    p
}

pub fn interesting_len(r: &mut Rng, cur: u64, avail: u64) -> u64 {
    match r.below(14) {
        0 => u64::MAX,
        1 => u64::MAX - r.below(100) as u64,
        2 => 1 << r.below(64),
        3 => cur.wrapping_add(1),
        4 => cur.wrapping_sub(1),
        5 => avail,
        6 => avail.wrapping_add(r.below(3) as u64).wrapping_sub(1),
        7 => avail / (1 + r.below(64) as u64),
        8 => (isize::MAX as u64) / (1 + r.below(300) as u64),
        9 => (1 << 32) + r.below(10) as u64,
        10 => 1 << (16 + r.below(12)),
        11 => r.below(40) as u64,
        12 => u64::MAX / (1 + r.below(300) as u64),
        _ => r.n64(),
    }
}

/// mutate an annotated encoding; returns the bytes and whether anything structural was hit
pub fn mutate(o: &Out, r: &mut Rng) -> Vec<u8> {
    let mut b = o.buf.clone();
    let n = 1 + r.below(3);
    for _ in 0..n {
        let k = r.below(12);
        match k {
            0..=6 if !o.spans.is_empty() => {
                let s = r.pick(&o.spans);
                // prefer structural spans
                let s = if matches!(s.kind, Sp::Fixed | Sp::Data | Sp::U64) { r.pick(&o.spans) } else { s };
                if s.off + s.len > b.len() {
                    continue;
                }
                let avail = (b.len() - s.off) as u64;
                match s.kind {
                    Sp::Len | Sp::Cur1 | Sp::SfValue => {
                        let cur = u64::from_le_bytes(b[s.off..s.off + 8].try_into().unwrap());
                        let x = interesting_len(r, cur, avail);
                        b[s.off..s.off + 8].copy_from_slice(&x.to_le_bytes());
                    }
                    Sp::U64 | Sp::Cur2 | Sp::Time | Sp::Dur | Sp::Leaves | Sp::Height | Sp::Bitmap | Sp::Narrow(..) | Sp::Claim if s.len == 8 => {
                        let x = match r.below(4) {
                            0 => r.u64(),
                            1 => (TIME_MAX as u64).wrapping_add(r.below(4) as u64).wrapping_sub(2),
                            _ => r.n64(),
                        };
                        b[s.off..s.off + 8].copy_from_slice(&x.to_le_bytes());
                    }
                    Sp::Bool | Sp::Tag | Sp::Version | Sp::Op | Sp::Count8 => {
                        b[s.off] = match r.below(4) {
                            0 => r.below(10) as u8,
                            1 => 255 - r.below(4) as u8,
                            2 => b[s.off].wrapping_add(1),
                            _ => r.u64() as u8,
                        };
                    }
                    _ => {
                        if s.len > 0 {
                            let i = s.off + r.below(s.len);
                            b[i] = r.u64() as u8;
                        }
                    }
                }
            }
            7 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            8 if !b.is_empty() => {
                let i = r.below(b.len());
                b.truncate(i);
            }
            9 => {
                let i = r.below(b.len() + 1);
                let n = r.below(40);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            10 if b.len() > 2 => {
                // duplicate or remove a slice
                let i = r.below(b.len());
                let j = i + r.below((b.len() - i).min(200)) + 1;
                if r.bool() {
                    let x = b[i..j].to_vec();
                    b.splice(i..i, x);
                } else {
                    b.drain(i..j);
                }
            }
            11 => {
                let n = r.below(64);
                let x = r.bytes(n);
                b.extend(x);
            }
            _ => {}
        }
    }
    b
}

/// operations that must be safe on anything a decoder or parser returned
pub fn exercise(d: &dyn Dyn, e: &Entry) -> Result<(), Panicked> {
    caught(|| {
        let _ = d.debug().len();
        let _ = d.same(d);
        let _ = d.touch();
        let mut sink = std::io::sink();
        if e.v2 {
            let _ = d.enc2(&mut sink);
        }
        if e.v1 {
            let _ = d.enc1(&mut sink);
        }
    })
}
