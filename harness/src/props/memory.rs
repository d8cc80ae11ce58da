//! C30: memory safety. These monitors run in the ordinary build and, together with those of the
//! other properties, in builds with AddressSanitizer, ThreadSanitizer and MemorySanitizer and in
//! the Miri interpreter (see tools/sanitize.py), whose reports decide.
#![allow(deprecated)]
use super::pure::{jobs_for_leaks, run_job, shared_value};
use super::util::*;
use crate::eng::*;
use crate::io::*;
use crate::models::*;
use crate::{ensure, fail};
use model::rng::Rng;
use model::val::*;
use sia::consensus::*;
use sia::encoding::*;
use sia::rhp::sector_root;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::*;
use std::io::Read;

/// claims to have read without writing anything, more than asked for, or nothing at all
struct Liar<'a> {
    data: &'a [u8],
    pos: usize,
    /// from this position on it lies
    at: usize,
    how: u8,
    n: usize,
}
impl Read for Liar<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n > 100_000 {
            panic!("VIOLATION: keeps reading without end");
        }
        if self.pos < self.at {
            let n = buf.len().min(self.at - self.pos).min(self.data.len() - self.pos);
            if n > 0 {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                return Ok(n);
            }
        }
        match self.how {
            0 => Ok(buf.len()),
            1 => Ok(buf.len() / 2),
            2 => Ok(buf.len() + 1),
            3 => Ok(usize::MAX),
            _ => Err(std::io::ErrorKind::UnexpectedEof.into()),
        }
    }
}

/// leave recognizable garbage in freed heap blocks of many sizes and on the stack
#[inline(never)]
fn litter(b: u8) -> u64 {
    let mut keep = vec![];
    for n in [8usize, 16, 24, 32, 33, 40, 48, 64, 80, 96, 100, 128, 200, 256, 300, 512, 1000, 1024, 2048, 4096] {
        for _ in 0..3 {
            keep.push(vec![b; n]);
        }
    }
    let mut a = [b; 8192];
    std::hint::black_box(&mut a);
    keep.iter().map(|v| v[v.len() - 1] as u64).sum::<u64>() + a[17] as u64
}

fn result_of(e: &Entry, ver: u8, rd: &mut dyn Read) -> String {
    match caught(|| if ver == 1 { (e.dec1)(rd) } else { (e.dec2)(rd) }.map(|d| format!("{:?} {:?} {}", d.debug(), d.to_val(), d.touch()))) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => "error".into(),
        Err(p) if p.msg.starts_with("VIOLATION:") => format!("loop: {}", p.msg),
        Err(_) => "panic".into(),
    }
}

/// what a decoder returns never depends on what happened to be in memory
fn liars(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let b = 10 + c.r.below(60) as isize;
    let v = Gen::new(b).gen(&e.ty, &mut c.r);
    for ver in [1u8, 2] {
        if !(if ver == 1 { e.v1 } else { e.v2 }) {
            continue;
        }
        let o = reference(e, &v, ver);
        for _ in 0..6 {
            let at = if !o.spans.is_empty() && c.r.bool() {
                let s = c.r.pick(&o.spans);
                s.off + if c.r.bool() { s.len } else { 0 }
            } else {
                c.r.below(o.buf.len() + 1)
            };
            // a length claimed just before the lie starts decides how much is filled with nothing
            let mut data = o.buf.clone();
            if at >= 8 && at <= data.len() && c.r.one_in(3) {
                let n = (c.r.below(300) as u64).to_le_bytes();
                data[at - 8..at].copy_from_slice(&n);
            }
            let how = c.r.below(5) as u8;
            let mut got = vec![];
            for fill in [0xaau8, 0x55, 0x00] {
                std::hint::black_box(litter(fill));
                let mut l = Liar { data: &data, pos: 0, at, how, n: 0 };
                got.push(result_of(e, ver, &mut l));
            }
            // a decoder that loops on a reader without end is not this property's business: the
            // elements of a list may well take no end of data
            ensure!(
                got[0] == got[1] && got[1] == got[2],
                format!("stale:{}", e.name),
                "decoding {} v{ver} from a reader that lies from byte {at} on ({how}) depends on the content of memory: {} / {} / {}",
                e.name,
                short(&got[0]),
                short(&got[1]),
                short(&got[2])
            );
            c.obs("lying readers", 1);
            c.obs(&format!("lie {how}: {}", if got[0] == "error" || got[0] == "panic" { got[0].as_str() } else { "value" }), 1);
            c.seen("liar", format!("{} {ver} {at} {how}", e.name).as_bytes());
        }
    }
    Ok(())
}

fn utf8(what: &str, s: &str) -> Res {
    // the bytes are checked as bytes: a str that is not UTF-8 is itself the violation
    let b: Vec<u8> = std::hint::black_box(s.as_bytes().to_vec());
    ensure!(std::str::from_utf8(&b).is_ok(), "utf8", "{what} produced a string that is not UTF-8: {}", hx(&b));
    Ok(())
}
fn boolean(what: &str, b: &bool) -> Res {
    // read the byte without going through bool
    let x = unsafe { std::ptr::read_volatile(b as *const bool as *const u8) };
    ensure!(x <= 1, "bool", "{what} produced a bool holding {x}");
    Ok(())
}

/// bytes that are not UTF-8 in many ways
fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let mut b = {
        let n = r.below(20);
        r.string(n).into_bytes()
    };
    let bits: &[&[u8]] = &[
        &[0x80],
        &[0xff],
        &[0xc0, 0x80],
        &[0xed, 0xa0, 0x80],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xe2, 0x82],
        &[0xf0, 0x9f, 0x98],
        &[0xc3],
        &[0xf8, 0x88, 0x80, 0x80, 0x80],
        &[0xfe, 0xff],
    ];
    for _ in 0..1 + r.below(2) {
        let mut at = r.below(b.len() + 1);
        while at > 0 && at < b.len() && b[at] & 0xc0 == 0x80 {
            at -= 1;
        }
        let x = r.pick(bits);
        b.splice(at..at, x.iter().copied());
    }
    b
}

/// everything that yields strings and booleans yields valid ones
fn values(c: &mut Ctx) -> Res {
    let raw = if c.r.one_in(5) { c.r.bytes(16) } else { bad_utf8(&mut c.r) };
    let mut enc = (raw.len() as u64).to_le_bytes().to_vec();
    enc.extend(&raw);
    let mut n = 0;
    for ver in [1, 2] {
        let r = caught(|| if ver == 1 { String::decode_v1(&mut &enc[..]) } else { String::decode(&mut &enc[..]) });
        if let Ok(Ok(s)) = r {
            utf8("decoding a string", &s)?;
            n += 1;
        }
    }
    // specifiers and the text made of them
    let mut sp = [0u8; 16];
    for (a, b) in sp.iter_mut().zip(&raw) {
        *a = *b;
    }
    let sp = Specifier::new(sp);
    if let Ok(s) = caught(|| sp.to_string()) {
        utf8("printing a specifier", &s)?;
        n += 1;
    }
    if let Ok(s) = caught(|| format!("{sp:?}")) {
        utf8("debugging a specifier", &s)?;
    }
    let klen = c.r.below(40);
    let kb = c.r.bytes(klen);
    let mut b = vec![];
    sp.encode(&mut b).map_err(|e| Fail { key: "encode".into(), msg: e.to_string() })?;
    b.extend((kb.len() as u64).to_le_bytes());
    b.extend(&kb);
    if let Ok(Ok(k)) = caught(|| v1::UnlockKey::decode(&mut &b[..])) {
        for t in [caught(|| k.to_string()), caught(|| serde_json::to_string(&k).unwrap_or_default()), caught(|| format!("{k:?}"))] {
            if let Ok(t) = t {
                utf8("printing an unlock key", &t)?;
                n += 1;
            }
        }
        let mut cb = vec![];
        if caught(|| ciborium::into_writer(&k, &mut cb).is_ok()).unwrap_or(false) {
            if let Ok(Ok(k2)) = caught(|| ciborium::from_reader::<v1::UnlockKey, _>(&cb[..])) {
                if let Ok(t) = caught(|| k2.to_string()) {
                    utf8("printing an unlock key", &t)?;
                }
            }
        }
    }
    // v2 attestation keys and network names travel as strings
    let aty = v2::Attestation::ty();
    let v = Gen::new(30).gen(&aty, &mut c.r);
    let o = reference(entry("v2::Attestation"), &v, 2);
    let mut m = o.buf.clone();
    // the key is the second field: a length-prefixed string after 32 bytes
    if m.len() > 40 {
        let l = u64::from_le_bytes(m[32..40].try_into().unwrap()) as usize;
        let mut x = (raw.len() as u64).to_le_bytes().to_vec();
        x.extend(&raw);
        if 40 + l <= m.len() {
            m.splice(32..40 + l, x);
            if let Ok(Ok(a)) = caught(|| v2::Attestation::decode(&mut &m[..])) {
                utf8("decoding an attestation", &a.key)?;
                n += 1;
            }
        }
    }
    for t in [
        caught(|| Address::new(c.r.bytes(32).try_into().unwrap()).to_string()),
        caught(|| Hash256::from(<[u8; 32]>::try_from(c.r.bytes(32)).unwrap()).to_string()),
        caught(|| PublicKey::new(c.r.bytes(32).try_into().unwrap()).to_string()),
        caught(|| Signature::new(c.r.bytes(64).try_into().unwrap()).to_string()),
        caught(|| (*Currency::new(c.r.n128())).to_string()),
        caught(|| sia::seed::Seed::new(c.r.bytes(16).try_into().unwrap()).to_mnemonic()),
    ] {
        if let Ok(t) = t {
            utf8("printing", &t)?;
            ensure!(t.is_ascii(), "ascii", "printed as {}", hx(t.as_bytes()));
            n += 1;
        }
    }
    // booleans
    let x = c.r.u64() as u8;
    for r in [caught(|| bool::decode(&mut &[x][..])), caught(|| bool::decode_v1(&mut &[x][..]))] {
        if let Ok(Ok(b)) = r {
            boolean("decoding a bool", &b)?;
            n += 1;
        }
    }
    let cty = v1::CoveredFields::ty();
    let o = reference(entry("v1::CoveredFields"), &empty(&cty), 1);
    let mut m = o.buf.clone();
    m[0] = x;
    if let Ok(Ok(f)) = caught(|| v1::CoveredFields::decode_v1(&mut &m[..])) {
        boolean("decoding covered fields", &f.whole_transaction)?;
        n += 1;
    }
    let vr =
        PublicKey::new(c.r.fixed(32).try_into().unwrap()).verify(&Hash256::default(), &Signature::new(c.r.fixed(64).try_into().unwrap()));
    boolean("verifying", &vr)?;
    c.obs("strings and booleans checked", n);
    c.seen("text", &raw);
    Ok(())
}

/// repeated calls do not use more and more memory
#[cfg(not(feature = "sanitizer"))]
fn leak(c: &mut Ctx) -> Res {
    use crate::alloc::LIVE;
    use std::sync::atomic::Ordering::Relaxed;
    let live = || LIVE.load(Relaxed) as i64;
    let mut jobs = jobs_for_leaks(&mut c.r);
    let k = 24;
    if c.r.one_in(12) {
        let d = std::sync::Arc::new(vec![c.r.u64() as u8; 1 << 22]);
        let g = d.clone();
        jobs.push(("sector root".into(), Box::new(move || sector_root(&g).to_string())));
    }
    for (name, f) in &jobs {
        let slow = name.starts_with("sector");
        for _ in 0..3 {
            run_job(f);
        }
        // worker threads of a pool may still be returning memory: judge on several rounds
        let mut grown = vec![];
        for _ in 0..4 {
            let a = live();
            for _ in 0..if slow { 2 } else { k } {
                std::hint::black_box(run_job(f));
            }
            grown.push(live() - a);
            if *grown.last().unwrap() <= 0 {
                break;
            }
        }
        let per = if slow { 64 * 1024 } else { k };
        if grown.len() == 4 && grown.iter().all(|g| *g >= per) {
            fail!(
                format!("leak:{}", name.split(|c: char| c == ',' || c.is_ascii_digit() || c == '.').next().unwrap_or("").trim().replace(' ', "_")),
                "{name}: every {k} calls leave {grown:?} more bytes allocated"
            );
        }
        c.obs("calls watched for leaks", k as u64);
        c.seen("leak", name.as_bytes());
    }
    drop(jobs);
    // distinct values each time, all of them dropped again
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let mut grown = vec![];
    let seed = c.r.u64();
    for round in 0..7u64 {
        let a = live();
        for i in 0..12u64 {
            let mut r = Rng::new(seed, "leak", round * 100 + i);
            let v = gen_both(e, &mut r, 25);
            for f in shared_value(e, v, &mut r) {
                std::hint::black_box(run_job(&f));
            }
        }
        grown.push(live() - a);
    }
    if grown[2..].iter().all(|g| *g >= 12) {
        fail!(format!("leak:{}", e.name), "working on 12 new {} at a time leaves {grown:?} more bytes allocated each time", e.name);
    }
    c.obs("rounds over new values", 7);
    Ok(())
}
#[cfg(feature = "sanitizer")]
fn leak(c: &mut Ctx) -> Res {
    let _ =
        (jobs_for_leaks as fn(&mut Rng) -> _, run_job as fn(&_) -> _, shared_value as fn(_, _, &mut _) -> _, sector_root as fn(&[u8]) -> _);
    let _: fn() -> Res = || fail!("", "");
    c.obs("skipped", 1);
    Ok(())
}

/// a small mixture of everything, for the interpreter
fn tiny(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let b = 3 + c.r.below(8) as isize;
    let v = gen_both(e, &mut c.r, b);
    let d = (e.from_val)(&v);
    let mut ops = 0;
    for ver in [1u8, 2] {
        if !(if ver == 1 { e.v1 } else { e.v2 }) {
            continue;
        }
        let o = reference(e, &v, ver);
        let mut w = Wr::new(Chunks::Random, Rng::new(c.seed, "w", c.idx));
        let _ = caught(|| if ver == 1 { d.enc1(&mut w).is_ok() } else { d.enc2(&mut w).is_ok() });
        let at = c.r.below(o.buf.len() + 1);
        let mut w = Wr::failing(at, WFault::Once);
        let _ = caught(|| if ver == 1 { d.enc1(&mut w).is_ok() } else { d.enc2(&mut w).is_ok() });
        let mut l = Liar { data: &o.buf, pos: 0, at, how: c.r.below(5) as u8, n: 99_000 };
        let _ = result_of(e, ver, &mut l);
        for k in 0..3 {
            let bytes = match k {
                0 => o.buf.clone(),
                1 => mutate(&o, &mut c.r),
                _ => o.buf[..at].to_vec(),
            };
            let mut rd = Rd::chunked(&bytes, *c.r.pick(&[Chunks::Full, Chunks::One, Chunks::Random]), Rng::new(c.seed, "r", c.idx));
            let r = caught(|| if ver == 1 { (e.dec1)(&mut rd) } else { (e.dec2)(&mut rd) });
            if let Ok(Ok(x)) = r {
                if k == 0 {
                    std::hint::black_box(x.same(&*d));
                }
                std::hint::black_box(x.debug().len());
                let mut sink = std::io::sink();
                let _ = caught(|| if e.v2 { x.enc2(&mut sink).is_ok() } else { x.enc1(&mut sink).is_ok() });
                if e.json && k < 2 {
                    if let Ok(Ok(t)) = caught(|| x.json_text()) {
                        let _ = caught(|| (e.parse_text)(&t).is_ok());
                        let mut t = t.into_bytes();
                        let i = c.r.below(t.len());
                        t[i] = *c.r.pick(b"\"{}[],:0919af-\\ ");
                        if let Ok(t) = String::from_utf8(t) {
                            let _ = caught(|| (e.parse_text)(&t).is_ok());
                        }
                    }
                }
            }
            ops += 1;
        }
    }
    let _ = caught(|| d.touch().len());
    match c.r.below(6) {
        0 => {
            let k = PrivateKey::from_seed(&[c.r.u64() as u8; 32]);
            let h = Hash256::from([c.r.u64() as u8; 32]);
            std::hint::black_box(k.sign_hash(&h));
            let _ = Box::new(k);
        }
        1 => {
            let s = sia::seed::Seed::new(c.r.bytes(16).try_into().unwrap());
            let m = s.to_mnemonic();
            let _ = sia::seed::Seed::from_mnemonic(&m).is_ok();
            let _ = sia::seed::Seed::from_mnemonic("zoo zoo").is_ok();
        }
        2 => {
            for s in ["1.5 SC", "7 pS", "-1", "1e5", "340282366920938463463374607431768211456", "", " ", "1.SC", "٣"] {
                let _ = caught(|| Currency::parse_string(s).is_ok());
                let _ = caught(|| Address::parse_string(s).is_ok());
                let _ = caught(|| v1::UnlockKey::parse_string(s).is_ok());
                let _ = caught(|| Signature::parse_string(s).is_ok());
                let _ = caught(|| Leaf::parse_string(s).is_ok());
                let _ = caught(|| Hash256::parse_string(s).is_ok());
            }
        }
        3 => {
            // shared between threads
            let d2: &dyn Dyn = &*d;
            std::thread::scope(|s| {
                for _ in 0..2 {
                    s.spawn(move || {
                        std::hint::black_box(d2.debug().len());
                        std::hint::black_box(caught(|| d2.touch().len()).unwrap_or(0));
                        let mut b = vec![];
                        let _ = caught(|| if e.v2 { d2.enc2(&mut b).is_ok() } else { d2.enc1(&mut b).is_ok() });
                    });
                }
            });
        }
        4 => {
            let cs: ChainState = mainnet_at(c.r.n64());
            let _ = caught(|| {
                format!("{:?} {:?} {} {}", cs.block_reward(), cs.foundation_subsidy().is_some(), cs.maturity_height(), cs.nonce_factor())
            });
        }
        _ => {
            let mut t = empty(&v1::Transaction::ty());
            let Ty::Struct(td) = v1::Transaction::ty() else { panic!("MONITOR: type") };
            let oty = SiacoinOutput::ty();
            t.st_mut()[td.idx("siacoin_outputs")] = Val::List(vec![empty(&oty)]);
            let t = v1::Transaction::from_val(&t);
            let cs = mainnet_at(5);
            for i in [0usize, 1, 2, 7, usize::MAX] {
                let f = v1::CoveredFields { siacoin_outputs: vec![i], ..Default::default() };
                let _ = caught(|| t.partial_sig_hash(&cs, &f).is_ok());
                let f = v1::CoveredFields { miner_fees: vec![i], signatures: vec![i], arbitrary_data: vec![i], ..Default::default() };
                let _ = caught(|| t.partial_sig_hash(&cs, &f).is_ok());
            }
        }
    }
    c.obs("small mixtures", 1);
    c.obs("small decodes", ops);
    c.seen("tiny", format!("{} {v:?}", e.name).as_bytes());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "decoders fed by readers that claim data they did not deliver, over littered memory; strings and booleans from hostile bytes; memory held after repeated calls; and the workloads of all other properties under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri; distinct by type, place and kind of lie, by string content, or by call",
        monitors: vec![
            Monitor { name: "liars", weight: 6, f: liars as fn(&mut Ctx) -> Res },
            Monitor { name: "values", weight: 12, f: values },
            Monitor { name: "leak", weight: 2, f: leak },
            Monitor { name: "tiny", weight: 1, f: tiny },
        ],
        quick_ms: 8000,
        thorough_ms: 60_000,
        must: &[("lying readers", 5000), ("strings and booleans checked", 10_000), ("calls watched for leaks", 20_000), ("small mixtures", 500)],
        assumptions: &["the sanitizers and Miri report what they instrument: executions of the workloads only; MemorySanitizer, ThreadSanitizer and AddressSanitizer run with an instrumented standard library"],
    }]
}
