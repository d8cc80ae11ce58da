//! C01–C08: binary codecs.
use super::util::*;
use crate::alloc;
use crate::eng::*;
use crate::io::*;
use crate::models::*;
use crate::{ensure, fail};
use model::refenc::Sp;
use model::val::*;
use std::io::ErrorKind;

fn chunks(r: &mut model::rng::Rng) -> Chunks {
    *r.pick(&[Chunks::Full, Chunks::Full, Chunks::One, Chunks::Random])
}

fn roundtrip(c: &mut Ctx, ver: u8) -> Res {
    let n = 1 + c.r.below(4);
    let mut es = vec![];
    for _ in 0..n {
        let e = pick_entry(&mut c.r, |e| has(e, ver));
        let v = gen(e, &mut c.r);
        es.push((e, v));
    }
    let mut all = Vec::new();
    let mut ends = vec![];
    let mut vals = vec![];
    for (e, v) in &es {
        let d = (e.from_val)(v);
        ensure!(d.to_val() == *v, "bind", "{}: value changed by construction: {}", e.name, vdiff(&d.to_val(), v));
        if let Err(x) = enc(&*d, ver, &mut all) {
            fail!("encode", "{}: encoding {} failed: {x}", e.name, short(v));
        }
        ends.push(all.len());
        vals.push(d);
    }
    let mode = chunks(&mut c.r);
    let fork = c.fork("chunks");
    let mut rd = Rd::chunked(&all, mode, fork);
    for (i, (e, v)) in es.iter().enumerate() {
        let d = match dec(e, ver, &mut rd) {
            Ok(d) => d,
            Err(x) => fail!("decode", "{}: decoding the encoding of {} failed: {x}", e.name, short(v)),
        };
        ensure!(rd.pos == ends[i], "position", "{}: decoder stopped at {} instead of {}", e.name, rd.pos, ends[i]);
        let got = d.to_val();
        ensure!(got == *v, "value", "{}: decoded a different value: {}", e.name, vdiff(&got, v));
        ensure!(d.same(&*vals[i]) && vals[i].same(&*d), "equality", "{}: decoded value is not equal to the original {}", e.name, short(v));
        c.obs("values round-tripped", 1);
        c.obs(&format!("type:{}", e.name), 1);
    }
    c.obs("bytes", all.len() as u64);
    if all.len() > 8 {
        c.seen("rt", &all);
    }
    c.sample(|| format!("{:?} reader, {} → {} bytes", mode, es.iter().map(|e| e.0.name).collect::<Vec<_>>().join(" ++ "), all.len()));
    Ok(())
}
/// one list of up to four million elements
fn huge(c: &mut Ctx, ver: u8, compare: bool) -> Res {
    if !c.r.one_in(400) {
        return Ok(());
    }
    let e = pick_entry(&mut c.r, |e| has(e, ver));
    let Some(v) = gen_huge(e, &mut c.r) else { return Ok(()) };
    let d = (e.from_val)(&v);
    let mut b = match enc_vec(&*d, ver) {
        Ok(b) => b,
        Err(x) => fail!("encode", "{}: encoding {} failed: {x}", e.name, short(&v)),
    };
    let len = b.len();
    if compare {
        let want = reference(e, &v, ver);
        ensure!(b == want.buf, "bytes", "{}: {} for {}", e.name, diff(&b, &want), short(&v));
    }
    b.extend_from_slice(&[0xff; 40]);
    let mode = if c.r.bool() { Chunks::Full } else { Chunks::Random };
    let mut rd = Rd::chunked(&b, mode, c.fork("chunks"));
    match dec(e, ver, &mut rd) {
        Ok(g) => {
            ensure!(rd.pos == len, "position", "{}: decoder stopped at {} instead of {len}", e.name, rd.pos);
            ensure!(g.same(&*d) && d.same(&*g), "equality", "{}: decoded value of {len} bytes is not equal to the original", e.name);
            let gv = g.to_val();
            ensure!(gv == v, "value", "{}: {len} bytes decode to another value: {}", e.name, vdiff(&gv, &v));
        }
        Err(x) => fail!("decode", "{}: decoding the {len} bytes of {} failed: {x}", e.name, short(&v)),
    }
    c.obs("values with huge lists", 1);
    c.obs("bytes of huge encodings", len as u64);
    c.seen(e.name, &b[..len.min(4096)]);
    Ok(())
}
fn huge1(c: &mut Ctx) -> Res {
    huge(c, 1, false)
}
fn huge2(c: &mut Ctx) -> Res {
    huge(c, 2, false)
}
fn huge1_ref(c: &mut Ctx) -> Res {
    huge(c, 1, true)
}
fn huge2_ref(c: &mut Ctx) -> Res {
    huge(c, 2, true)
}
fn rt2(c: &mut Ctx) -> Res {
    roundtrip(c, 2)
}
fn rt1(c: &mut Ctx) -> Res {
    roundtrip(c, 1)
}

/// long chains of nested policies and wide trees
fn deep_policy(c: &mut Ctx) -> Res {
    let depth = if c.r.one_in(3) { 1 + c.r.below(300) } else { 1 + c.r.below(60) };
    let mut v = Val::En(0, Box::new(Val::U(c.r.n64())));
    for _ in 0..depth {
        let mut l = vec![v];
        if c.r.one_in(4) {
            l.push(Val::En(3, Box::new(Val::B(c.r.bytes(32)))));
        }
        if c.r.one_in(4) {
            l.insert(0, Val::En(5, Box::new(Val::B(c.r.bytes(32)))));
        }
        v = Val::En(4, Box::new(Val::St(vec![Val::U(c.r.u64() & 0xff), Val::List(l)])));
    }
    let e = entry("v2::SpendPolicy");
    let d = (e.from_val)(&v);
    let b = match enc_vec(&*d, 2) {
        Ok(b) => b,
        Err(x) => fail!("encode", "policy of depth {depth}: {x}"),
    };
    let want = reference(e, &v, 2);
    ensure!(b == want.buf, "bytes", "policy of depth {depth}: {}", diff(&b, &want));
    let mut rd = Rd::new(&b);
    match dec(e, 2, &mut rd) {
        Ok(g) => {
            ensure!(rd.pos == b.len() && g.to_val() == v && g.same(&*d), "value", "policy of depth {depth} does not round-trip")
        }
        Err(x) => fail!("decode", "policy of depth {depth}: {x}"),
    }
    c.obs("deep policies", 1);
    c.seen("deep", &b);
    Ok(())
}

fn format(c: &mut Ctx, ver: u8) -> Res {
    for _ in 0..2 {
        let e = pick_entry(&mut c.r, |e| has(e, ver));
        let v = gen(e, &mut c.r);
        let d = (e.from_val)(&v);
        let want = reference(e, &v, ver);
        let got = match enc_vec(&*d, ver) {
            Ok(b) => b,
            Err(x) => fail!("encode", "{}: encoding {} failed: {x}", e.name, short(&v)),
        };
        ensure!(got == want.buf, format!("bytes:{}", e.name), "{}: {} for {}", e.name, diff(&got, &want), short(&v));
        let mut rd = Rd::new(&want.buf);
        match dec(e, ver, &mut rd) {
            Ok(g) => {
                let g = g.to_val();
                ensure!(g == v, format!("value:{}", e.name), "{}: wire bytes decode to another value: {}", e.name, vdiff(&g, &v));
                ensure!(rd.pos == want.buf.len(), "position", "{}: consumed {} of {} bytes", e.name, rd.pos, want.buf.len());
            }
            Err(x) => fail!(format!("decode:{}", e.name), "{}: wire bytes refused: {x}: {}", e.name, hx(&want.buf)),
        }
        c.obs("encodings compared", 1);
        c.obs("bytes compared", want.buf.len() as u64);
        c.obs("format elements compared", want.spans.len() as u64);
        if want.spans.len() > 1 {
            c.seen(e.name, &want.buf);
        }
        c.sample(|| format!("{} {}", e.name, hx(&want.buf)));
        if ver == 1 && e.name == "v1::Transaction" {
            let t = &d.any().downcast_ref::<W2<sia::types::v1::Transaction>>().unwrap().0;
            let mut b = vec![];
            if let Err(x) = t.encode_no_sigs(&mut b) {
                fail!("nosigs", "encode_no_sigs failed: {x}");
            }
            let w = model::refhash::v1_no_sigs(&e.ty, &v);
            ensure!(b == w, "nosigs", "encoding without signatures differs: {} / {} bytes", b.len(), w.len());
            c.obs("signature-less encodings", 1);
        }
        if ver == 2 && e.name == "v2::ChainIndexElement" {
            let t = &d.any().downcast_ref::<W2<sia::types::v2::ChainIndexElement>>().unwrap().0;
            let mut b = vec![];
            if let Err(x) = t.encode_semantics(&mut b) {
                fail!("semantics", "encode_semantics failed: {x}");
            }
            ensure!(b == model::refhash::sem_chain_index_element(&e.ty, &v), "semantics", "semantic encoding of a chain index element differs");
        }
    }
    Ok(())
}
fn format2(c: &mut Ctx) -> Res {
    format(c, 2)
}
fn format1(c: &mut Ctx) -> Res {
    format(c, 1)
}

/// v2 transactions with every presence combination
fn bitmap(c: &mut Ctx) -> Res {
    let e = entry("v2::Transaction");
    let Ty::Struct(def) = &e.ty else { panic!() };
    let mask = if c.idx < 4096 { c.idx & 0x7ff } else { c.r.u64() & 0x7ff };
    let mut f = vec![];
    for (i, fd) in def.fields.iter().enumerate() {
        let mut v = empty(&fd.ty);
        if mask >> i & 1 == 1 {
            for _ in 0..200 {
                v = Gen::new(12).gen(&fd.ty, &mut c.r);
                if !v.is_empty() {
                    break;
                }
            }
        }
        f.push(v);
    }
    let v = Val::St(f);
    let d = (e.from_val)(&v);
    let want = reference(e, &v, 2);
    let got = enc_vec(&*d, 2).map_err(|x| Fail { key: "encode".into(), msg: x })?;
    ensure!(got == want.buf, "bitmap", "presence {mask:#b}: {}", diff(&got, &want));
    match dec(e, 2, &mut Rd::new(&want.buf)) {
        Ok(g) => ensure!(g.to_val() == v, "bitmap-value", "presence {mask:#b}: {}", vdiff(&g.to_val(), &v)),
        Err(x) => fail!("bitmap-decode", "presence {mask:#b}: {x}"),
    }
    c.obs("presence combinations", 1);
    c.seen("mask", &mask.to_le_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C05

fn attempt(c: &mut Ctx, e: &Entry, ver: u8, input: &[u8], how: &str) -> Res {
    let mut rd = Rd::new(input);
    let (res, peak) = alloc::measure(|| caught(|| dec(e, ver, &mut rd)));
    let limit = (16 << 20) + 128 * input.len();
    c.obs(if ver == 1 { "v1 inputs" } else { "v2 inputs" }, 1);
    if peak > limit {
        fail!(format!("memory:v{ver}"), "{} v{ver}: {peak} bytes allocated while decoding {} bytes ({how}): {}", e.name, input.len(), hx(input));
    }
    match res {
        Err(p) => fail!(format!("panic:v{ver}:{}", p.loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")), "{} v{ver}: decoding panicked: {} at {} ({how}): {}", e.name, p.msg, p.loc, hx(input)),
        Ok(Err(_)) => {
            c.obs("refused", 1);
            if rd.pos > 0 && rd.pos < input.len() {
                c.obs("refused mid-input", 1);
                c.seen(e.name, &input[..rd.pos]);
            }
        }
        Ok(Ok(d)) => {
            c.obs("accepted", 1);
            c.seen(e.name, input);
            let (x, _) = alloc::measure(|| exercise(&*d, e));
            if let Err(p) = x {
                fail!("use-panic", "{} v{ver}: using the decoded value panicked: {} at {} ({how}): {}", e.name, p.msg, p.loc, hx(input));
            }
            if let Err(p) = caught(|| drop(d)) {
                fail!("drop-panic", "{} v{ver}: dropping panicked: {}", e.name, p.msg);
            }
        }
    }
    Ok(())
}

fn ver_of(c: &mut Ctx, e: &Entry) -> u8 {
    if e.v1 && e.v2 {
        1 + c.r.below(2) as u8
    } else if e.v1 {
        1
    } else {
        2
    }
}

fn fuzz_random(c: &mut Ctx) -> Res {
    for _ in 0..8 {
        let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
        let ver = ver_of(c, e);
        let n = match c.r.below(6) {
            0 => c.r.below(9),
            1 => c.r.below(40),
            2 | 3 => c.r.below(300),
            4 => c.r.below(2000),
            _ => 8 * c.r.below(60),
        };
        let mut b = c.r.bytes(n);
        match c.r.below(5) {
            // mostly zeros, small numbers: many short lists
            0 => b.iter_mut().for_each(|x| *x = if *x < 12 { *x } else { 0 }),
            1 => b.iter_mut().enumerate().for_each(|(i, x)| {
                if i % 8 != 0 {
                    *x = 0
                } else {
                    *x %= 5
                }
            }),
            2 => {
                // little-endian words with boundary values
                b = (0..n / 8).flat_map(|_| c.r.n64().to_le_bytes()).collect();
            }
            3 => b.iter_mut().for_each(|x| *x = if *x & 3 == 0 { 0xff } else { *x & 7 }),
            _ => {}
        }
        attempt(c, e, ver, &b, "random")?;
    }
    Ok(())
}

fn fuzz_mutated(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let v = gen(e, &mut c.r);
    let o = reference(e, &v, ver);
    for _ in 0..6 {
        let b = mutate(&o, &mut c.r);
        attempt(c, e, ver, &b, "mutated")?;
    }
    c.sample(|| format!("{} v{ver}, mutations of {}", e.name, hx(&o.buf)));
    Ok(())
}

/// one length field claims far more than is there, at every length field of an encoding
fn lengths(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let b = 20 + c.r.below(60) as isize;
    let v = Gen::new(b).gen(&e.ty, &mut c.r);
    let o = reference(e, &v, ver);
    let mut n = 0;
    for s in &o.spans {
        if !matches!(s.kind, Sp::Len | Sp::Cur1 | Sp::SfValue) {
            continue;
        }
        n += 1;
        if n > 12 {
            break;
        }
        for x in [1u64 << 62, u64::MAX, 1 << 30, (1 << 24) + 7, isize::MAX as u64 / 40, 300_000] {
            let mut b = o.buf.clone();
            b[s.off..s.off + 8].copy_from_slice(&x.to_le_bytes());
            if c.r.bool() {
                b.truncate(s.off + 8);
            }
            attempt(c, e, ver, &b, "length")?;
            c.obs("inflated lengths", 1);
        }
    }
    Ok(())
}

/// deep nesting
fn bombs(c: &mut Ctx) -> Res {
    let depth = *c.r.pick(&[10usize, 100, 500, 900, 1020, 1023, 1024, 1025, 1100, 2000, 5000, 20_000, 100_000, 400_000]);
    let mut pol = vec![1u8];
    let wide = *c.r.pick(&[1u8, 1, 1, 2, 255]);
    for _ in 0..depth {
        pol.extend_from_slice(&[5, c.r.below(3) as u8, wide]);
    }
    if c.r.bool() {
        // close it with leaves
        pol.push(1);
        pol.extend_from_slice(&c.r.u64().to_le_bytes());
    }
    let (e, input): (&Entry, Vec<u8>) = match c.r.below(4) {
        0 | 1 => (entry("v2::SpendPolicy"), pol),
        2 => (entry("v2::SatisfiedPolicy"), { pol.extend_from_slice(&[0; 16]); pol }),
        _ => {
            let e = entry("v2::Transaction");
            let mut b = vec![2u8];
            b.extend_from_slice(&1u64.to_le_bytes());
            b.extend_from_slice(&1u64.to_le_bytes());
            let se = entry("v2::SiacoinElement");
            b.extend_from_slice(&model::refenc::bytes2(&se.ty, &empty(&se.ty)));
            b.extend_from_slice(&pol);
            b.extend_from_slice(&[0; 16]);
            (e, b)
        }
    };
    c.obs("nesting bombs", 1);
    attempt(c, e, 2, &input, &format!("nesting depth {depth}"))
}

// ---------------------------------------------------------------------------------------------
// C06

fn truncation(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let b = 5 + c.r.below(60) as isize;
    let v = Gen::new(b).gen(&e.ty, &mut c.r);
    let o = reference(e, &v, ver);
    let b = &o.buf;
    let cuts: Vec<usize> = if b.len() <= 300 {
        (0..b.len()).collect()
    } else {
        let mut x: Vec<usize> = (0..80).map(|_| c.r.below(b.len())).collect();
        x.extend(o.spans.iter().map(|s| s.off).take(150));
        x.push(b.len() - 1);
        x.retain(|k| *k < b.len());
        x
    };
    for k in cuts {
        if let Ok(Ok(d)) = caught(|| dec(e, ver, &mut Rd::new(&b[..k]))) {
            fail!("prefix", "{} v{ver}: the first {k} of {} bytes decode to {}", e.name, b.len(), short(&d.to_val()));
        }
        c.obs("truncations", 1);
    }
    c.seen(e.name, b);
    c.sample(|| format!("{} v{ver}, {} bytes, every prefix", e.name, b.len()));
    Ok(())
}

fn trailing(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let v = gen(e, &mut c.r);
    let b = reference(e, &v, ver).buf;
    for k in 0..3 {
        let mut x = b.clone();
        let n = 1 + c.r.below(100);
        let t = match k {
            0 => vec![0u8; n],
            1 => vec![0xff; n],
            _ => c.r.bytes(n),
        };
        x.extend_from_slice(&t);
        let mode = chunks(&mut c.r);
        let mut rd = Rd::chunked(&x, mode, c.fork("t"));
        match dec(e, ver, &mut rd) {
            Ok(d) => {
                ensure!(rd.pos == b.len(), "consumed", "{} v{ver}: consumed {} bytes of a {}-byte encoding followed by other data", e.name, rd.pos, b.len());
                ensure!(d.to_val() == v, "influence", "{} v{ver}: trailing data changed the value: {}", e.name, vdiff(&d.to_val(), &v));
            }
            Err(x) => fail!("refused", "{} v{ver}: refused with trailing data: {x}", e.name),
        }
        c.obs("trailing data", 1);
    }
    c.seen(e.name, &b);
    Ok(())
}

fn fragmentation(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let v = gen(e, &mut c.r);
    let o = reference(e, &v, ver);
    // valid and mutated inputs must give the same outcome for every fragmentation
    let inputs = [o.buf.clone(), mutate(&o, &mut c.r)];
    for b in &inputs {
        let mut first: Option<(Result<Val, String>, usize)> = None;
        for (k, mode) in [Chunks::Full, Chunks::One, Chunks::Random, Chunks::Random].iter().enumerate() {
            let mut rd = Rd::chunked(b, *mode, model::rng::Rng::new(c.seed, "frag", c.idx * 8 + k as u64));
            let out = match caught(|| dec(e, ver, &mut rd)) {
                Ok(Ok(d)) => Ok(d.to_val()),
                Ok(Err(_)) => Err("error".to_string()),
                Err(_) => Err("panic".to_string()), // C05 decides panics
            };
            let pos = if out.is_ok() { rd.pos } else { 0 };
            c.obs("fragmented reads", rd.reads as u64);
            match &first {
                None => first = Some((out, pos)),
                Some((f, p)) => {
                    ensure!(*f == out && *p == pos, "fragmentation", "{} v{ver}: {mode:?} reads give {} at {pos}, full reads give {} at {p}: {}", e.name, short(&out), short(f), hx(b));
                }
            }
        }
        c.seen(e.name, b);
        c.obs("inputs fragmented", 1);
    }
    Ok(())
}

fn read_errors(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let b = 5 + c.r.below(60) as isize;
    let v = Gen::new(b).gen(&e.ty, &mut c.r);
    let o = reference(e, &v, ver);
    let b = &o.buf;
    let at: Vec<usize> = if b.len() <= 120 {
        (0..b.len()).collect()
    } else {
        let mut x: Vec<usize> = (0..40).map(|_| c.r.below(b.len())).collect();
        x.extend(o.spans.iter().map(|s| s.off).take(80));
        x.retain(|k| *k < b.len());
        x
    };
    for k in at {
        let kind = *c.r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData]);
        let mut rd = Rd::chunked(b, chunks(&mut c.r), c.fork("re"));
        rd.fault = Some((k, kind));
        match caught(|| dec(e, ver, &mut rd)) {
            Ok(Ok(d)) => fail!("error-lost", "{} v{ver}: a {kind:?} read error after {k} of {} bytes was ignored, result {}", e.name, b.len(), short(&d.to_val())),
            Ok(Err(_)) => {}
            Err(p) => fail!("error-panic", "{} v{ver}: a {kind:?} read error after {k} bytes panicked: {} at {}", e.name, p.msg, p.loc),
        }
        c.obs("read errors injected", 1);
    }
    c.seen(e.name, b);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C07

fn write_faults(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let bud = 5 + c.r.below(50) as isize;
    let v = Gen::new(bud).gen(&e.ty, &mut c.r);
    let d = (e.from_val)(&v);
    let o = reference(e, &v, ver);
    let full = o.buf;
    let at: Vec<usize> = if full.len() <= 150 {
        (0..full.len()).collect()
    } else {
        let mut x: Vec<usize> = (0..40).map(|_| c.r.below(full.len())).collect();
        x.extend(o.spans.iter().map(|s| s.off).take(90));
        x.push(full.len() - 1);
        x.retain(|k| *k < full.len());
        x
    };
    for k in at {
        for kind in [WFault::Once, WFault::Always, WFault::Full] {
            let mut w = Wr::failing(k, kind);
            let out = match caught(|| enc(&*d, ver, &mut w)) {
                Ok(o) => o,
                Err(p) => fail!("panic", "{} v{ver}: a failing writer ({kind:?} at byte {k} of {}) panics: {} at {}", e.name, full.len(), p.msg, p.loc),
            };
            ensure!(w.failed, "unreached", "{} v{ver}: only {} bytes were written, encoding has {}", e.name, w.buf.len(), full.len());
            ensure!(out.is_err(), "success", "{} v{ver}: encoding reports success although the writer failed ({kind:?}) at byte {k} of {}", e.name, full.len());
            ensure!(w.buf[..w.before] == full[..w.before], "prefix", "{} v{ver}: bytes before the failure are not a prefix", e.name);
            c.obs("write faults injected", 1);
        }
    }
    if full.len() > 8 {
        c.seen(e.name, &full);
    }
    c.sample(|| format!("{} v{ver}: writer failing at every byte of {}", e.name, hx(&full)));
    Ok(())
}

/// the signature-less and semantic encoders that are public also propagate faults
fn write_faults_partial(c: &mut Ctx) -> Res {
    let e = entry("v1::Transaction");
    let bud = 30 + c.r.below(50) as isize;
    let v = Gen::new(bud).gen(&e.ty, &mut c.r);
    let d = (e.from_val)(&v);
    let t = &d.any().downcast_ref::<W2<sia::types::v1::Transaction>>().unwrap().0;
    let full = model::refhash::v1_no_sigs(&e.ty, &v);
    for _ in 0..30 {
        let k = c.r.below(full.len());
        let mut w = Wr::failing(k, *c.r.pick(&[WFault::Once, WFault::Always, WFault::Full]));
        match caught(|| t.encode_no_sigs(&mut w)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => fail!("nosigs-success", "encode_no_sigs reports success although the writer failed at byte {k} of {}", full.len()),
            Err(p) => fail!("nosigs-panic", "encode_no_sigs panics on a failing writer: {}", p.msg),
        }
        ensure!(w.buf[..w.before] == full[..w.before], "prefix", "bytes before the failure are not a prefix");
        c.obs("write faults injected", 1);
    }
    let e = entry("v2::ChainIndexElement");
    let v = Gen::new(20).gen(&e.ty, &mut c.r);
    let d = (e.from_val)(&v);
    let t = &d.any().downcast_ref::<W2<sia::types::v2::ChainIndexElement>>().unwrap().0;
    let full = model::refhash::sem_chain_index_element(&e.ty, &v);
    for k in 0..full.len() {
        let mut w = Wr::failing(k, *c.r.pick(&[WFault::Once, WFault::Always, WFault::Full]));
        match caught(|| t.encode_semantics(&mut w)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => fail!("semantics-success", "encode_semantics reports success although the writer failed at byte {k}"),
            Err(p) => fail!("semantics-panic", "encode_semantics panics on a failing writer: {}", p.msg),
        }
        ensure!(w.buf[..w.before] == full[..w.before], "prefix", "bytes before the failure are not a prefix");
        c.obs("write faults injected", 1);
    }
    Ok(())
}

/// serialization to a writer that fails or is slow
fn serialize_faults(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.json);
    let bud = 5 + c.r.below(40) as isize;
    let v = Gen::json(bud).gen(&e.ty, &mut c.r);
    let d = (e.from_val)(&v);
    for json in [true, false] {
        let to = |w: &mut Wr| if json { d.json_to(w) } else { d.cbor_to(w) };
        let name = if json { "JSON" } else { "CBOR" };
        let full = match caught(|| if json { d.json_text().map(|s| s.into_bytes()) } else { d.cbor() }) {
            Ok(Ok(x)) => x,
            _ => continue,
        };
        let at: Vec<usize> = if full.len() <= 60 { (0..full.len()).collect() } else { (0..40).map(|_| c.r.below(full.len())).chain([full.len() - 1]).collect() };
        for k in at {
            let kind = *c.r.pick(&[WFault::Once, WFault::Always, WFault::Full]);
            let mut w = Wr::failing(k, kind);
            match caught(|| to(&mut w)) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => fail!("serialize-success", "{}: writing {name} reports success although the writer failed ({kind:?}) at byte {k} of {}", e.name, full.len()),
                Err(p) => fail!("serialize-panic", "{}: writing {name} panics when the writer fails ({kind:?}) at byte {k} of {}: {} at {}", e.name, full.len(), p.msg, p.loc),
            }
            ensure!(w.failed && w.buf[..w.before] == full[..w.before], "serialize-prefix", "{}: what was written of the {name} before the failure is not a prefix of it", e.name);
            c.obs("faults in serialization", 1);
        }
        let mut w = Wr::new(Chunks::Random, c.fork("slow"));
        match caught(|| to(&mut w)) {
            Ok(Ok(())) => ensure!(w.buf == full, "serialize-slow", "{}: a slow writer received {} bytes of {name}, expected {}", e.name, w.buf.len(), full.len()),
            Ok(Err(x)) => fail!("serialize-slow", "{}: writing {name} to a slow writer fails: {x}", e.name),
            Err(p) => fail!("serialize-slow", "{}: writing {name} to a slow writer panics: {}", e.name, p.msg),
        }
        c.seen(name, &full);
    }
    Ok(())
}

fn slow_writers(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let v = gen(e, &mut c.r);
    let d = (e.from_val)(&v);
    let full = reference(e, &v, ver).buf;
    for mode in [Chunks::One, Chunks::Random, Chunks::Random] {
        let mut w = Wr::new(mode, c.fork("slow"));
        w.r = model::rng::Rng::new(c.r.u64(), "slow", 0);
        match caught(|| enc(&*d, ver, &mut w)) {
            Ok(Ok(())) => {}
            Ok(Err(x)) => fail!("slow-error", "{} v{ver}: a slow writer ({mode:?}) gets an error: {x}", e.name),
            Err(p) => fail!("slow-panic", "{} v{ver}: a slow writer panics: {}", e.name, p.msg),
        }
        ensure!(w.buf == full, "slow-bytes", "{} v{ver}: a slow writer ({mode:?}) received {} bytes, expected {}", e.name, w.buf.len(), full.len());
        c.obs("slow writes", w.writes as u64);
    }
    c.seen(e.name, &full);
    Ok(())
}

/// values the format cannot express: refused, or (if representable after all) restored exactly
fn unrepresentable(c: &mut Ctx) -> Res {
    use sia::consensus::*;
    use sia::encoding::*;
    use sia::types::v2::SpendPolicy;
    use time::Duration;
    fn check<T: SiaEncodable + SiaDecodable + PartialEq>(c: &mut Ctx, what: &str, x: &T) -> Res {
        let mut b = vec![];
        match caught(|| x.encode(&mut b)) {
            Err(p) => fail!(format!("unrep-panic:{what}"), "encoding {what} panicked: {} at {}", p.msg, p.loc),
            Ok(Err(_)) => c.obs("refused values", 1),
            Ok(Ok(())) => match caught(|| T::decode(&mut &b[..])) {
                Ok(Ok(y)) if y == *x => c.obs("representable values", 1),
                Ok(Ok(_)) => fail!(format!("different:{what}"), "{what} was written as a different value: {}", hx(&b)),
                Ok(Err(e)) => fail!(format!("undecodable:{what}"), "{what} was written as bytes that do not decode ({e}): {}", hx(&b)),
                Err(p) => fail!(format!("undecodable:{what}"), "{what} was written as bytes whose decoding panics: {}", p.msg),
            },
        }
        Ok(())
    }
    let bad = match c.r.below(6) {
        0 => Duration::nanoseconds(-1 - (c.r.n64() >> 1) as i64),
        1 => Duration::seconds(-(c.r.n64() as i64).saturating_abs().max(1)),
        2 => Duration::seconds((i64::MAX / 1_000_000_000) + 1 + c.r.below(1000) as i64),
        3 => Duration::MAX,
        4 => Duration::MIN,
        _ => Duration::seconds((c.r.n64() >> 1) as i64),
    };
    check(c, "duration", &bad)?;
    let se = entry("State");
    let v = Gen::new(30).gen(&se.ty, &mut c.r);
    let mut st: State = M::from_val(&v);
    st.oak_time = bad;
    check(c, "state with that duration", &st)?;
    let n = *c.r.pick(&[254usize, 255, 256, 257, 300, 511, 512, 513, 768, 1000]);
    let leaf = || SpendPolicy::Above(7);
    let p = SpendPolicy::Threshold(c.r.u64() as u8, (0..n).map(|_| leaf()).collect());
    let p = if c.r.bool() { SpendPolicy::Threshold(1, vec![p]) } else { p };
    check(c, &format!("threshold of {}", if n > 255 { "more than 255" } else { "at most 255" }), &p)?;
    // total complexity
    let k = *c.r.pick(&[2usize, 4, 5, 8, 20]);
    let p = SpendPolicy::Threshold(1, (0..k).map(|_| SpendPolicy::Threshold(1, (0..250).map(|_| leaf()).collect())).collect());
    check(c, "policy with many nodes", &p)?;
    let depth = *c.r.pick(&[50usize, 500, 1000, 1022, 1023, 1024, 1025, 1500]);
    let mut p = leaf();
    for _ in 0..depth {
        p = SpendPolicy::Threshold(1, vec![p]);
    }
    check(c, "deep policy", &p)?;
    c.seen("unrep", format!("{bad:?} {n} {k} {depth}").as_bytes());
    c.sample(|| format!("duration {bad:?}, threshold with {n} children, {k}×250 nodes, depth {depth}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C08

fn forbidden(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let b = 10 + c.r.below(70) as isize;
    let v = Gen::new(b).gen(&e.ty, &mut c.r);
    let o = reference(e, &v, ver);
    let mut tried = 0;
    for s in &o.spans {
        let mut alts: Vec<(String, Vec<u8>, usize)> = vec![]; // what, replacement, replaced length
        let mut at = s.off;
        match s.kind {
            Sp::Bool => {
                for x in [2u8, 3, 128, 254, 255, 2 + c.r.below(254) as u8] {
                    alts.push((format!("bool {x}"), vec![x], 1));
                }
            }
            Sp::Op => {
                for x in [0u8, 8, 9, 255, 8 + c.r.below(248) as u8] {
                    alts.push((format!("policy type {x}"), vec![x], 1));
                }
            }
            Sp::Version => {
                for x in 0..4u8 {
                    if x != o.buf[s.off] {
                        alts.push((format!("version {x}"), vec![x], 1));
                    }
                }
                alts.push(("version 255".into(), vec![255], 1));
            }
            Sp::Tag => {
                for x in [3u8, 4, 255, 3 + c.r.below(253) as u8] {
                    alts.push((format!("resolution type {x}"), vec![x], 1));
                }
            }
            Sp::Utf8 => {
                // replaced with its length
                at = s.off - 8;
                let old = &o.buf[s.off..s.off + s.len];
                let mut bads: Vec<Vec<u8>> = vec![];
                if s.len > 0 {
                    for bad in [0xffu8, 0xc0, 0xf8, 0x80] {
                        let mut t = old.to_vec();
                        let i = c.r.below(t.len());
                        t[i] = bad;
                        bads.push(t);
                    }
                }
                // stray, cut, overlong, surrogate and too large characters at the start, somewhere inside, and at the end
                let cut: &[&[u8]] = &[
                    b"\xe2\x82", b"\xf0", b"\xc3", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\x80", b"\xff", b"\xfe\xff",
                ];
                for x in [*c.r.pick(cut), *c.r.pick(cut), *c.r.pick(cut)] {
                    let i = *c.r.pick(&[0, s.len, s.len / 2]);
                    let t = [&old[..i], x, &old[i..]].concat();
                    bads.push(t);
                    bads.push([old, x].concat());
                }
                // a character that the length cuts
                let mut t = old.to_vec();
                let ch = *c.r.pick(&["é", "€", "😀"]);
                t.extend_from_slice(&ch.as_bytes()[..1 + c.r.below(ch.len() - 1)]);
                bads.push(t);
                for t in bads {
                    if std::str::from_utf8(&t).is_err() {
                        let mut x = (t.len() as u64).to_le_bytes().to_vec();
                        x.extend_from_slice(&t);
                        alts.push(("non-UTF-8 string".into(), x, 8 + s.len));
                    }
                }
            }
            Sp::Cur1 | Sp::SfValue => {
                let n = u64::from_le_bytes(o.buf[s.off..s.off + 8].try_into().unwrap()) as usize;
                for k in [17usize, 18, 32, 255] {
                    let mut t = (k as u64).to_le_bytes().to_vec();
                    let zero = c.r.bool();
                    t.extend((0..k).map(|i| if zero && i < k - 1 { 0 } else { 1 }));
                    alts.push((format!("currency of {k} bytes"), t, 8 + n));
                }
                if s.kind == Sp::SfValue {
                    for k in 9..=16usize {
                        let mut t = (k as u64).to_le_bytes().to_vec();
                        let mut x = c.r.bytes(k);
                        x[0] |= 1;
                        if c.r.bool() {
                            x.iter_mut().skip(1).for_each(|b| *b = 0);
                        }
                        t.extend(x);
                        alts.push((format!("siafund value of {k} bytes"), t, 8 + n));
                    }
                }
            }
            Sp::Time => {
                for x in [TIME_MAX + 1, i64::MAX, i64::MIN, TIME_MIN - 1, TIME_MAX + 1 + (c.r.u64() >> 3) as i64] {
                    alts.push((format!("timestamp {x}"), x.to_le_bytes().to_vec(), 8));
                }
            }
            Sp::Dur => {
                for x in [1u64 << 63, u64::MAX, (1 << 63) + (c.r.u64() >> 2)] {
                    alts.push((format!("duration {x}"), x.to_le_bytes().to_vec(), 8));
                }
            }
            Sp::Narrow(bits, signed) => {
                let max: i128 = if signed { (1 << (bits - 1)) - 1 } else { (1 << bits) - 1 };
                for x in [max + 1, (max + 1) * 2, 1i128 << 63, u64::MAX as i128, (1i128 << 32) + 5, (1 << 40) + (c.r.u64() >> 30) as i128] {
                    let y = x as u64;
                    let as_signed = y as i64 as i128;
                    let ok = if signed { as_signed >= -(max + 1) && as_signed <= max } else { (y as i128) <= max };
                    if !ok {
                        alts.push((format!("{y} as {bits}-bit integer"), y.to_le_bytes().to_vec(), 8));
                    }
                }
            }
            _ => {}
        }
        if alts.is_empty() {
            continue;
        }
        tried += 1;
        if tried > 40 {
            break;
        }
        for (what, t, n) in alts {
            let mut b = o.buf.clone();
            b.splice(at..at + n, t);
            // enough data for anything that might follow
            b.extend(std::iter::repeat(0).take(64));
            match caught(|| dec(e, ver, &mut Rd::new(&b))) {
                Ok(Ok(d)) => {
                    fail!(format!("accepted:{}", what.split(|x: char| x.is_ascii_digit()).next().unwrap_or("").trim()), "{} v{ver}: {what} at byte {} was accepted as {}", e.name, s.off, short(&d.to_val()))
                }
                Ok(Err(_)) => {}
                Err(p) => fail!(format!("panic:{}", what.split(|x: char| x.is_ascii_digit()).next().unwrap_or("").trim()), "{} v{ver}: {what} at byte {}: panicked: {} at {}", e.name, s.off, p.msg, p.loc),
            }
            c.obs("forbidden values tried", 1);
            c.obs(&format!("forbidden:{:?}", s.kind), 1);
        }
        c.seen(e.name, &[&o.buf[..], &s.off.to_le_bytes()[..]].concat());
    }
    c.sample(|| format!("{} v{ver}: {tried} places of {}", e.name, hx(&o.buf)));
    Ok(())
}

/// whatever is accepted re-encodes to bytes that decode to the same value
fn stable(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.v1 || e.v2);
    let ver = ver_of(c, e);
    let v = gen(e, &mut c.r);
    let o = reference(e, &v, ver);
    for _ in 0..6 {
        let b = mutate(&o, &mut c.r);
        let d = match caught(|| dec(e, ver, &mut Rd::new(&b))) {
            Ok(Ok(d)) => d,
            _ => {
                c.obs("refused", 1);
                continue;
            }
        };
        c.obs("accepted", 1);
        let v1 = d.to_val();
        let again = match caught(|| enc_vec(&*d, ver)) {
            Ok(Ok(x)) => x,
            Ok(Err(x)) => fail!("reencode", "{} v{ver}: an accepted value does not encode: {x}: {}", e.name, hx(&b)),
            Err(p) => fail!("reencode", "{} v{ver}: encoding an accepted value panicked: {}: {}", e.name, p.msg, hx(&b)),
        };
        let mut rd = Rd::new(&again);
        match caught(|| dec(e, ver, &mut rd)) {
            Ok(Ok(d2)) => {
                let v2 = d2.to_val();
                ensure!(v1 == v2 && d.same(&*d2), "unstable", "{} v{ver}: accepted {} as {}, which re-encodes and decodes to something else: {}", e.name, hx(&b), short(&v1), vdiff(&v1, &v2));
                ensure!(rd.pos == again.len(), "unstable-length", "{} v{ver}: re-encoding has {} bytes, {} are consumed", e.name, again.len(), rd.pos);
            }
            Ok(Err(x)) => fail!("undecodable", "{} v{ver}: accepted {}, but its re-encoding is refused: {x}", e.name, hx(&b)),
            Err(p) => fail!("undecodable", "{} v{ver}: decoding the re-encoding panicked: {}", e.name, p.msg),
        }
        c.seen(e.name, &b);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let std: &[&str] = &["the reference encodings in harness/model follow the Sia specification", "field lists of the types under test are complete (a missing field does not compile)"];
    vec![
        Prop {
            id: "C01",
            rule: "one to four generated values of any v2 types are encoded one after another and read back through a scripted reader; distinct by the bytes written (more than 8 bytes)",
            monitors: vec![Monitor { name: "roundtrip", weight: 12, f: rt2 }, Monitor { name: "deep", weight: 1, f: deep_policy }, Monitor { name: "huge", weight: 1, f: huge2 }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("values round-tripped", 2000), ("type:v2::Transaction", 20), ("deep policies", 20), ("values with huge lists", 2)],
            assumptions: std,
        },
        Prop {
            id: "C02",
            rule: "one to four generated values of any v1 types are encoded one after another and read back through a scripted reader; distinct by the bytes written (more than 8 bytes)",
            monitors: vec![Monitor { name: "roundtrip", weight: 13, f: rt1 }, Monitor { name: "huge", weight: 1, f: huge1 }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("values round-tripped", 2000), ("type:v1::Transaction", 20), ("type:Block", 20), ("values with huge lists", 2)],
            assumptions: std,
        },
        Prop {
            id: "C03",
            rule: "generated values compared with an independent v2 encoder byte for byte, and decoded from its bytes; distinct by those bytes (more than one format element)",
            monitors: vec![Monitor { name: "format", weight: 11, f: format2 }, Monitor { name: "bitmap", weight: 2, f: bitmap }, Monitor { name: "huge", weight: 1, f: huge2_ref }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("encodings compared", 2000), ("presence combinations", 100), ("values with huge lists", 2)],
            assumptions: std,
        },
        Prop {
            id: "C04",
            rule: "generated values compared with an independent v1 encoder byte for byte, and decoded from its bytes; distinct by those bytes (more than one format element)",
            monitors: vec![Monitor { name: "format", weight: 13, f: format1 }, Monitor { name: "huge", weight: 1, f: huge1_ref }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("encodings compared", 2000), ("signature-less encodings", 50), ("values with huge lists", 2)],
            assumptions: std,
        },
        Prop {
            id: "C05",
            rule: "random, mutated, length-inflated and deeply nested inputs decoded in a 2 MiB thread under a counting allocator; distinct by type and consumed bytes of inputs that were accepted or refused midway",
            monitors: vec![
                Monitor { name: "random", weight: 4, f: fuzz_random },
                Monitor { name: "mutated", weight: 8, f: fuzz_mutated },
                Monitor { name: "lengths", weight: 3, f: lengths },
                Monitor { name: "bombs", weight: 2, f: bombs },
            ],
            quick_ms: 20_000,
            thorough_ms: 240_000,
            must: &[("v1 inputs", 1000), ("v2 inputs", 1000), ("accepted", 500), ("refused", 500), ("nesting bombs", 20), ("inflated lengths", 500)],
            assumptions: &["memory bound: 16 MiB + 128 bytes per input byte", "a case that uses 60 s of CPU alone counts as looping"],
        },
        Prop {
            id: "C06",
            rule: "prefixes, trailing data, reader fragmentation and reader faults applied to reference encodings; distinct by encoding",
            monitors: vec![
                Monitor { name: "truncation", weight: 3, f: truncation },
                Monitor { name: "trailing", weight: 3, f: trailing },
                Monitor { name: "fragmentation", weight: 3, f: fragmentation },
                Monitor { name: "read_errors", weight: 3, f: read_errors },
            ],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("truncations", 5000), ("trailing data", 200), ("inputs fragmented", 200), ("read errors injected", 2000)],
            assumptions: std,
        },
        Prop {
            id: "C07",
            rule: "writers that fail at every byte (or at field boundaries of long encodings) in three ways, slow and interrupted writers, the same under JSON and CBOR serialization, and values outside the format; distinct by encoding",
            monitors: vec![
                Monitor { name: "faults", weight: 4, f: write_faults },
                Monitor { name: "partial", weight: 1, f: write_faults_partial },
                Monitor { name: "slow", weight: 3, f: slow_writers },
                Monitor { name: "serialize", weight: 2, f: serialize_faults },
                Monitor { name: "unrepresentable", weight: 1, f: unrepresentable },
            ],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("write faults injected", 5000), ("slow writes", 1000), ("representable values", 20), ("faults in serialization", 5000)],
            assumptions: std,
        },
        Prop {
            id: "C08",
            rule: "every format element that has forbidden values is replaced by such values, and mutated inputs that are accepted are re-encoded and decoded again; distinct by encoding and place",
            monitors: vec![Monitor { name: "forbidden", weight: 3, f: forbidden }, Monitor { name: "stable", weight: 3, f: stable }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[
                ("forbidden values tried", 5000),
                ("accepted", 500),
                ("forbidden:Bool", 50),
                ("forbidden:Op", 50),
                ("forbidden:Version", 50),
                ("forbidden:Tag", 20),
                ("forbidden:Utf8", 20),
                ("forbidden:Cur1", 50),
                ("forbidden:SfValue", 20),
                ("forbidden:Time", 50),
                ("forbidden:Dur", 20),
            ],
            assumptions: std,
        },
    ]
}
