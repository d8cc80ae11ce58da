//! C32: the derive macros, watched by fields that report when they are encoded and decoded.
use super::shapes::SHAPES;
use super::util::*;
use crate::eng::*;
use crate::io::*;
use crate::{ensure, fail};
use model::rng::Rng;
use sia::encoding::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{ErrorKind, Read, Write};

/// identity of a reporting field and its bytes, in order of declaration
pub type Leaves = Vec<(Option<usize>, Vec<u8>)>;

pub trait Part: Sized {
    fn make(rng: &mut Rng) -> Self;
    fn leaves(&self, ver: u8, out: &mut Leaves);
}

#[derive(Default)]
struct Log {
    events: Vec<(usize, u8, bool)>,
    fail_at: Option<usize>,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}
fn event(k: usize, ver: u8, enc: bool) -> Result<()> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.events.push((k, ver, enc));
        if l.events.len() > 100_000 {
            panic!("VIOLATION: a field is handled without end");
        }
        if l.fail_at == Some(l.events.len() - 1) {
            let n = l.events.len() - 1;
            return Err(Error::Custom(format!("field refused at event {n}")));
        }
        Ok(())
    })
}
fn start(fail_at: Option<usize>) {
    LOG.with(|l| *l.borrow_mut() = Log { events: vec![], fail_at });
}
fn events() -> Vec<(usize, u8, bool)> {
    LOG.with(|l| std::mem::take(&mut l.borrow_mut().events))
}

/// a field with its own encodings, different in the two versions
#[derive(Debug, PartialEq)]
pub struct Spy<const K: usize>(Vec<u8>);
impl<const K: usize> Spy<K> {
    fn bytes(&self, ver: u8) -> Vec<u8> {
        let mut b = vec![K as u8 ^ (ver * 0x55), self.0.len() as u8];
        b.extend_from_slice(&self.0);
        b
    }
    fn put<W: Write>(&self, w: &mut W, ver: u8) -> Result<()> {
        event(K, ver, true)?;
        w.write_all(&self.bytes(ver))?;
        Ok(())
    }
    fn get<R: Read>(r: &mut R, ver: u8) -> Result<Self> {
        event(K, ver, false)?;
        let mut h = [0; 2];
        r.read_exact(&mut h)?;
        if h[0] != K as u8 ^ (ver * 0x55) {
            return Err(Error::Custom(format!("field {K} found foreign bytes")));
        }
        let mut b = vec![0; h[1] as usize];
        r.read_exact(&mut b)?;
        Ok(Spy(b))
    }
}
impl<const K: usize> SiaEncodable for Spy<K> {
    fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
        self.put(w, 2)
    }
}
impl<const K: usize> SiaDecodable for Spy<K> {
    fn decode<R: Read>(r: &mut R) -> Result<Self> {
        Self::get(r, 2)
    }
}
impl<const K: usize> V1SiaEncodable for Spy<K> {
    fn encode_v1<W: Write>(&self, w: &mut W) -> Result<()> {
        self.put(w, 1)
    }
}
impl<const K: usize> V1SiaDecodable for Spy<K> {
    fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
        Self::get(r, 1)
    }
}
impl<const K: usize> Part for Spy<K> {
    fn make(rng: &mut Rng) -> Self {
        let n = rng.below(6);
        Spy(rng.bytes(n))
    }
    fn leaves(&self, ver: u8, out: &mut Leaves) {
        out.push((Some(K), self.bytes(ver)));
    }
}

/// a field without bytes
#[derive(Debug, PartialEq)]
pub struct Nil<const K: usize>;
impl<const K: usize> SiaEncodable for Nil<K> {
    fn encode<W: Write>(&self, _: &mut W) -> Result<()> {
        event(K, 2, true)
    }
}
impl<const K: usize> SiaDecodable for Nil<K> {
    fn decode<R: Read>(_: &mut R) -> Result<Self> {
        event(K, 2, false).map(|_| Nil)
    }
}
impl<const K: usize> V1SiaEncodable for Nil<K> {
    fn encode_v1<W: Write>(&self, _: &mut W) -> Result<()> {
        event(K, 1, true)
    }
}
impl<const K: usize> V1SiaDecodable for Nil<K> {
    fn decode_v1<R: Read>(_: &mut R) -> Result<Self> {
        event(K, 1, false).map(|_| Nil)
    }
}
impl<const K: usize> Part for Nil<K> {
    fn make(_: &mut Rng) -> Self {
        Nil
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((Some(K), vec![]));
    }
}

impl Part for u8 {
    fn make(rng: &mut Rng) -> Self {
        rng.u64() as u8
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((None, vec![*self]));
    }
}
impl Part for bool {
    fn make(rng: &mut Rng) -> Self {
        rng.bool()
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((None, vec![*self as u8]));
    }
}
impl Part for u64 {
    fn make(rng: &mut Rng) -> Self {
        rng.n64()
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((None, self.to_le_bytes().to_vec()));
    }
}
impl<const N: usize> Part for [u8; N] {
    fn make(rng: &mut Rng) -> Self {
        rng.bytes(N).try_into().unwrap()
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((None, self.to_vec()));
    }
}
impl Part for String {
    fn make(rng: &mut Rng) -> Self {
        rng.string(12)
    }
    fn leaves(&self, _: u8, out: &mut Leaves) {
        out.push((None, (self.len() as u64).to_le_bytes().to_vec()));
        out.push((None, self.as_bytes().to_vec()));
    }
}
impl<T: Part> Part for Vec<T> {
    fn make(rng: &mut Rng) -> Self {
        (0..rng.below(4)).map(|_| T::make(rng)).collect()
    }
    fn leaves(&self, ver: u8, out: &mut Leaves) {
        out.push((None, (self.len() as u64).to_le_bytes().to_vec()));
        for x in self {
            x.leaves(ver, out);
        }
    }
}
impl<T: Part> Part for Option<T> {
    fn make(rng: &mut Rng) -> Self {
        rng.bool().then(|| T::make(rng))
    }
    fn leaves(&self, ver: u8, out: &mut Leaves) {
        out.push((None, vec![self.is_some() as u8]));
        if let Some(x) = self {
            x.leaves(ver, out);
        }
    }
}

fn names(l: &[(usize, u8, bool)]) -> String {
    l.iter().map(|(k, v, e)| format!("{}{k}v{v}", if *e { "e" } else { "d" })).collect::<Vec<_>>().join(" ")
}

pub fn check<T>(c: &mut Ctx, name: &'static str) -> Res
where
    T: Part + Debug + PartialEq + SiaEncodable + SiaDecodable + V1SiaEncodable + V1SiaDecodable,
{
    let x = T::make(&mut c.r);
    for ver in [1u8, 2] {
        let enc = |w: &mut Wr| if ver == 1 { x.encode_v1(w) } else { x.encode(w) };
        let dec = |r: &mut Rd| if ver == 1 { T::decode_v1(r) } else { T::decode(r) };
        let run_e = |fail: Option<usize>, w: &mut Wr| {
            start(fail);
            let r = caught(|| enc(w)).map_err(|p| Fail { key: format!("panic:{name}"), msg: format!("encoding {name} v{ver} panicked: {}", p.msg) })?;
            Ok::<_, Fail>((r.map_err(|e| e.to_string()), events()))
        };
        let run_d = |fail: Option<usize>, r: &mut Rd| {
            start(fail);
            let g = caught(|| dec(r)).map_err(|p| Fail { key: format!("panic:{name}"), msg: format!("decoding {name} v{ver} panicked: {}", p.msg) })?;
            Ok::<_, Fail>((g.map_err(|e| e.to_string()), events()))
        };
        let mut leaves: Leaves = vec![];
        x.leaves(ver, &mut leaves);
        let bytes: Vec<u8> = leaves.iter().flat_map(|l| l.1.clone()).collect();
        // position of each leaf, and the reporting ones
        let mut at = vec![];
        let mut pos = 0;
        for l in &leaves {
            at.push(pos);
            pos += l.1.len();
        }
        let spies: Vec<(usize, usize)> = leaves.iter().enumerate().filter_map(|(i, l)| l.0.map(|k| (i, k))).collect();
        let want = |e: bool, n: usize| -> Vec<(usize, u8, bool)> { spies[..n].iter().map(|(_, k)| (*k, ver, e)).collect() };
        let chunks = *c.r.pick(&[Chunks::Full, Chunks::One, Chunks::Random]);

        let mut w = Wr::new(chunks, c.r.clone());
        let (r, ev) = run_e(None, &mut w)?;
        ensure!(r.is_ok(), "encode", "{name} v{ver}: encoding fails: {}", r.unwrap_err());
        ensure!(ev == want(true, spies.len()), "order", "{name} v{ver}: fields encoded {} instead of {}", names(&ev), names(&want(true, spies.len())));
        ensure!(w.buf == bytes, "bytes", "{name} v{ver}: encoded {} instead of {} for {}", hx(&w.buf), hx(&bytes), short(&x));

        let mut tail = bytes.clone();
        let extra = c.r.below(20);
        tail.extend(c.r.bytes(extra));
        let mut rd = Rd::chunked(&tail, chunks, c.r.clone());
        let (g, ev) = run_d(None, &mut rd)?;
        match g {
            Ok(g) => ensure!(g == x, "decode", "{name} v{ver}: decoded {} instead of {}", short(&g), short(&x)),
            Err(e) => fail!("decode", "{name} v{ver}: decoding fails: {e} after {}", names(&ev)),
        }
        ensure!(rd.pos == bytes.len(), "consumed", "{name} v{ver}: decoding takes {} bytes instead of {}", rd.pos, bytes.len());
        ensure!(ev == want(false, spies.len()), "order", "{name} v{ver}: fields decoded {} instead of {}", names(&ev), names(&want(false, spies.len())));
        c.obs("structs", 1);
        c.obs("fields reported", 2 * spies.len() as u64);
        c.seen(name, &bytes);

        // a field refuses
        for _ in 0..2 {
            if spies.is_empty() {
                break;
            }
            let j = match c.r.below(4) {
                0 => 0,
                1 => spies.len() - 1,
                _ => c.r.below(spies.len()),
            };
            let msg = format!("Custom error: field refused at event {j}");
            let mut w = Wr::new(Chunks::Full, c.r.clone());
            let (r, ev) = run_e(Some(j), &mut w)?;
            ensure!(r == Err(msg.clone()), "lost", "{name} v{ver}: error of field {j} becomes {r:?} while encoding");
            ensure!(ev == want(true, j + 1), "after", "{name} v{ver}: after the error of field {j}: {}", names(&ev));
            ensure!(w.buf == bytes[..at[spies[j].0]], "after", "{name} v{ver}: {} bytes written although field {j} at {} refused", w.buf.len(), at[spies[j].0]);
            let mut rd = Rd::new(&tail);
            let (g, ev) = run_d(Some(j), &mut rd)?;
            match g {
                Ok(g) => fail!("lost", "{name} v{ver}: error of field {j} is lost while decoding: {}", short(&g)),
                Err(e) => ensure!(e == msg, "lost", "{name} v{ver}: error of field {j} becomes {e} while decoding"),
            }
            ensure!(ev == want(false, j + 1), "after", "{name} v{ver}: after the error of field {j}: {}", names(&ev));
            ensure!(rd.pos == at[spies[j].0], "after", "{name} v{ver}: {} bytes read although field {j} at {} refused", rd.pos, at[spies[j].0]);
            c.obs("refusing fields", 2);
        }

        // the destination or the source fails
        for _ in 0..2 {
            if bytes.is_empty() {
                break;
            }
            let k = c.r.below(bytes.len());
            // the leaf that meets the fault, and the reporting fields up to it
            let li = (0..leaves.len()).find(|&i| at[i] <= k && k < at[i] + leaves[i].1.len()).unwrap();
            let n = spies.iter().filter(|(i, _)| *i <= li).count();
            for f in [WFault::Once, WFault::Always, WFault::Full] {
                let mut w = Wr::failing(k, f);
                let (r, ev) = run_e(None, &mut w)?;
                ensure!(r.is_err(), "lost", "{name} v{ver}: a write failing at byte {k} is lost");
                ensure!(w.buf == bytes[..k], "after", "{name} v{ver}: {} bytes written although byte {k} failed", w.buf.len());
                ensure!(ev == want(true, n), "after", "{name} v{ver}: with byte {k} failing, fields encoded {} instead of {}", names(&ev), names(&want(true, n)));
            }
            let mut rd = if c.r.bool() {
                Rd::new(&bytes[..k])
            } else {
                let mut rd = Rd::new(&bytes);
                rd.fault = Some((k, ErrorKind::Other));
                rd
            };
            let (g, ev) = run_d(None, &mut rd)?;
            ensure!(g.is_err(), "lost", "{name} v{ver}: a source failing at byte {k} gives a value");
            ensure!(rd.pos <= k, "after", "{name} v{ver}: read beyond the fault");
            ensure!(ev == want(false, n), "after", "{name} v{ver}: with byte {k} missing, fields decoded {} instead of {}", names(&ev), names(&want(false, n)));
            c.obs("failing streams", 4);
        }
    }
    Ok(())
}

fn shapes(c: &mut Ctx) -> Res {
    let (name, f) = SHAPES[(c.idx as usize * 7 + c.r.below(3)) % SHAPES.len()];
    c.obs(&format!("shape:{name}"), 1);
    c.sample(|| format!("struct {name}"));
    f(c, name)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "structs of 58 shapes (unit, tuple, named, nested, up to 70 fields, fields without bytes, awkward names) with random content, refusing fields and failing streams at every position; distinct by shape and bytes",
        monitors: vec![Monitor { name: "shapes", weight: 1, f: shapes }],
        quick_ms: 12_000,
        thorough_ms: 60_000,
        must: &[("structs", 10_000), ("fields reported", 100_000), ("refusing fields", 10_000), ("failing streams", 10_000), ("shape:Unit", 20), ("shape:EmptyNamed", 20), ("shape:Nils", 20), ("shape:SNamed70", 20), ("shape:STuple70", 20)],
        assumptions: &["shapes are those of tools/gen_shapes.py; generic structs and non-public named fields are outside the property"],
    }]
}
