//! C24–C26: sector roots, signatures, seeds.
use crate::eng::*;
use crate::{ensure, fail};
use model::blake::{blake2b256, concat256};
use model::ed;
use model::refhash as rh;
use model::rng::Rng;
use model::sha::sha256;
use num_bigint::BigUint;
use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::v1::UnlockKey;
use sia::types::Hash256;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Barrier, OnceLock};

type H = [u8; 32];

fn must<T>(key: &str, what: impl std::fmt::Display, f: impl FnOnce() -> T) -> Result<T, Fail> {
    caught(f).map_err(|p| Fail { key: format!("panic:{key}"), msg: format!("{what}: panicked: {} at {}", p.msg, p.loc) })
}
fn h32(r: &mut Rng) -> H {
    r.fixed(32).try_into().unwrap()
}
fn rand32(r: &mut Rng) -> H {
    r.bytes(32).try_into().unwrap()
}

// ---------------------------------------------------------------------------------------------
// C24

const SECTOR: usize = 1 << 22;
const LEAVES: usize = SECTOR / 64;

/// a sector with the full reference tree, so that changes are cheap to follow
struct Tree {
    data: Vec<u8>,
    levels: Vec<Vec<H>>,
}
impl Tree {
    fn new(data: Vec<u8>) -> Tree {
        let mut memo: HashMap<&[u8], H> = HashMap::new();
        let first: Vec<H> = data.chunks(64).map(|c| *memo.entry(c).or_insert_with(|| rh::leaf(c))).collect();
        drop(memo);
        let mut levels = vec![first];
        while levels.last().unwrap().len() > 1 {
            let mut memo: HashMap<(H, H), H> = HashMap::new();
            let next = levels.last().unwrap().chunks(2).map(|p| *memo.entry((p[0], p[1])).or_insert_with(|| rh::node(&p[0], &p[1]))).collect();
            levels.push(next);
        }
        Tree { data, levels }
    }
    fn root(&self) -> H {
        self.levels.last().unwrap()[0]
    }
    fn update(&mut self, leaf: usize) {
        self.levels[0][leaf] = rh::leaf(&self.data[leaf * 64..leaf * 64 + 64]);
        let mut i = leaf;
        for l in 1..self.levels.len() {
            i /= 2;
            self.levels[l][i] = rh::node(&self.levels[l - 1][2 * i], &self.levels[l - 1][2 * i + 1]);
        }
    }
}

fn content(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut d = vec![0u8; SECTOR];
    match r.below(6) {
        0 => ("zero", d),
        1 => {
            for c in d.chunks_mut(8) {
                c.copy_from_slice(&r.u64().to_le_bytes());
            }
            ("random", d)
        }
        2 => {
            // every segment names its position
            for (i, c) in d.chunks_mut(64).enumerate() {
                c[..8].copy_from_slice(&(i as u64).to_le_bytes());
            }
            ("numbered", d)
        }
        3 => {
            // a few different segments
            let k: Vec<Vec<u8>> = (0..2 + r.below(7)).map(|_| r.bytes(64)).collect();
            for c in d.chunks_mut(64) {
                c.copy_from_slice(&k[(r.u64() % k.len() as u64) as usize]);
            }
            ("repetitive", d)
        }
        4 => {
            d.fill(0xff);
            ("ones", d)
        }
        _ => {
            // one long run of data
            let n = r.below(SECTOR);
            for c in d[..n].chunks_mut(8) {
                let x = r.u64().to_le_bytes();
                c.copy_from_slice(&x[..c.len()]);
            }
            ("prefix", d)
        }
    }
}

fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<std::sync::Mutex<BTreeMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut m = P.get_or_init(Default::default).lock().unwrap();
    m.entry(n).or_insert_with(|| Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("MONITOR: thread pool"))))
}

fn root(d: &[u8]) -> Result<H, Panicked> {
    caught(|| AsRef::<[u8; 32]>::as_ref(&sector_root(d)).to_owned())
}

fn sector(c: &mut Ctx) -> Res {
    ensure!(SECTOR_SIZE == SECTOR && SEGMENT_SIZE == 64, "size", "sector of {SECTOR_SIZE} bytes with segments of {SEGMENT_SIZE}");
    let (kind, data) = content(&mut c.r);
    let mut t = Tree::new(data);
    let steps = 12;
    for k in 0..steps {
        let mut what = kind.to_string();
        if k > 0 {
            match c.r.below(4) {
                0 => {
                    // exchange two segments
                    let (i, j) = (c.r.below(LEAVES), if c.r.bool() { c.r.below(LEAVES) } else { usize::MAX });
                    let j = if j == usize::MAX { i ^ (1 << c.r.below(16)) } else { j };
                    for x in 0..64 {
                        t.data.swap(i * 64 + x, j * 64 + x);
                    }
                    t.update(i);
                    t.update(j);
                    what += &format!(", segments {i} and {j} exchanged");
                }
                1 => {
                    // one bit at an edge
                    let at = match c.r.below(4) {
                        0 => 0,
                        1 => SECTOR - 1,
                        2 => (1usize << c.r.below(22)) - 1,
                        _ => 1usize << c.r.below(22),
                    };
                    t.data[at] ^= 1 << c.r.below(8);
                    t.update(at / 64);
                    what += &format!(", bit of byte {at} changed");
                }
                _ => {
                    let at = c.r.below(SECTOR);
                    t.data[at] ^= 1 << c.r.below(8);
                    t.update(at / 64);
                    what += &format!(", bit of byte {at} changed");
                }
            }
        }
        let want = t.root();
        let n = *c.r.pick(&[1usize, 1, 2, 3, 4, 5, 7, 8, 8, 13, 16, 24, 32]);
        let (how, got) = match c.r.below(6) {
            0 => ("global pool".to_string(), root(&t.data)),
            1 => (format!("outside pool of {n}, nested"), pool(n).install(|| rayon::join(|| root(&t.data), || std::thread::yield_now()).0)),
            2 => {
                // unaligned memory
                let off = 1 + c.r.below(63);
                let mut d = vec![0xa5u8; SECTOR + 128];
                d[off..off + SECTOR].copy_from_slice(&t.data);
                (format!("pool of {n}, offset {off}"), pool(n).install(|| root(&d[off..off + SECTOR])))
            }
            _ => (format!("pool of {n}"), pool(n).install(|| root(&t.data))),
        };
        match got {
            Ok(g) => ensure!(g == want, "root", "root of {what} in {how} is {} instead of {}", hex::encode(g), hex::encode(want)),
            Err(p) => fail!("panic", "root of {what} in {how} panicked: {} at {}", p.msg, p.loc),
        }
        c.obs("roots", 1);
        c.obs(&format!("threads:{n}"), 1);
        c.seen("sector", &want);
    }
    c.obs(&format!("content:{kind}"), 1);
    c.sample(|| format!("{kind} sector: {}", hex::encode(t.root())));
    Ok(())
}

/// simultaneous computations over different and shared sectors in one and in several pools
fn parallel(c: &mut Ctx) -> Res {
    let n = 2 + c.r.below(5);
    let size = *c.r.pick(&[1usize, 2, 3, 4, 8]);
    let mut trees: Vec<Arc<Tree>> = vec![];
    for i in 0..n {
        if i > 0 && c.r.one_in(3) {
            let t = trees[c.r.below(i)].clone();
            trees.push(t);
        } else {
            trees.push(Arc::new(Tree::new(content(&mut c.r).1)));
        }
    }
    let shared = c.r.bool();
    let bar = Arc::new(Barrier::new(n));
    let noise = c.r.bool();
    let rounds = 3;
    let res: Vec<Result<(usize, u64), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = trees
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let bar = bar.clone();
                s.spawn(move || {
                    bar.wait();
                    let mut cnt = 0;
                    for k in 0..rounds {
                        if noise {
                            // work that competes for the same pool
                            pool(size).spawn(|| {
                                let mut x = 0u64;
                                for i in 0..200_000u64 {
                                    x = x.wrapping_mul(31).wrapping_add(i);
                                }
                                std::hint::black_box(x);
                            });
                        }
                        let g = if shared { pool(size).install(|| root(&t.data)) } else if i % 2 == 0 { root(&t.data) } else { pool(size + i).install(|| root(&t.data)) };
                        match g {
                            Ok(g) if g == t.root() => cnt += 1,
                            Ok(g) => fail!("parallel", "round {k}: root {} instead of {} among {n} simultaneous computations", hex::encode(g), hex::encode(t.root())),
                            Err(p) => fail!("panic", "round {k}: simultaneous computation panicked: {} at {}", p.msg, p.loc),
                        }
                    }
                    Ok((i, cnt))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("MONITOR: thread panicked"))).collect()
    });
    for r in res {
        let (_, k) = r?;
        c.obs("simultaneous roots", k);
    }
    c.obs(&format!("simultaneous:{n}"), 1);
    for t in &trees {
        c.seen("sector", &t.root());
    }
    Ok(())
}

fn lengths(c: &mut Ctx) -> Res {
    let n = match c.r.below(12) {
        0 => 0,
        1 => SECTOR - 1,
        2 => SECTOR + 1,
        3 => SECTOR - 64,
        4 => SECTOR + 64,
        5 => SECTOR * 2,
        6 => SECTOR / 2,
        7 => 1usize << c.r.below(22),
        8 => 64 * c.r.below(LEAVES),
        9 => SECTOR + 256 * (1 + c.r.below(40)),
        10 => SECTOR - 256 * (1 + c.r.below(40)),
        _ => c.r.below(SECTOR * 2),
    };
    if n == SECTOR {
        return Ok(());
    }
    let d = vec![1u8; n];
    let r = root(&d);
    ensure!(r.is_err(), "length", "data of {n} bytes is accepted as a sector, root {}", hex::encode(r.unwrap()));
    c.obs("wrong lengths refused", 1);
    c.seen("length", &n.to_le_bytes());
    // and the next computation is not affected
    if c.r.one_in(4) {
        static Z: OnceLock<Tree> = OnceLock::new();
        let z = Z.get_or_init(|| Tree::new(vec![0; SECTOR]));
        match root(&z.data) {
            Ok(g) => ensure!(g == z.root(), "after", "root of zeros after a refused length is {}", hex::encode(g)),
            Err(p) => fail!("after", "root of zeros after a refused length panicked: {}", p.msg),
        }
        c.obs("roots after a refusal", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C25

fn verify(c: &mut Ctx, kind: &str, pk: &H, msg: &H, sig: &[u8; 64]) -> Result<bool, Fail> {
    let want = ed::verify(pk, msg, sig);
    let key = PublicKey::new(*pk);
    let s = Signature::new(*sig);
    let h = Hash256::from(*msg);
    let got = must("verify", format!("{kind}: verifying with key {}, hash {}, signature {}", hex::encode(pk), hex::encode(msg), hex::encode(sig)), || key.verify(&h, &s))?;
    ensure!(
        got == want,
        format!("verify:{}", if want { "refused" } else { "accepted" }),
        "{kind}: key {}, hash {}, signature {} verifies as {got}, the equation says {want}",
        hex::encode(pk),
        hex::encode(msg),
        hex::encode(sig)
    );
    c.obs(&format!("{kind}: {}", if want { "accepted" } else { "refused" }), 1);
    c.obs("verifications", 1);
    let mut all = pk.to_vec();
    all.extend_from_slice(sig);
    c.seen(kind, &all);
    Ok(got)
}

fn sign(c: &mut Ctx) -> Res {
    let seed = h32(&mut c.r);
    let msg = h32(&mut c.r);
    let pk = ed::public(&seed);
    let h = Hash256::from(msg);
    let key = must("from_seed", "from_seed", || PrivateKey::from_seed(&seed))?;
    let mut full = seed.to_vec();
    full.extend_from_slice(&pk);
    ensure!(key.as_bytes() == full, "private", "private key of seed {} is {}", hex::encode(seed), hex::encode(key.as_bytes()));
    let public = must("public_key", "public_key", || key.public_key())?;
    ensure!(AsRef::<[u8]>::as_ref(&public) == pk, "public", "public key of seed {} is {public} instead of {}", hex::encode(seed), hex::encode(pk));
    let want = ed::sign(&seed, &pk, &msg);
    let sig = must("sign", "sign_hash", || key.sign_hash(&h))?;
    ensure!(sig.data() == want, "sign", "signature of {} by seed {} is {sig} instead of {}", hex::encode(msg), hex::encode(seed), hex::encode(want));
    // the same key through every conversion
    let again: [(&str, PrivateKey); 3] = [
        ("From<[u8; 64]>", PrivateKey::from(<[u8; 64]>::try_from(&full[..]).unwrap())),
        ("From<Hash256>", PrivateKey::from(Hash256::from(seed))),
        ("clone", key.clone()),
    ];
    for (n, k) in &again {
        ensure!(k.as_bytes() == full && *k == key, "conversion", "{n} changes the private key to {}", hex::encode(k.as_bytes()));
        ensure!(must("sign", "sign_hash", || k.sign_hash(&h))? == sig, "repeat", "signature by the key from {n} differs");
        ensure!(k.public_key() == public, "conversion", "{n} changes the public key");
    }
    let uk: UnlockKey = public.into();
    ensure!(uk.key == pk && uk.algorithm.as_bytes() == &rh::specifier("ed25519"), "unlock", "unlock key of {} is {uk}", hex::encode(pk));
    let sa: [u8; 64] = *AsRef::<[u8; 64]>::as_ref(&sig);
    ensure!(sa == want && Signature::from(sa) == sig && Signature::parse_string(&sig.to_string()) == Ok(sig.clone()), "conversion", "signature conversions change {sig}");
    ensure!(PublicKey::new(pk) == public && public.to_string() == format!("ed25519:{}", hex::encode(pk)), "conversion", "public key conversions change {public}");
    ensure!(must("verify", "verify", || public.verify(&h, &sig))?, "own", "own signature {sig} of {} under {public} does not verify", hex::encode(msg));
    c.obs("signatures", 1);
    c.obs("conversions", 6);
    verify(c, "honest", &pk, &msg, &want)?;
    // changed bits, wrong keys, wrong hashes
    for _ in 0..3 {
        let (mut p2, mut m2, mut s2) = (pk, msg, want);
        let n = 1 + c.r.one_in(6) as usize;
        for _ in 0..n {
            match c.r.below(3) {
                0 => p2[c.r.below(32)] ^= 1 << c.r.below(8),
                1 => m2[c.r.below(32)] ^= 1 << c.r.below(8),
                _ => s2[c.r.below(64)] ^= 1 << c.r.below(8),
            }
        }
        if (p2, m2, s2) == (pk, msg, want) {
            continue;
        }
        let ok = verify(c, "changed bits", &p2, &m2, &s2)?;
        ensure!(!ok, "forged", "signature still verifies after changing bits");
    }
    c.sample(|| format!("seed {} signs {}", hex::encode(seed), hex::encode(msg)));
    Ok(())
}

/// signatures and keys off the beaten track, decided by the equation
fn odd(c: &mut Ctx) -> Res {
    let msg = rand32(&mut c.r);
    let seed = rand32(&mut c.r);
    let a = ed::secret_scalar(&seed);
    let l = ed::order();
    let t = ed::torsion();
    let challenge = |rb: &H, pk: &H| BigUint::from_bytes_le(&model::sha::sha512(&[rb, pk, &msg])) % &l;
    let join = |rb: &H, s: &BigUint| {
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(rb);
        o[32..].copy_from_slice(&ed::scalar_bytes(s));
        o
    };
    match c.r.below(9) {
        0 => {
            // not canonical S: same residue, more than the order
            let pk = ed::public(&seed);
            let sig = ed::sign(&seed, &pk, &msg);
            let s = ed::scalar(&sig[32..]);
            let k = 1 + c.r.below(14) as u32;
            let s2 = s + &l * k;
            let ok = verify(c, "large S", &pk, &msg, &join(&sig[..32].try_into().unwrap(), &s2))?;
            ensure!(!ok, "large S", "S above the group order is accepted");
        }
        1 => {
            // keys with a component of small order: accepted or not as the equation says
            let tp = t[1 + c.r.below(7)];
            let pk = ed::Pt::base().mul(&a).add(tp).bytes();
            let r = BigUint::from_bytes_le(&c.r.bytes(32)) % &l;
            let rb = ed::Pt::base().mul(&r).bytes();
            let s = (&r + challenge(&rb, &pk) * &a) % &l;
            verify(c, "mixed key", &pk, &msg, &join(&rb, &s))?;
        }
        2 => {
            // R with a component of small order: the equation without cofactor refuses it
            let pk = ed::public(&seed);
            let r = BigUint::from_bytes_le(&c.r.bytes(32)) % &l;
            let rb = ed::Pt::base().mul(&r).add(t[1 + c.r.below(7)]).bytes();
            let s = (&r + challenge(&rb, &pk) * &a) % &l;
            let ok = verify(c, "mixed R", &pk, &msg, &join(&rb, &s))?;
            ensure!(!ok, "mixed R", "signature that holds only up to the cofactor is accepted");
        }
        3 => {
            // keys of small order, with R = S·B + torsion
            let pk = t[c.r.below(8)].bytes();
            let s = if c.r.one_in(4) { BigUint::from(0u8) } else { BigUint::from_bytes_le(&c.r.bytes(32)) % &l };
            let rb = ed::Pt::base().mul(&s).add(t[c.r.below(8)]).bytes();
            verify(c, "small order", &pk, &msg, &join(&rb, &s))?;
        }
        4 => {
            // y written modulo p, and a sign on a zero x
            let mut pk = [0xffu8; 32];
            pk[0] = 0xed + c.r.below(19) as u8;
            pk[31] = if c.r.bool() { 0x7f } else { 0xff };
            if c.r.one_in(3) {
                pk = [0; 32];
                pk[0] = 1;
                pk[31] = 0x80;
            }
            let s = if c.r.bool() { BigUint::from(0u8) } else { BigUint::from_bytes_le(&c.r.bytes(32)) % &l };
            let mut rb = ed::Pt::base().mul(&s).add(t[c.r.below(8)]).bytes();
            if c.r.one_in(4) {
                rb = pk;
            }
            verify(c, "unusual encoding", &pk, &msg, &join(&rb, &s))?;
        }
        5 => {
            // R in an unusual encoding
            let pk = if c.r.bool() { ed::public(&seed) } else { t[c.r.below(8)].bytes() };
            let mut rb = [0xffu8; 32];
            rb[0] = 0xed + c.r.below(19) as u8;
            rb[31] = if c.r.bool() { 0x7f } else { 0xff };
            let s = challenge(&rb, &pk) * &a % &l;
            verify(c, "unusual R", &pk, &msg, &join(&rb, &s))?;
        }
        6 => {
            // random keys: about half of them are not points
            let pk = if c.r.bool() { rand32(&mut c.r) } else { h32(&mut c.r) };
            let mut sig = [0u8; 64];
            sig.copy_from_slice(&c.r.fixed(64));
            if c.r.bool() {
                sig[63] &= 0x0f;
            }
            let point = ed::Pt::decode(&pk).is_some();
            c.obs(if point { "keys that are points" } else { "keys that are not points" }, 1);
            verify(c, "random", &pk, &msg, &sig)?;
        }
        7 => {
            // somebody else's signature, hash or key
            let pk = ed::public(&seed);
            let other = rand32(&mut c.r);
            let opk = ed::public(&other);
            let sig = ed::sign(&seed, &pk, &msg);
            let osig = ed::sign(&other, &opk, &msg);
            let mut mix = sig;
            mix[32..].copy_from_slice(&osig[32..]);
            verify(c, "swapped", &opk, &msg, &sig)?;
            verify(c, "swapped", &pk, &msg, &osig)?;
            verify(c, "swapped", &pk, &msg, &mix)?;
            verify(c, "swapped", &opk, &msg, &osig)?;
        }
        _ => {
            // signatures by a private key whose halves do not belong together: the stored public
            // key is what it says, and signing uses the secret half
            let other = ed::public(&rand32(&mut c.r));
            let pk = ed::public(&seed);
            let mut full = [0u8; 64];
            full[..32].copy_from_slice(&seed);
            full[32..].copy_from_slice(&other);
            let k = PrivateKey::from(full);
            ensure!(k.as_bytes() == full && k.public_key() == PublicKey::new(other), "conversion", "private key bytes are changed");
            let sig = must("sign", "sign_hash", || k.sign_hash(&Hash256::from(msg)))?;
            // never a signature that could leak the secret: same nonce, different challenge
            let sig: [u8; 64] = *AsRef::<[u8; 64]>::as_ref(&sig);
            ensure!(sig == ed::sign(&seed, &pk, &msg), "mismatch", "signature by mismatched key halves is {}", hex::encode(sig));
            c.obs("mismatched halves", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C26

use super::erase::{phrase, words};
fn index() -> &'static HashMap<&'static str, u16> {
    static W: OnceLock<HashMap<&'static str, u16>> = OnceLock::new();
    W.get_or_init(|| words().iter().enumerate().map(|(i, w)| (*w, i as u16)).collect())
}
/// entropy of a valid 12-word phrase
fn entropy(w: &[&str]) -> Option<[u8; 16]> {
    if w.len() != 12 {
        return None;
    }
    let mut x = BigUint::from(0u8);
    for s in w {
        x = (x << 11u32) + *index().get(s)?;
    }
    let chk = (&x % 16u8).to_u32_digits().first().copied().unwrap_or(0) as u8;
    let mut b = (x >> 4u32).to_bytes_be();
    while b.len() < 16 {
        b.insert(0, 0);
    }
    let e: [u8; 16] = b.try_into().unwrap();
    if sha256(&e)[0] >> 4 != chk {
        return None;
    }
    Some(e)
}

fn seed16(r: &mut Rng) -> [u8; 16] {
    r.fixed(16).try_into().unwrap()
}

fn mnemonic(c: &mut Ctx) -> Res {
    let e = seed16(&mut c.r);
    let w = phrase(&e);
    let text = w.join(" ");
    let s = Seed::new(e);
    ensure!(s.as_bytes() == e, "bytes", "seed bytes are {}", hex::encode(s.as_bytes()));
    let g = must("to_mnemonic", "to_mnemonic", || s.to_mnemonic())?;
    ensure!(g == text, "phrase", "phrase of {} is {g:?} instead of {text:?}", hex::encode(e));
    let parse = |t: &str| must("from_mnemonic", format!("parsing {t:?}"), || Seed::from_mnemonic(t).map(|s| <[u8; 16]>::try_from(s.as_bytes()).unwrap()));
    match parse(&text)? {
        Ok(g) => ensure!(g == e, "parse", "phrase {text:?} is read as {}", hex::encode(g)),
        Err(x) => fail!("parse", "valid phrase {text:?} is refused: {x:?}"),
    }
    c.obs("phrases", 1);
    c.seen("phrase", &e);
    for _ in 0..6 {
        let mut w2 = w.clone();
        let owned: String;
        let what = match c.r.below(10) {
            0..=2 => {
                // another word of the list: the checksum decides
                let i = c.r.below(12);
                w2[i] = c.r.pick(words());
                "another word"
            }
            3 => {
                let (i, j) = (c.r.below(12), c.r.below(12));
                w2.swap(i, j);
                "swapped words"
            }
            4 => {
                // all 128 last words that carry the same entropy bits have one right checksum
                let i = index()[w2[11]] as usize;
                w2[11] = words()[i ^ (1 + c.r.below(15))];
                "wrong checksum"
            }
            5 => {
                let i = c.r.below(12);
                let mut x = w2[i].to_string();
                match c.r.below(6) {
                    0 => x.push('x'),
                    1 => {
                        x.pop();
                    }
                    2 => x = x[..1].to_uppercase() + &x[1..] + "q",
                    3 => x = "zzz".into(),
                    4 => x = "académie".into(),
                    _ => x = c.r.string(10).split_whitespace().collect(),
                }
                if x.is_empty() || index().contains_key(x.as_str()) {
                    continue;
                }
                owned = x;
                w2[i] = &owned;
                "unknown word"
            }
            6 => {
                w2.truncate(c.r.below(12));
                "fewer words"
            }
            7 => {
                for _ in 0..1 + c.r.below(14) {
                    w2.push(c.r.pick(words()));
                }
                "more words"
            }
            8 => {
                // valid phrases of other lengths
                let n = *c.r.pick(&[20usize, 24, 28, 32]);
                let mut e2 = c.r.bytes(n);
                if c.r.bool() {
                    e2[..16].copy_from_slice(&e);
                }
                w2 = phrase(&e2);
                "valid longer phrase"
            }
            _ => {
                w2.insert(c.r.below(13), "");
                "extra space"
            }
        };
        let t2 = w2.join(" ");
        let split: Vec<&str> = t2.split_whitespace().collect();
        let want = entropy(&split);
        let got = parse(&t2)?;
        match (&got, want) {
            (Ok(g), Some(e2)) => {
                ensure!(*g == e2, "parse", "phrase {t2:?} is read as {} instead of {}", hex::encode(g), hex::encode(e2));
                c.obs("other valid phrases", 1);
            }
            (Ok(g), None) => fail!(format!("accepted:{what}"), "{what}: invalid phrase {t2:?} is read as {}", hex::encode(g)),
            (Err(x), Some(_)) => ensure!(what == "extra space", "parse", "valid phrase {t2:?} is refused: {x:?}"),
            (Err(_), None) => c.obs(&format!("refused: {what}"), 1),
        }
    }
    c.sample(|| text);
    Ok(())
}

fn derive(c: &mut Ctx) -> Res {
    let e = seed16(&mut c.r);
    let mut near = e;
    near[c.r.below(16)] ^= 1 << c.r.below(8);
    let mut idx: Vec<u64> = vec![0, 1];
    for _ in 0..3 {
        idx.push(match c.r.below(5) {
            0 => c.r.n64(),
            1 => 1 << c.r.below(64),
            2 => u64::MAX - c.r.below(3) as u64,
            3 => (1u64 << (8 * (1 + c.r.below(7)))) - c.r.below(2) as u64,
            _ => c.r.below(1000) as u64,
        });
    }
    idx.sort();
    idx.dedup();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let s = Seed::new(e);
    for (sb, seed) in [(e, &s), (near, &Seed::new(near))] {
        for &i in &idx {
            let inner = blake2b256(&sb);
            let want = concat256(&[&inner, &i.to_le_bytes()]);
            let k = must("private_key", format!("key {i}"), || seed.private_key(i))?;
            ensure!(k.as_bytes()[..32] == want, "key", "key {i} of seed {} has secret {} instead of {}", hex::encode(sb), hex::encode(&k.as_bytes()[..32]), hex::encode(want));
            if c.r.one_in(4) {
                let pk = ed::public(&want);
                ensure!(k.as_bytes()[32..] == pk && AsRef::<[u8]>::as_ref(&k.public_key()) == pk, "public", "key {i} of seed {} has public key {} instead of {}", hex::encode(sb), k.public_key(), hex::encode(pk));
                c.obs("public keys", 1);
            }
            ensure!(seen.insert(k.as_bytes().to_vec()), "shared", "key {i} of seed {} occurs twice", hex::encode(sb));
            c.obs("derived keys", 1);
            c.seen("key", k.as_bytes());
        }
    }
    // through the phrase
    let t = s.to_mnemonic();
    let Ok(s2) = must("from_mnemonic", "parsing", || Seed::from_mnemonic(&t))? else { fail!("parse", "own phrase {t:?} is refused") };
    let i = *c.r.pick(&idx);
    ensure!(s2.private_key(i) == s.private_key(i), "restored", "key {i} differs after restoring {t:?}");
    c.obs("restored seeds", 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let m = |name, weight, f| Monitor { name, weight, f };
    vec![
        Prop {
            id: "C24",
            rule: "sectors of several textures, each changed step by step, hashed in pools of 1 to 32 threads, nested, unaligned and simultaneously; distinct by root",
            monitors: vec![m("sector", 3, sector as fn(&mut Ctx) -> Res), m("parallel", 1, parallel), m("lengths", 3, lengths)],
            quick_ms: 24_000,
            thorough_ms: 120_000,
            must: &[("roots", 200), ("simultaneous roots", 50), ("wrong lengths refused", 30), ("roots after a refusal", 3), ("threads:1", 10), ("threads:3", 3), ("threads:8", 10), ("content:random", 3), ("content:numbered", 3)],
            assumptions: &["the harness's own Merkle tree over an independent BLAKE2b is the reference", "schedules are those the operating system produced under contention, not all of them"],
        },
        Prop {
            id: "C25",
            rule: "honest signatures, signatures with changed bits, and crafted keys and signatures (small and mixed order, unreduced S, unusual encodings, keys off the curve); distinct by key and signature",
            monitors: vec![m("sign", 1, sign as fn(&mut Ctx) -> Res), m("odd", 2, odd)],
            quick_ms: 15_000,
            thorough_ms: 90_000,
            must: &[
                ("signatures", 500),
                ("verifications", 5000),
                ("honest: accepted", 500),
                ("changed bits: refused", 1000),
                ("large S: refused", 100),
                ("mixed key: accepted", 10),
                ("mixed key: refused", 50),
                ("mixed R: refused", 100),
                ("small order: accepted", 10),
                ("small order: refused", 50),
                ("keys that are not points", 50),
                ("keys that are points", 50),
                ("unusual encoding: accepted", 1),
                ("conversions", 3000),
            ],
            assumptions: &["the harness's own Ed25519 (tested on the RFC 8032 vectors) is the reference; keys may be written modulo p, as every Sia node accepts"],
        },
        Prop {
            id: "C26",
            rule: "random and patterned seeds, their phrases, phrases with one fault, and keys at small, large and power-of-two indices; distinct by seed or key",
            monitors: vec![m("mnemonic", 2, mnemonic as fn(&mut Ctx) -> Res), m("derive", 1, derive)],
            quick_ms: 12_000,
            thorough_ms: 60_000,
            must: &[
                ("phrases", 3000),
                ("refused: another word", 1000),
                ("refused: wrong checksum", 500),
                ("refused: unknown word", 500),
                ("refused: fewer words", 500),
                ("refused: more words", 500),
                ("refused: valid longer phrase", 500),
                ("other valid phrases", 100),
                ("derived keys", 3000),
                ("public keys", 500),
                ("restored seeds", 300),
            ],
            assumptions: &["the harness's own SHA-256, BLAKE2b and Ed25519 and a copy of the BIP-39 English word list are the reference"],
        },
    ]
}
