//! Ed25519 (RFC 8032), written for checking, not for speed or secrecy.
use crate::sha::sha512;
use num_bigint::BigUint;
use std::sync::OnceLock;

/// element of GF(2^255 - 19), below 2^256
#[derive(Clone, Copy, Debug)]
pub struct Fe([u64; 4]);

const P: [u64; 4] = [0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff];

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub const ONE: Fe = Fe([1, 0, 0, 0]);
    pub fn small(x: u64) -> Fe {
        Fe([x, 0, 0, 0])
    }
    pub fn from_bytes(b: &[u8; 32]) -> Fe {
        let mut l = [0; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        Fe(l)
    }
    /// canonical bytes
    pub fn bytes(self) -> [u8; 32] {
        let mut l = self.0;
        while ge(&l, &P) {
            let mut br = 0u64;
            for i in 0..4 {
                let (a, b1) = l[i].overflowing_sub(P[i]);
                let (a, b2) = a.overflowing_sub(br);
                l[i] = a;
                br = (b1 | b2) as u64;
            }
        }
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
        }
        o
    }
    fn fold(mut l: [u64; 4], mut carry: u64) -> Fe {
        // 2^256 = 38
        while carry != 0 {
            let mut c = carry as u128 * 38;
            for x in l.iter_mut() {
                c += *x as u128;
                *x = c as u64;
                c >>= 64;
            }
            carry = c as u64;
        }
        Fe(l)
    }
    pub fn add(self, o: Fe) -> Fe {
        let mut l = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            l[i] = c as u64;
            c >>= 64;
        }
        Fe::fold(l, c as u64)
    }
    pub fn neg(self) -> Fe {
        // p - canonical
        let c = Fe::from_bytes(&self.bytes()).0;
        let mut l = [0; 4];
        let mut br = 0u64;
        for i in 0..4 {
            let (a, b1) = P[i].overflowing_sub(c[i]);
            let (a, b2) = a.overflowing_sub(br);
            l[i] = a;
            br = (b1 | b2) as u64;
        }
        Fe(l)
    }
    pub fn sub(self, o: Fe) -> Fe {
        self.add(o.neg())
    }
    pub fn mul(self, o: Fe) -> Fe {
        let mut t = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += self.0[i] as u128 * o.0[j] as u128 + t[i + j] as u128;
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + 4] = c as u64;
        }
        let mut l = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += t[i] as u128 + t[i + 4] as u128 * 38;
            l[i] = c as u64;
            c >>= 64;
        }
        Fe::fold(l, c as u64)
    }
    pub fn sq(self) -> Fe {
        self.mul(self)
    }
    pub fn pow(self, e: &BigUint) -> Fe {
        let mut r = Fe::ONE;
        for i in (0..e.bits()).rev() {
            r = r.sq();
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(self) -> Fe {
        self.pow(&(pp() - 2u8))
    }
    pub fn eq(self, o: Fe) -> bool {
        self.bytes() == o.bytes()
    }
    pub fn odd(self) -> bool {
        self.bytes()[0] & 1 == 1
    }
}
fn ge(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn pp() -> BigUint {
    (BigUint::from(1u8) << 255u32) - 19u8
}
/// order of the base point
pub fn order() -> BigUint {
    (BigUint::from(1u8) << 252u32) + "27742317777372353535851937790883648493".parse::<BigUint>().unwrap()
}

struct K {
    d: Fe,
    d2: Fe,
    i: Fe,
    base: Pt,
    l: BigUint,
    e58: BigUint,
}
fn k() -> &'static K {
    static C: OnceLock<K> = OnceLock::new();
    C.get_or_init(|| {
        let d = Fe::small(121665).neg().mul(Fe::small(121666).inv());
        let i = Fe::small(2).pow(&((pp() - 1u8) / 4u8));
        let mut c = K { d, d2: d.add(d), i, base: Pt { x: Fe::ZERO, y: Fe::ONE, z: Fe::ONE, t: Fe::ZERO }, l: order(), e58: (pp() + 3u8) / 8u8 };
        let y = Fe::small(4).mul(Fe::small(5).inv());
        let x = root(y, &c).unwrap();
        let x = if x.odd() { x.neg() } else { x };
        c.base = Pt { x, y, z: Fe::ONE, t: x.mul(y) };
        c
    })
}
/// some x with (x, y) on the curve
fn root(y: Fe, c: &K) -> Option<Fe> {
    let y2 = y.sq();
    let u = y2.sub(Fe::ONE);
    let v = c.d.mul(y2).add(Fe::ONE);
    let x2 = u.mul(v.inv());
    let x = x2.pow(&c.e58);
    if x.sq().eq(x2) {
        return Some(x);
    }
    let x = x.mul(c.i);
    if x.sq().eq(x2) {
        return Some(x);
    }
    None
}

/// point in extended coordinates
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    x: Fe,
    y: Fe,
    z: Fe,
    t: Fe,
}
impl Pt {
    pub fn identity() -> Pt {
        Pt { x: Fe::ZERO, y: Fe::ONE, z: Fe::ONE, t: Fe::ZERO }
    }
    pub fn base() -> Pt {
        k().base
    }
    /// the complete addition law, which also doubles
    pub fn add(self, o: Pt) -> Pt {
        let a = self.y.sub(self.x).mul(o.y.sub(o.x));
        let b = self.y.add(self.x).mul(o.y.add(o.x));
        let c = self.t.mul(k().d2).mul(o.t);
        let d = self.z.add(self.z).mul(o.z);
        let (e, f, g, h) = (b.sub(a), d.sub(c), d.add(c), b.add(a));
        Pt { x: e.mul(f), y: g.mul(h), z: f.mul(g), t: e.mul(h) }
    }
    pub fn neg(self) -> Pt {
        Pt { x: self.x.neg(), y: self.y, z: self.z, t: self.t.neg() }
    }
    pub fn mul(self, s: &BigUint) -> Pt {
        let mut r = Pt::identity();
        for i in (0..s.bits()).rev() {
            r = r.add(r);
            if s.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn bytes(self) -> [u8; 32] {
        let zi = self.z.inv();
        let mut b = self.y.mul(zi).bytes();
        if self.x.mul(zi).odd() {
            b[31] |= 0x80;
        }
        b
    }
    /// The decoding every Sia node uses: y may be written modulo p, and a zero x with either sign.
    pub fn decode(b: &[u8; 32]) -> Option<Pt> {
        let mut y = *b;
        let sign = y[31] >> 7 == 1;
        y[31] &= 0x7f;
        let y = Fe::from_bytes(&y);
        let x = root(y, k())?;
        let x = if x.odd() != sign { x.neg() } else { x };
        Some(Pt { x, y, z: Fe::ONE, t: x.mul(y) })
    }
}

pub fn scalar(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn scalar_bytes(s: &BigUint) -> [u8; 32] {
    let mut v = s.to_bytes_le();
    v.resize(32, 0);
    v.try_into().unwrap()
}

fn expand(seed: &[u8; 32]) -> (BigUint, [u8; 32]) {
    let h = sha512(&[seed]);
    let mut a: [u8; 32] = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 63;
    a[31] |= 64;
    (scalar(&a), h[32..].try_into().unwrap())
}
pub fn public(seed: &[u8; 32]) -> [u8; 32] {
    Pt::base().mul(&expand(seed).0).bytes()
}
pub fn secret_scalar(seed: &[u8; 32]) -> BigUint {
    expand(seed).0
}
pub fn sign(seed: &[u8; 32], public: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let (a, prefix) = expand(seed);
    let r = scalar(&sha512(&[&prefix, msg])) % &k().l;
    let rb = Pt::base().mul(&r).bytes();
    let h = scalar(&sha512(&[&rb, public, msg]));
    let s = (r + h * a) % &k().l;
    let mut o = [0; 64];
    o[..32].copy_from_slice(&rb);
    o[32..].copy_from_slice(&scalar_bytes(&s));
    o
}
/// S·B = R + h·A with S reduced and R in canonical form, no multiplication by the cofactor
pub fn verify(public: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let Some(a) = Pt::decode(public) else { return false };
    let s = scalar(&sig[32..]);
    if s >= k().l {
        return false;
    }
    let h = scalar(&sha512(&[&sig[..32], public, msg])) % &k().l;
    let r = Pt::base().mul(&s).add(a.neg().mul(&h));
    r.bytes()[..] == sig[..32]
}

/// the eight points of small order
pub fn torsion() -> &'static [Pt] {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    T.get_or_init(|| {
        let mut b = [0u8; 32];
        for i in 0..255u8 {
            b[0] = i;
            b[1] = 7;
            if let Some(p) = Pt::decode(&b) {
                let t = p.mul(&k().l);
                let t4 = t.add(t).add(t.add(t));
                if t4.bytes() != Pt::identity().bytes() {
                    // order eight
                    let mut v = vec![Pt::identity()];
                    for _ in 0..7 {
                        v.push(v.last().unwrap().add(t));
                    }
                    return v;
                }
            }
        }
        panic!("MONITOR: no point of order eight");
    })
}

#[test]
fn rfc8032() {
    let h = |s: &str| -> Vec<u8> { hex::decode(s).unwrap() };
    let seed: [u8; 32] = h("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7").try_into().unwrap();
    let pk = public(&seed);
    assert_eq!(hex::encode(pk), "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025");
    let sig = sign(&seed, &pk, &h("af82"));
    assert_eq!(
        hex::encode(sig),
        "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a"
    );
    assert!(verify(&pk, &h("af82"), &sig));
    assert!(!verify(&pk, &h("af83"), &sig));
    assert_eq!(torsion().len(), 8);
}
