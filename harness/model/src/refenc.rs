//! Reference v1 and v2 binary encodings over value trees, with annotated spans for mutation.
use crate::val::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
    /// u64 length or count prefix
    Len,
    /// one-byte count of sub-policies
    Count8,
    Bool,
    Tag,
    Version,
    Op,
    Bitmap,
    U64,
    Cur1,
    Cur2,
    Time,
    Dur,
    Fixed,
    Data,
    Utf8,
    Leaves,
    SfValue,
    Claim,
    Height,
    /// integer narrower than 64 bits: bits, signed
    Narrow(u32, bool),
}

#[derive(Clone, Debug)]
pub struct Span {
    pub off: usize,
    pub len: usize,
    pub kind: Sp,
}

#[derive(Default, Clone, Debug)]
pub struct Out {
    pub buf: Vec<u8>,
    pub spans: Vec<Span>,
}

impl Out {
    pub fn put(&mut self, b: &[u8], kind: Sp) {
        self.spans.push(Span { off: self.buf.len(), len: b.len(), kind });
        self.buf.extend_from_slice(b);
    }
    pub fn u64(&mut self, x: u64, kind: Sp) {
        self.put(&x.to_le_bytes(), kind);
    }
}

fn min_be(x: u128) -> Vec<u8> {
    let mut v = Vec::new();
    let mut y = x;
    while y > 0 {
        v.insert(0, (y & 0xff) as u8);
        y >>= 8;
    }
    v
}

/// v1 currency: length-prefixed minimal big-endian
pub fn cur1(x: u128, o: &mut Out) {
    let b = min_be(x);
    o.u64(b.len() as u64, Sp::Cur1);
    o.put(&b, Sp::Fixed);
}

pub fn cur2(x: u128, o: &mut Out) {
    o.u64(x as u64, Sp::Cur2);
    o.u64((x >> 64) as u64, Sp::Cur2);
}

fn prim(ty: &Ty, v: &Val, o: &mut Out) -> bool {
    match (ty, v) {
        (Ty::Int(64, _), Val::U(x)) => o.u64(*x, Sp::U64),
        (Ty::Int(b, s), Val::U(x)) => o.u64(*x, Sp::Narrow(*b, *s)),
        (Ty::U8, Val::U(x)) => o.put(&[*x as u8], Sp::Fixed),
        (Ty::Bool, Val::Bool(b)) => o.put(&[if *b { 1 } else { 0 }], Sp::Bool),
        (Ty::Fix(n, _), Val::B(b)) => {
            assert_eq!(*n, b.len());
            o.put(b, Sp::Fixed)
        }
        (Ty::Work, Val::B(b)) => o.put(b, Sp::Fixed),
        (Ty::Blob, Val::Blob(b)) => {
            o.u64(b.len() as u64, Sp::Len);
            o.put(b, Sp::Data);
        }
        (Ty::Str, Val::Str(s)) => {
            o.u64(s.len() as u64, Sp::Len);
            o.put(s.as_bytes(), Sp::Utf8);
        }
        (Ty::UnlockKey, Val::St(f)) => {
            o.put(f[0].b(), Sp::Fixed);
            o.u64(f[1].b().len() as u64, Sp::Len);
            o.put(f[1].b(), Sp::Data);
        }
        _ => return false,
    }
    true
}

pub fn enc1(ty: &Ty, v: &Val, o: &mut Out) {
    if prim(ty, v, o) {
        return;
    }
    match (ty, v) {
        (Ty::Cur, Val::Cur(x)) => cur1(*x, o),
        (Ty::Time, Val::Time(t, _)) => o.u64(*t as u64, Sp::Time),
        (Ty::List(t), Val::List(l)) => {
            o.u64(l.len() as u64, Sp::Len);
            for x in l {
                enc1(t, x, o);
            }
        }
        (Ty::Opt(t), Val::Opt(x)) => match x {
            None => o.put(&[0], Sp::Bool),
            Some(x) => {
                o.put(&[1], Sp::Bool);
                enc1(t, x, o);
            }
        },
        (Ty::Struct(d), Val::St(f)) => {
            if d.kind == Kind::SiafundOutput {
                let k = o.spans.len();
                cur1(f[0].u() as u128, o);
                o.spans[k].kind = Sp::SfValue;
                enc1(&d.fields[1].ty, &f[1], o);
                o.u64(0, Sp::Claim);
                return;
            }
            assert_eq!(d.kind, Kind::Plain, "{} has no v1 encoding", d.name);
            for (fd, x) in d.fields.iter().zip(f) {
                enc1(&fd.ty, x, o);
            }
        }
        _ => panic!("no v1 encoding for {ty:?} / {v:?}"),
    }
}

fn policy_body(v: &Val, o: &mut Out) {
    let Val::En(k, x) = v else { panic!() };
    // opcodes 1.. in protocol order: above, after, pk, hash, threshold, opaque, unlock conditions
    o.put(&[*k as u8 + 1], Sp::Op);
    match k {
        0 => o.u64(x.u(), Sp::U64),
        1 => o.u64(x.time().0 as u64, Sp::Time),
        2 | 3 | 5 => o.put(x.b(), Sp::Fixed),
        4 => {
            let s = x.st();
            o.put(&[s[0].u() as u8], Sp::Fixed);
            let l = s[1].list();
            assert!(l.len() <= 255);
            o.put(&[l.len() as u8], Sp::Count8);
            for c in l {
                policy_body(c, o);
            }
        }
        6 => enc2(&uc(), x, o),
        _ => panic!(),
    }
}

pub fn enc2(ty: &Ty, v: &Val, o: &mut Out) {
    if prim(ty, v, o) {
        return;
    }
    match (ty, v) {
        (Ty::Cur, Val::Cur(x)) => cur2(*x, o),
        (Ty::Time, Val::Time(t, _)) => o.u64(*t as u64, Sp::Time),
        (Ty::Dur, Val::Dur(d)) => o.u64(*d as u64, Sp::Dur),
        (Ty::List(t), Val::List(l)) => {
            o.u64(l.len() as u64, Sp::Len);
            for x in l {
                enc2(t, x, o);
            }
        }
        (Ty::Opt(t), Val::Opt(x)) => match x {
            None => o.put(&[0], Sp::Bool),
            Some(x) => {
                o.put(&[1], Sp::Bool);
                enc2(t, x, o);
            }
        },
        (Ty::Policy, v) => {
            o.put(&[1], Sp::Version);
            policy_body(v, o);
        }
        (Ty::Resolution(a, b), Val::En(k, x)) => {
            o.put(&[*k as u8], Sp::Tag);
            match k {
                0 => enc2(&Ty::Struct(a), x, o),
                1 => enc2(&Ty::Struct(b), x, o),
                _ => {}
            }
        }
        (Ty::Acc, Val::St(f)) => {
            o.u64(f[0].u(), Sp::Leaves);
            assert_eq!(f[0].u().count_ones() as usize, f[1].list().len());
            for h in f[1].list() {
                o.put(h.b(), Sp::Fixed);
            }
        }
        (Ty::Struct(d), Val::St(f)) => match d.kind {
            Kind::V2Txn => {
                o.put(&[2], Sp::Version);
                let mut m = 0u64;
                for (i, x) in f.iter().enumerate() {
                    if !x.is_empty() {
                        m |= 1 << i;
                    }
                }
                o.u64(m, Sp::Bitmap);
                for (fd, x) in d.fields.iter().zip(f) {
                    if !x.is_empty() {
                        match (&fd.ty, x) {
                            // presence is expressed by the bitmap alone
                            (Ty::Opt(t), Val::Opt(Some(y))) => enc2(t, y, o),
                            _ => enc2(&fd.ty, x, o),
                        }
                    }
                }
            }
            Kind::State => {
                for (fd, x) in d.fields.iter().zip(f) {
                    if matches!(fd.ty, Ty::PrevTs) {
                        let n = timestamps_at(f[0].st()[0].u());
                        for t in &x.list()[..n] {
                            o.u64(t.time().0 as u64, Sp::Time);
                        }
                    } else {
                        let k = o.spans.len();
                        enc2(&fd.ty, x, o);
                        if fd.name == "index" {
                            o.spans[k].kind = Sp::Height;
                        }
                    }
                }
            }
            _ => {
                for (fd, x) in d.fields.iter().zip(f) {
                    enc2(&fd.ty, x, o);
                }
            }
        },
        _ => panic!("no v2 encoding for {ty:?} / {v:?}"),
    }
}

pub fn bytes1(ty: &Ty, v: &Val) -> Vec<u8> {
    let mut o = Out::default();
    enc1(ty, v, &mut o);
    o.buf
}
pub fn bytes2(ty: &Ty, v: &Val) -> Vec<u8> {
    let mut o = Out::default();
    enc2(ty, v, &mut o);
    o.buf
}
