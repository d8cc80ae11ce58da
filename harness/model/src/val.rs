//! Untyped value trees and their schemas.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// any integer, as the 64-bit two's complement pattern
    U(u64),
    Bool(bool),
    Cur(u128),
    /// fixed-size bytes
    B(Vec<u8>),
    /// variable-size bytes
    Blob(Vec<u8>),
    Str(String),
    /// seconds, nanoseconds
    Time(i64, u32),
    Dur(i64),
    List(Vec<Val>),
    Opt(Option<Box<Val>>),
    St(Vec<Val>),
    En(usize, Box<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FixJson {
    Hex,
    Address,
    PubKey,
    Array,
}

#[derive(Clone, Debug)]
pub enum Ty {
    /// bits, signed
    Int(u32, bool),
    U8,
    Bool,
    Cur,
    Fix(usize, FixJson),
    Blob,
    Str,
    Time,
    Dur,
    Work,
    List(Box<Ty>),
    Opt(Box<Ty>),
    Struct(&'static Def),
    Policy,
    UnlockKey,
    /// body of a contract resolution: renewal / storage proof / expiration
    Resolution(&'static Def, &'static Def),
    /// 11 previous timestamps of the chain state
    PrevTs,
    /// num_leaves + the trees of the set bits
    Acc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Plain,
    /// parent + resolution
    Resolution,
    V2Txn,
    State,
    SiafundOutput,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Skip {
    Never,
    /// omitted from JSON when the list/blob/option is empty
    Empty,
}

#[derive(Debug)]
pub struct Field {
    pub name: &'static str,
    pub json: &'static str,
    pub ty: Ty,
    pub skip: Skip,
}

#[derive(Debug)]
pub struct Def {
    pub name: &'static str,
    pub kind: Kind,
    pub fields: Vec<Field>,
}

impl Def {
    pub fn idx(&self, name: &str) -> usize {
        self.fields.iter().position(|f| f.name == name).unwrap_or_else(|| panic!("no field {name}"))
    }
}

impl Val {
    pub fn u(&self) -> u64 {
        match self {
            Val::U(x) => *x,
            _ => panic!("not U: {self:?}"),
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            Val::B(x) | Val::Blob(x) => x,
            _ => panic!("not B: {self:?}"),
        }
    }
    pub fn b32(&self) -> [u8; 32] {
        self.b().try_into().unwrap()
    }
    pub fn cur(&self) -> u128 {
        match self {
            Val::Cur(x) => *x,
            _ => panic!("not Cur: {self:?}"),
        }
    }
    pub fn st(&self) -> &[Val] {
        match self {
            Val::St(x) => x,
            _ => panic!("not St: {self:?}"),
        }
    }
    pub fn st_mut(&mut self) -> &mut Vec<Val> {
        match self {
            Val::St(x) => x,
            _ => panic!("not St: {self:?}"),
        }
    }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(x) => x,
            _ => panic!("not List: {self:?}"),
        }
    }
    pub fn list_mut(&mut self) -> &mut Vec<Val> {
        match self {
            Val::List(x) => x,
            _ => panic!("not List: {self:?}"),
        }
    }
    pub fn time(&self) -> (i64, u32) {
        match self {
            Val::Time(x, n) => (*x, *n),
            _ => panic!("not Time: {self:?}"),
        }
    }
    pub fn is_empty(&self) -> bool {
        match self {
            Val::List(v) => v.is_empty(),
            Val::Blob(v) => v.is_empty(),
            Val::Opt(o) => o.is_none(),
            Val::Cur(c) => *c == 0,
            _ => false,
        }
    }
}

// range of time::OffsetDateTime without large-dates
pub const TIME_MIN: i64 = -377705116800;
pub const TIME_MAX: i64 = 253402300799;
// years 0..=9999
pub const RFC_MIN: i64 = -62167219200;

#[derive(Clone)]
pub struct Gen {
    /// restrict to values that have a JSON form
    pub json: bool,
    /// sub-second timestamps allowed
    pub nanos: bool,
    /// how many more nodes may be generated
    pub budget: isize,
    pub depth: usize,
    /// unlock keys get printable algorithm names
    pub ascii_keys: bool,
    /// lists of up to thousands of elements may be generated
    pub big: bool,
}

impl Gen {
    pub fn new(budget: isize) -> Gen {
        Gen { json: false, nanos: false, budget, depth: 0, ascii_keys: false, big: true }
    }
    pub fn json(budget: isize) -> Gen {
        Gen { json: true, nanos: true, budget, depth: 0, ascii_keys: true, big: true }
    }

    fn list_len(&mut self, r: &mut Rng, unit: isize) -> usize {
        if self.budget <= 0 {
            return 0;
        }
        let n = match r.below(40) {
            0..=9 => 0,
            10..=19 => 1,
            20..=29 => 2,
            30..=35 => 3 + r.below(5),
            36..=38 => r.below(30),
            _ => {
                if self.big && self.depth <= 3 {
                    *r.pick(&[255usize, 256, 257, 100, 64, 65, 127, 128, 129, 1023, 1024, 1025, 1500, 2049])
                } else {
                    5
                }
            }
        };
        n.min((self.budget / unit.max(1)).max(1) as usize)
    }

    pub fn blob_len(&mut self, r: &mut Rng) -> usize {
        let n = match r.below(24) {
            0..=3 => 0,
            4..=9 => r.below(10),
            10..=17 => r.below(70),
            18..=20 => *r.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129]),
            21 => *r.pick(&[255usize, 256, 257, 511, 512, 513]),
            22 => *r.pick(&[1000usize, 1023, 1024, 1025, 2048, 3000]),
            _ => {
                if self.big {
                    *r.pick(&[4095usize, 4096, 4097, 8192, 10000, 65535, 65536, 65537])
                } else {
                    100
                }
            }
        };
        n.min((self.budget.max(1) as usize) * 16)
    }

    pub fn time(&mut self, r: &mut Rng) -> Val {
        let lo = if self.json { RFC_MIN } else { TIME_MIN };
        let t = match r.below(8) {
            0 => *r.pick(&[0, -1, 1, 1433600000, 1673600000, 1724284800]),
            1 => lo + r.below(3) as i64,
            2 => TIME_MAX - r.below(3) as i64,
            3 | 4 => r.range(0, 4_000_000_000) as i64,
            5 => (r.n64() as i64).clamp(lo, TIME_MAX),
            _ => r.range(lo as i128, TIME_MAX as i128) as i64,
        };
        let ns = if self.nanos && r.one_in(3) {
            match r.below(3) {
                0 => 999_999_999,
                1 => 1 + r.below(999) as u32 * 1_000_000,
                _ => r.below(1_000_000_000) as u32,
            }
        } else {
            0
        };
        Val::Time(t, ns)
    }

    pub fn unlock_key(&mut self, r: &mut Rng) -> Val {
        let alg: Vec<u8> = match r.below(6) {
            0 | 1 => {
                let mut v = b"ed25519".to_vec();
                v.resize(16, 0);
                v
            }
            2 => {
                let mut v = b"entropy".to_vec();
                v.resize(16, 0);
                v
            }
            3 => {
                // printable, up to 16 characters, may contain ':' and inner zeros
                let n = 1 + r.below(16);
                let mut v: Vec<u8> = (0..n)
                    .map(|_| match r.below(8) {
                        0 => b':',
                        1 => b' ',
                        _ => 0x21 + r.below(0x5e) as u8,
                    })
                    .collect();
                v.resize(16, 0);
                v
            }
            4 => {
                if r.bool() {
                    vec![0; 16]
                } else {
                    // multi-byte UTF-8
                    let mut v = "clé-ü€".as_bytes().to_vec();
                    v.resize(16, 0);
                    v
                }
            }
            _ => {
                if self.ascii_keys {
                    let mut v = b"a\0b".to_vec();
                    v.resize(16, 0);
                    v
                } else {
                    r.fixed(16)
                }
            }
        };
        let n = match r.below(4) {
            0 | 1 => 32,
            2 => r.below(40),
            _ => self.blob_len(r).min(300),
        };
        Val::St(vec![Val::B(alg), Val::Blob(r.bytes(n))])
    }

    pub fn policy(&mut self, r: &mut Rng, depth: usize, uc: &Ty) -> Val {
        self.budget -= 1;
        let k = if self.budget <= 0 || depth == 0 { *r.pick(&[0usize, 1, 2, 3, 5]) } else { *r.pick(&[0usize, 1, 2, 3, 4, 4, 4, 4, 5, 6]) };
        let inner = match k {
            0 => Val::U(r.n64()),
            1 => {
                let t = self.time(r);
                Val::Time(t.time().0, 0)
            }
            2 | 3 | 5 => Val::B(r.fixed(32)),
            4 => {
                let n = match r.below(30) {
                    0..=3 => 0,
                    4..=27 => 1 + r.below(4),
                    28 => r.below(40),
                    _ => {
                        if self.big && depth >= 3 {
                            *r.pick(&[255usize, 254, 128, 127])
                        } else {
                            2
                        }
                    }
                };
                let n = n.min(self.budget.max(0) as usize);
                let thr = match r.below(5) {
                    0 => r.u64() as u8 as u64,
                    _ => r.below(n + 1).min(255) as u64,
                };
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.policy(r, depth - 1, uc));
                }
                Val::St(vec![Val::U(thr), Val::List(v)])
            }
            _ => self.gen(uc, r),
        };
        Val::En(k, Box::new(inner))
    }

    pub fn gen(&mut self, ty: &Ty, r: &mut Rng) -> Val {
        self.budget -= 1;
        match ty {
            Ty::Int(bits, signed) => {
                let x = r.n64();
                if *signed {
                    Val::U(((x as i64) << (64 - bits) >> (64 - bits)) as u64)
                } else {
                    Val::U(x << (64 - bits) >> (64 - bits))
                }
            }
            Ty::U8 => Val::U(r.u64() & 0xff),
            Ty::Bool => Val::Bool(r.bool()),
            Ty::Cur => Val::Cur(r.n128()),
            Ty::Fix(n, _) => Val::B(r.fixed(*n)),
            Ty::Work => Val::B(r.fixed(32)),
            Ty::Blob => {
                let n = self.blob_len(r);
                self.budget -= n as isize / 32;
                Val::Blob(if r.one_in(3) { r.fixed(n.max(1))[..n].to_vec() } else { r.bytes(n) })
            }
            Ty::Str => {
                let m = if r.one_in(30) { 600 } else { 40 };
                Val::Str(r.string(m))
            }
            Ty::Time => self.time(r),
            Ty::Dur => Val::Dur((r.n64() >> 1) as i64),
            Ty::List(t) => {
                let n = self.list_len(r, unit(t));
                self.depth += 1;
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    if n > 60 && i > 3 && unit(t) > 4 {
                        // long lists of large elements: repeat cheap elements
                        let save = self.budget;
                        self.budget = 2;
                        v.push(self.gen(t, r));
                        self.budget = save - unit(t);
                    } else {
                        v.push(self.gen(t, r));
                    }
                }
                self.depth -= 1;
                Val::List(v)
            }
            Ty::Opt(t) => Val::Opt(if r.bool() { Some(Box::new(self.gen(t, r))) } else { None }),
            Ty::Struct(d) => {
                self.depth += 1;
                let v = self.strukt(d, r);
                self.depth -= 1;
                v
            }
            Ty::Policy => {
                // the protocol allows 1024 policies in total
                let depth = if r.one_in(20) { 12 } else { 4 };
                let p = self.policy(r, depth, &uc());
                if policy_nodes(&p) > 1000 {
                    return Val::En(0, Box::new(Val::U(r.n64())));
                }
                p
            }
            Ty::UnlockKey => self.unlock_key(r),
            Ty::Resolution(a, b) => match r.below(3) {
                0 => Val::En(0, Box::new(self.strukt(a, r))),
                1 => Val::En(1, Box::new(self.strukt(b, r))),
                _ => Val::En(2, Box::new(Val::St(vec![]))),
            },
            Ty::PrevTs => Val::List((0..11).map(|_| self.time(r)).collect()),
            Ty::Acc => {
                let n = match r.below(5) {
                    0 => r.u64(),
                    1 => u64::MAX,
                    _ => r.n64(),
                };
                Val::St(vec![
                    Val::U(n),
                    Val::List((0..n.count_ones()).map(|_| Val::B(r.fixed(32))).collect()),
                ])
            }
        }
    }

    fn strukt(&mut self, d: &'static Def, r: &mut Rng) -> Val {
        let mut v: Vec<Val> = d
            .fields
            .iter()
            .map(|f| {
                if d.kind == Kind::V2Txn && r.one_in(2) {
                    empty(&f.ty)
                } else {
                    self.gen(&f.ty, r)
                }
            })
            .collect();
        if d.kind == Kind::State {
            // half of the states are close to genesis, where fewer timestamps exist
            let h = match r.below(4) {
                0 => u64::MAX,
                1 => r.below(13) as u64,
                _ => v[0].st()[0].u(),
            };
            v[0].st_mut()[0] = Val::U(h);
            let k = timestamps_at(h);
            let l = v[1].list_mut();
            for x in l.iter_mut().skip(k) {
                *x = Val::Time(0, 0);
            }
        }
        Val::St(v)
    }
}

pub fn policy_nodes(v: &Val) -> usize {
    match v {
        Val::En(4, x) => 1 + x.st()[1].list().iter().map(policy_nodes).sum::<usize>(),
        _ => 1,
    }
}

pub fn timestamps_at(height: u64) -> usize {
    height.wrapping_add(1).min(11) as usize
}

/// the empty value of a list-like type, otherwise zero
pub fn empty(ty: &Ty) -> Val {
    match ty {
        Ty::List(_) => Val::List(vec![]),
        Ty::Blob => Val::Blob(vec![]),
        Ty::Opt(_) => Val::Opt(None),
        Ty::Cur => Val::Cur(0),
        Ty::Int(..) | Ty::U8 => Val::U(0),
        Ty::Bool => Val::Bool(false),
        Ty::Fix(n, _) => Val::B(vec![0; *n]),
        Ty::Work => Val::B(vec![0; 32]),
        Ty::Str => Val::Str(String::new()),
        Ty::Time => Val::Time(0, 0),
        Ty::Dur => Val::Dur(0),
        Ty::Struct(d) => Val::St(d.fields.iter().map(|f| empty(&f.ty)).collect()),
        Ty::Policy => Val::En(0, Box::new(Val::U(0))),
        Ty::UnlockKey => Val::St(vec![Val::B(vec![0; 16]), Val::Blob(vec![])]),
        Ty::Resolution(..) => Val::En(2, Box::new(Val::St(vec![]))),
        Ty::PrevTs => Val::List(vec![Val::Time(0, 0); 11]),
        Ty::Acc => Val::St(vec![Val::U(0), Val::List(vec![])]),
    }
}

fn unit(t: &Ty) -> isize {
    match t {
        Ty::Struct(d) => d.fields.iter().map(|f| unit(&f.ty)).sum::<isize>() + 1,
        Ty::Policy | Ty::Resolution(..) => 6,
        Ty::Acc => 20,
        Ty::PrevTs => 11,
        _ => 1,
    }
}

thread_local! {
    /// type of the unlock conditions inside policies
    pub static UC: std::cell::RefCell<Option<Ty>> = const { std::cell::RefCell::new(None) };
}
pub fn set_uc(t: Ty) {
    UC.with(|u| *u.borrow_mut() = Some(t));
}
pub fn uc() -> Ty {
    UC.with(|u| u.borrow().clone().expect("unlock conditions type"))
}

// ---------------------------------------------------------------------------------------------
// Paths and single-place modifications

/// Every place of a value that can be modified, with the path of field names leading to it.
pub fn paths(ty: &Ty, v: &Val, pre: &str, out: &mut Vec<String>) {
    match (ty, v) {
        (Ty::List(t), Val::List(l)) => {
            out.push(format!("{pre}/len"));
            for (i, x) in l.iter().enumerate() {
                paths(t, x, &format!("{pre}/{i}"), out);
            }
        }
        (Ty::Opt(t), Val::Opt(o)) => {
            out.push(format!("{pre}/some"));
            if let Some(x) = o {
                paths(t, x, &format!("{pre}/v"), out);
            }
        }
        (Ty::Struct(d), Val::St(fs)) => {
            for (f, x) in d.fields.iter().zip(fs) {
                paths(&f.ty, x, &format!("{pre}/{}", f.name), out);
            }
        }
        (Ty::Resolution(a, b), Val::En(k, x)) => {
            out.push(format!("{pre}/kind"));
            match k {
                0 => paths(&Ty::Struct(a), x, &format!("{pre}/renewal"), out),
                1 => paths(&Ty::Struct(b), x, &format!("{pre}/proof"), out),
                _ => {}
            }
        }
        (Ty::Policy, Val::En(k, x)) => {
            out.push(format!("{pre}/kind"));
            match k {
                4 => {
                    out.push(format!("{pre}/n"));
                    out.push(format!("{pre}/len"));
                    for (i, c) in x.st()[1].list().iter().enumerate() {
                        paths(&Ty::Policy, c, &format!("{pre}/of{i}"), out);
                    }
                }
                6 => paths(&uc(), x, &format!("{pre}/uc"), out),
                _ => out.push(format!("{pre}/p")),
            }
        }
        (Ty::UnlockKey, _) => {
            out.push(format!("{pre}/alg"));
            out.push(format!("{pre}/key"));
        }
        _ => out.push(pre.to_string()),
    }
}

fn differ(ty: &Ty, v: &Val, r: &mut Rng) -> Val {
    let mut g = Gen::new(30);
    g.big = false;
    for _ in 0..50 {
        let n = match (v, r.below(3)) {
            // small modifications first: one bit, one unit
            (Val::U(x), 0) => match ty {
                Ty::Int(64, _) => Val::U(x ^ (1 << r.below(64))),
                _ => Val::U(x ^ 1),
            },
            (Val::U(x), 1) if matches!(ty, Ty::Int(64, _)) => Val::U(x.wrapping_add(1)),
            (Val::Cur(x), 0) => Val::Cur(x ^ (1 << r.below(128))),
            (Val::Cur(x), 1) => Val::Cur(x.wrapping_add(1)),
            (Val::B(b), 0 | 1) if !b.is_empty() => {
                let mut b = b.clone();
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
                Val::B(b)
            }
            (Val::Blob(b), 0) if !b.is_empty() => {
                let mut b = b.clone();
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
                Val::Blob(b)
            }
            (Val::Blob(b), 1) => {
                let mut b = b.clone();
                b.push(0);
                Val::Blob(b)
            }
            (Val::Str(s), 0) => Val::Str(format!("{s}x")),
            (Val::Bool(b), _) => Val::Bool(!b),
            (Val::Time(t, n), 0) => Val::Time(if *t < TIME_MAX { t + 1 } else { t - 1 }, *n),
            _ => g.gen(ty, r),
        };
        if &n != v {
            return n;
        }
    }
    v.clone()
}

/// Returns `v` with the place at `path` modified (guaranteed different when Some).
pub fn modify(ty: &Ty, v: &Val, path: &str, r: &mut Rng) -> Option<Val> {
    let mut v2 = v.clone();
    let p: Vec<&str> = path.split('/').skip(1).collect();
    go(ty, &mut v2, &p, r)?;
    if &v2 == v {
        None
    } else {
        Some(v2)
    }
}

fn go(ty: &Ty, v: &mut Val, p: &[&str], r: &mut Rng) -> Option<()> {
    if p.is_empty() {
        let n = differ(ty, v, r);
        *v = n;
        return Some(());
    }
    match (ty, v) {
        (Ty::List(t), Val::List(l)) => {
            if p[0] == "len" {
                list_change(t, l, r);
                Some(())
            } else {
                let i: usize = p[0].parse().ok()?;
                go(t, &mut l[i], &p[1..], r)
            }
        }
        (Ty::Opt(t), Val::Opt(o)) => {
            if p[0] == "some" {
                *o = match o {
                    Some(_) => None,
                    None => Some(Box::new(small(t, r))),
                };
                Some(())
            } else {
                go(t, o.as_mut()?, &p[1..], r)
            }
        }
        (Ty::Struct(d), Val::St(fs)) => {
            let i = d.idx(p[0]);
            go(&d.fields[i].ty, &mut fs[i], &p[1..], r)
        }
        (Ty::Resolution(a, b), v @ Val::En(..)) => {
            if p[0] == "kind" {
                let n = small(ty, r);
                if let (Val::En(k1, _), Val::En(k2, _)) = (&n, &*v) {
                    if k1 == k2 {
                        return None;
                    }
                }
                *v = n;
                return Some(());
            }
            let Val::En(k, x) = v else { unreachable!() };
            match k {
                0 => go(&Ty::Struct(a), x, &p[1..], r),
                1 => go(&Ty::Struct(b), x, &p[1..], r),
                _ => None,
            }
        }
        (Ty::Policy, v @ Val::En(..)) => {
            if p[0] == "kind" {
                let n = small(ty, r);
                *v = n;
                return Some(());
            }
            let Val::En(k, x) = v else { unreachable!() };
            if p[0] == "n" {
                let s = x.st_mut();
                s[0] = Val::U((s[0].u() + 1 + r.below(255) as u64) & 0xff);
                return Some(());
            }
            if p[0] == "len" {
                let l = x.st_mut()[1].list_mut();
                if l.len() >= 250 {
                    l.pop();
                } else {
                    list_change(&Ty::Policy, l, r);
                }
                return Some(());
            }
            if let Some(i) = p[0].strip_prefix("of") {
                let i: usize = i.parse().ok()?;
                return go(&Ty::Policy, &mut x.st_mut()[1].list_mut()[i], &p[1..], r);
            }
            match *k {
                0 => go(&Ty::Int(64, false), x, &[], r),
                1 => go(&Ty::Time, x, &[], r),
                6 => go(&uc(), x, &p[1..], r),
                _ => go(&Ty::Fix(32, FixJson::Hex), x, &[], r),
            }
        }
        (Ty::UnlockKey, Val::St(f)) => {
            if p[0] == "alg" {
                let n = differ(&Ty::Fix(16, FixJson::Array), &f[0], r);
                f[0] = n;
            } else {
                let n = differ(&Ty::Blob, &f[1], r);
                f[1] = n;
            }
            Some(())
        }
        _ => None,
    }
}

/// replaces one list, string or byte string of the value, wherever it is, by one of `n` elements
/// (lists of costly elements: at most `costly`); false when there is none
pub fn inflate(ty: &Ty, v: &mut Val, r: &mut Rng, n: usize, costly: usize, json: bool) -> bool {
    let mut total = 0;
    spots(ty, v, &mut total, usize::MAX, (n, costly, json), r);
    if total == 0 {
        return false;
    }
    let mut i = 0;
    let at = r.below(total);
    spots(ty, v, &mut i, at, (n, costly, json), r);
    true
}

fn nodes(v: &Val) -> usize {
    1 + match v {
        Val::List(l) | Val::St(l) => l.iter().map(nodes).sum(),
        Val::En(_, x) | Val::Opt(Some(x)) => nodes(x),
        Val::B(b) | Val::Blob(b) => b.len() / 64,
        Val::Str(s) => s.len() / 64,
        _ => 0,
    }
}

/// counts the places in `i`, and fills the one numbered `at`
fn spots(ty: &Ty, v: &mut Val, i: &mut usize, at: usize, how: (usize, usize, bool), r: &mut Rng) {
    let (n, costly, json) = how;
    match (ty, v) {
        (Ty::List(t), Val::List(l)) => {
            if *i == at {
                // memory is limited: the longer the elements, the fewer
                let n = match **t {
                    Ty::Int(..) | Ty::U8 | Ty::Bool | Ty::Cur | Ty::Fix(..) | Ty::Time | Ty::Dur | Ty::Work => n.min((1 << 20) + 100),
                    _ => n.min(costly),
                };
                let mut g = if json { Gen::json(8) } else { Gen::new(8) };
                g.big = false;
                let some: Vec<Val> = (0..7).map(|_| g.gen(t, r)).collect();
                let n = n.min(4_000_000 / some.iter().map(nodes).max().unwrap_or(1).max(1)).max(1000);
                *l = (0..n).map(|k| some[k * k % 7].clone()).collect();
                *i += 1;
                return;
            }
            *i += 1;
            for x in l {
                spots(t, x, i, at, how, r);
            }
        }
        (Ty::Blob, Val::Blob(b)) => {
            if *i == at {
                let x = r.u64() | 1;
                *b = (0..n as u64).map(|k| (k.wrapping_mul(x) >> 3) as u8).collect();
            }
            *i += 1;
        }
        (Ty::Str, Val::Str(s)) => {
            if *i == at {
                *s = if r.bool() { "a".repeat(n) } else { "\u{20ac}".repeat(n / 3) + &"b".repeat(n % 3) };
            }
            *i += 1;
        }
        (Ty::UnlockKey, Val::St(f)) => spots(&Ty::Blob, &mut f[1], i, at, how, r),
        (Ty::Opt(t), Val::Opt(Some(x))) => spots(t, x, i, at, how, r),
        (Ty::Struct(d), Val::St(f)) => {
            for (fd, x) in d.fields.iter().zip(f) {
                spots(&fd.ty, x, i, at, how, r);
            }
        }
        (Ty::Resolution(a, b), Val::En(k, x)) => match k {
            0 => spots(&Ty::Struct(a), x, i, at, how, r),
            1 => spots(&Ty::Struct(b), x, i, at, how, r),
            _ => {}
        },
        _ => {}
    }
}

fn small(t: &Ty, r: &mut Rng) -> Val {
    let mut g = Gen::new(12);
    g.big = false;
    g.gen(t, r)
}

fn list_change(t: &Ty, l: &mut Vec<Val>, r: &mut Rng) {
    match r.below(5) {
        0 if !l.is_empty() => {
            l.pop();
        }
        1 if !l.is_empty() => {
            l.remove(0);
        }
        2 if l.len() >= 2 => {
            let i = r.below(l.len() - 1);
            l.swap(i, i + 1);
        }
        3 if !l.is_empty() => {
            let i = r.below(l.len());
            let x = l[i].clone();
            l.insert(i, x);
        }
        _ => {
            let x = small(t, r);
            l.push(x);
        }
    }
}
