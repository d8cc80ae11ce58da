//! C12–C14: text forms and currency.
use super::json::currency_text;
use super::{literals, literals_bad};
use crate::eng::*;
use crate::{ensure, fail};
use model::refjson::{address, hexs, unlock_key};
use model::rng::Rng;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use serde::de::value as dv;
use serde::Deserialize;
use serde_json::json;
use sia::signing::{PublicKey, Signature};
use sia::types::*;
use std::cmp::Ordering;

// ---------------------------------------------------------------------------------------------
// C12

/// a type with a fixed-length hexadecimal text form
struct Hexy {
    name: &'static str,
    /// bytes of the value
    n: usize,
    prefix: &'static str,
    /// canonical text of a value
    text: fn(&[u8]) -> String,
    /// print with Display
    print: fn(&[u8]) -> String,
    /// parse, and give back the bytes
    parse: fn(&str) -> Option<Vec<u8>>,
    /// JSON route of parsing
    json: fn(&str) -> Option<Vec<u8>>,
    to_json: fn(&[u8]) -> serde_json::Value,
}

fn a32(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap()
}
fn a64(b: &[u8]) -> [u8; 64] {
    b.try_into().unwrap()
}
macro_rules! hash_type {
    ($t:ident) => {
        Hexy {
            name: stringify!($t),
            n: 32,
            prefix: "",
            text: |b| hexs(b),
            print: |b| $t::from(a32(b)).to_string(),
            parse: |s| $t::parse_string(s).ok().map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()),
            json: |s| serde_json::from_value::<$t>(json!(s)).ok().map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()),
            to_json: |b| serde_json::to_value($t::from(a32(b))).unwrap_or_default(),
        }
    };
}
fn leaf_bytes(l: &Leaf) -> Vec<u8> {
    let mut v = vec![];
    sia::encoding::SiaEncodable::encode(l, &mut v).unwrap();
    v
}
const HEXY: &[Hexy] = &[
    Hexy {
        name: "Address",
        n: 32,
        prefix: "",
        text: |b| address(b),
        print: |b| Address::new(a32(b)).to_string(),
        parse: |s| Address::parse_string(s).ok().map(|x| x.as_ref().to_vec()),
        json: |s| serde_json::from_value::<Address>(json!(s)).ok().map(|x| x.as_ref().to_vec()),
        to_json: |b| serde_json::to_value(Address::new(a32(b))).unwrap_or_default(),
    },
    hash_type!(Hash256),
    hash_type!(SiacoinOutputID),
    hash_type!(SiafundOutputID),
    hash_type!(AttestationID),
    hash_type!(BlockID),
    hash_type!(TransactionID),
    hash_type!(FileContractID),
    Hexy {
        name: "PublicKey",
        n: 32,
        prefix: "ed25519:",
        text: |b| format!("ed25519:{}", hexs(b)),
        print: |b| PublicKey::new(a32(b)).to_string(),
        parse: |s| serde_json::from_value::<PublicKey>(json!(s)).ok().map(|x| x.as_ref().to_vec()),
        json: |s| serde_json::from_str::<PublicKey>(&json!(s).to_string()).ok().map(|x| x.as_ref().to_vec()),
        to_json: |b| serde_json::to_value(PublicKey::new(a32(b))).unwrap_or_default(),
    },
    Hexy {
        name: "Signature",
        n: 64,
        prefix: "",
        text: |b| hexs(b),
        print: |b| Signature::new(a64(b)).to_string(),
        parse: |s| Signature::parse_string(s).ok().map(|x| x.data().to_vec()),
        json: |s| serde_json::from_value::<Signature>(json!(s)).ok().map(|x| x.data().to_vec()),
        to_json: |b| serde_json::to_value(Signature::new(a64(b))).unwrap_or_default(),
    },
    Hexy {
        name: "Leaf",
        n: 64,
        prefix: "",
        text: |b| hexs(b),
        print: |b| Leaf::from(a64(b)).to_string(),
        parse: |s| Leaf::parse_string(s).ok().map(|x| leaf_bytes(&x)),
        json: |s| serde_json::from_value::<Leaf>(json!(s)).ok().map(|x| leaf_bytes(&x)),
        to_json: |b| serde_json::to_value(Leaf::from(a64(b))).unwrap_or_default(),
    },
];

/// run code under test; a panic is a violation
fn run<T>(key: &str, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    caught(f).map_err(|p| Fail { key: format!("panic:{key}"), msg: format!("{what}: panicked: {} at {}", p.msg, p.loc) })
}

fn upper(s: &str, from: usize, r: &mut Rng, all: bool) -> String {
    s.char_indices().map(|(i, c)| if i >= from && (all || r.bool()) { c.to_ascii_uppercase() } else { c }).collect()
}

fn canonical(c: &mut Ctx) -> Res {
    for h in HEXY {
        let b = c.r.fixed(h.n);
        let want = (h.text)(&b);
        let got = run(h.name, "printing", || (h.print)(&b))?;
        ensure!(got == want, format!("text:{}", h.name), "{} {} prints as {got:?} instead of {want:?}", h.name, hexs(&b));
        let j = run(h.name, "serializing", || (h.to_json)(&b))?;
        ensure!(j == json!(want), format!("json:{}", h.name), "{} {} serializes as {j} instead of {want:?}", h.name, hexs(&b));
        for s in [want.clone(), upper(&want, h.prefix.len(), &mut c.r, true), upper(&want, h.prefix.len(), &mut c.r, false)] {
            for (how, p) in [("parser", h.parse), ("JSON", h.json)] {
                let got = run(h.name, &format!("parsing {s:?}"), || p(&s))?;
                ensure!(got.as_ref() == Some(&b), format!("parse:{}", h.name), "{}: {how} of {s:?} gives {:?}", h.name, got.map(|x| hexs(&x)));
                c.obs("canonical texts parsed", 1);
            }
        }
        c.seen(h.name, &b);
        c.sample(|| format!("{} {want}", h.name));
    }
    // unlock keys and specifiers
    let mut alg = match c.r.below(5) {
        0 => b"ed25519".to_vec(),
        1 => b"entropy".to_vec(),
        2 => c.r.string(8).into_bytes(),
        3 => {
            let n = c.r.below(17);
            (0..n).map(|_| 32 + c.r.below(95) as u8).collect()
        }
        _ => c.r.pick(&["a:b", ":", "::", "ed25519:", "a\0b", "0123456789abcdef", "é:é", "", " ", "ffffffffffffffff", "ab:cd:ef:"]).as_bytes().to_vec(),
    };
    while alg.len() > 16 || std::str::from_utf8(&alg).is_err() {
        alg.pop();
    }
    alg.resize(16, 0);
    let n = *c.r.pick(&[32usize, 32, 32, 0, 1, 31, 33, 64, 300]);
    let key = c.r.bytes(n);
    let spec = Specifier::new(alg.clone().try_into().unwrap());
    let k = v1::UnlockKey { algorithm: spec, key: key.clone() };
    let want = unlock_key(&alg, &key).unwrap();
    let name = want[..want.len() - 2 * key.len() - 1].to_string();
    let got = run("UnlockKey", "printing an unlock key", || k.to_string())?;
    ensure!(got == want, "text:UnlockKey", "unlock key prints as {got:?} instead of {want:?}");
    for s in [want.clone(), upper(&want, name.len() + 1, &mut c.r, true), upper(&want, name.len() + 1, &mut c.r, false)] {
        let got = run("UnlockKey", &format!("parsing {s:?}"), || v1::UnlockKey::parse_string(&s).ok())?;
        ensure!(got.as_ref() == Some(&k), "parse:UnlockKey", "{s:?} parses to {got:?}");
        let got = run("UnlockKey", &format!("parsing {s:?}"), || serde_json::from_value::<v1::UnlockKey>(json!(s)).ok())?;
        ensure!(got.as_ref() == Some(&k), "parse:UnlockKey", "{s:?} parses from JSON to {got:?}");
        c.obs("canonical texts parsed", 2);
    }
    let got = run("Specifier", "printing a specifier", || spec.to_string())?;
    ensure!(got == name, "text:Specifier", "specifier prints as {got:?} instead of {name:?}");
    let got = run("Specifier", "converting text to a specifier", || Specifier::from(name.as_str()))?;
    ensure!(got == spec && got.as_bytes()[..] == alg[..], "parse:Specifier", "{name:?} gives specifier {:?}", got.as_bytes());
    c.seen("UnlockKey", want.as_bytes());
    // a public key as an unlock key keeps its text
    let pk = PublicKey::new(a32(&c.r.fixed(32)));
    let t = v1::UnlockKey::from(pk).to_string();
    ensure!(t == pk.to_string(), "text:UnlockKey", "public key {pk} as an unlock key prints as {t:?}");
    // chain index
    let (height, id) = (c.r.n64(), c.r.fixed(32));
    let ci = ChainIndex { height, id: BlockID::new(a32(&id)) };
    let got = run("ChainIndex", "printing", || ci.to_string())?;
    let want = format!("{height}:{}", hexs(&id));
    ensure!(got == want, "text:ChainIndex", "chain index prints as {got:?} instead of {want:?}");
    c.obs("texts compared", HEXY.len() as u64 + 4);
    Ok(())
}

/// every single-digit change of an address, and several at once
fn corrupt(c: &mut Ctx) -> Res {
    let b = c.r.fixed(32);
    let good = address(&b);
    let h = &HEXY[0];
    let refused = |c: &mut Ctx, s: &str, what: &str| -> Res {
        for p in [h.parse, h.json] {
            if let Some(x) = run("Address", &format!("parsing {s:?}"), || p(s))? {
                fail!("checksum", "{what}: {s:?} is accepted as the address of {} (the valid text is {good:?})", hexs(&x));
            }
        }
        c.obs("corrupted addresses refused", 1);
        Ok(())
    };
    let digits = b"0123456789abcdef";
    let mut t = good.clone().into_bytes();
    for i in 0..t.len() {
        let keep = t[i];
        for d in digits {
            if *d == keep {
                continue;
            }
            t[i] = if c.r.one_in(5) { d.to_ascii_uppercase() } else { *d };
            let s = String::from_utf8(t.clone()).unwrap();
            refused(c, &s, &format!("digit {i} changed"))?;
        }
        t[i] = keep;
    }
    for _ in 0..60 {
        let mut t = good.clone().into_bytes();
        let what = c.r.below(6);
        match what {
            0 => {
                let n = 2 + c.r.below(6);
                for _ in 0..n {
                    let i = c.r.below(76);
                    t[i] = *c.r.pick(digits);
                }
            }
            1 => {
                let (i, j) = (c.r.below(76), c.r.below(76));
                t.swap(i, j);
            }
            2 => {
                // only the checksum
                for i in 64..76 {
                    t[i] = *c.r.pick(digits);
                }
            }
            3 => {
                // checksum of another address
                let o = address(&c.r.fixed(32)).into_bytes();
                t[64..].copy_from_slice(&o[64..]);
            }
            4 => t.rotate_left(1 + c.r.below(75)),
            _ => {
                // part of the checksum zeroed or complemented
                let i = 64 + c.r.below(12);
                let z = c.r.bool();
                for x in t.iter_mut().skip(i) {
                    *x = if z { b'0' } else { digits[15 - (*x as char).to_digit(16).unwrap() as usize] };
                }
            }
        }
        let s = String::from_utf8(t).unwrap();
        let bytes: Vec<u8> = (0..76).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect();
        if model::blake::blake2b256(&bytes[..32])[..6] == bytes[32..] {
            continue;
        }
        refused(c, &s, "several digits changed")?;
    }
    c.seen("corrupt", &b);
    c.sample(|| format!("{good} with every digit changed"));
    Ok(())
}

/// texts of other lengths or with other characters are refused by every parser
fn shapes(c: &mut Ctx) -> Res {
    let h = c.r.pick(HEXY);
    let b = c.r.fixed(h.n);
    let good = (h.text)(&b);
    let p = h.prefix.len();
    for _ in 0..20 {
        let mut s = good.clone();
        let what = c.r.below(8);
        match what {
            0 => {
                let n = 1 + c.r.below(good.len());
                s.truncate(good.len() - n);
            }
            1 => {
                let n = *c.r.pick(&[1usize, 1, 2, 2, 12, 64, 76]);
                s.push_str(&hexs(&c.r.bytes(n))[..n]);
            }
            2 => {
                let n = 1 + c.r.below(good.len() - p);
                s.replace_range(p..p + n, "");
            }
            3 => {
                let n = *c.r.pick(&[1usize, 2, 2, 12, 64]);
                s.insert_str(p, &hexs(&c.r.bytes(n))[..n]);
            }
            4 => s = format!(" {s}"),
            5 => s.push(*c.r.pick(&[' ', '\n', '\0'])),
            6 => s.insert_str(p, "0x"),
            _ => {
                let i = p + c.r.below(good.len() - p);
                s.replace_range(i..i + 1, *c.r.pick(&["g", "G", "/", "@", "`", " ", "-", "+", "_", ".", "x", "\0", "~", "\u{7f}"]));
            }
        }
        for q in [h.parse, h.json] {
            if let Some(x) = run(h.name, &format!("parsing {s:?}"), || q(&s))? {
                fail!(format!("shape:{}", h.name), "{}: {s:?} is accepted as {}", h.name, hexs(&x));
            }
        }
        c.obs("misshapen texts refused", 1);
        c.seen(h.name, s.as_bytes());
    }
    if !h.prefix.is_empty() {
        for q in ["", "ed25519", "ed25518:", "Ed25519:", "ED25519:", "ed25519::", "entropy:", "ed25519: ", " ed25519:", "ed25519;"] {
            let s = format!("{q}{}", &good[p..]);
            for f in [h.parse, h.json] {
                ensure!(run(h.name, "parsing", || f(&s))?.is_none(), format!("prefix:{}", h.name), "{}: {s:?} is accepted", h.name);
            }
        }
    }
    // unlock keys need a prefix of at most 16 bytes and whole bytes of hex
    let k = hexs(&c.r.bytes(32));
    for s in [k.clone(), format!("ed25519:{}", &k[1..]), format!("ed25519:{k}g"), format!("12345678901234567:{k}"), format!("ed25519 {k}"), String::new(), format!("ed25519:{k}:zz")] {
        if let Some(x) = run("UnlockKey", "parsing", || v1::UnlockKey::parse_string(&s).ok())? {
            fail!("shape:UnlockKey", "unlock key {s:?} is accepted as {x:?}");
        }
    }
    Ok(())
}

const LITERALS: u64 = if cfg!(feature = "goodlit") { 176 } else { 0 };

fn macros(c: &mut Ctx) -> Res {
    for (m, lit, got, parsed) in run("macro", "literal macros", literals::good)? {
        let digits = lit.rsplit(':').next().unwrap();
        let want: Vec<u8> = (0..64).step_by(2).map(|i| u8::from_str_radix(&digits[i..i + 2], 16).unwrap()).collect();
        ensure!(got == want, format!("macro:{m}"), "{m}!({lit:?}) is {}", hexs(&got));
        ensure!(parsed == want, format!("macro-parser:{m}"), "the parser gives {} for {lit:?}", hexs(&parsed));
        c.obs("literals compared", 1);
        c.seen(m, lit.as_bytes());
    }
    for (m, lit, f) in literals_bad::bad() {
        if let Ok(x) = caught(f) {
            fail!(format!("macro-bad:{m}"), "{m}!({lit:?}) is accepted as {}", hexs(&x));
        }
        c.obs("bad literals refused", 1);
        c.seen(m, lit.as_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13

fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
fn pow10(n: u32) -> BigUint {
    big(10).pow(n)
}
const UNITS: [(&str, u32); 11] = [("", 0), ("H", 0), ("pS", 12), ("nS", 15), ("uS", 18), ("mS", 21), ("SC", 24), ("KS", 27), ("MS", 30), ("GS", 33), ("TS", 36)];

enum Oracle {
    /// parses to exactly this
    Exact(u128),
    /// must be refused
    Refuse,
    /// may be refused, otherwise exactly this
    Maybe(u128),
}

/// what a text means, by exact rational arithmetic
fn meaning(s: &str) -> Oracle {
    fn strict(s: &str) -> Option<(Option<u128>, bool)> {
        let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        let (int, rest) = s.split_at(n);
        let (frac, rest) = match rest.strip_prefix('.') {
            Some(x) => {
                let n = x.bytes().take_while(|b| b.is_ascii_digit()).count();
                if n == 0 {
                    return None;
                }
                x.split_at(n)
            }
            None => ("", rest),
        };
        let unit = rest.trim_matches(' ');
        let exp = UNITS.iter().find(|u| u.0 == unit)?.1;
        let point = !frac.is_empty();
        let num: BigUint = format!("{int}{frac}").parse().unwrap();
        let num = num * pow10(exp);
        let den = pow10(frac.len() as u32);
        let value = if (&num % &den).is_zero() { (num / den).to_u128() } else { None };
        Some((value, point && exp == 0))
    }
    match strict(s) {
        Some((Some(v), false)) => Oracle::Exact(v),
        Some((Some(v), true)) => Oracle::Maybe(v), // "1.0 H": hastings take no decimal point
        Some((None, _)) => Oracle::Refuse,
        None => {
            let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
            match strict(&t) {
                Some((Some(v), _)) => Oracle::Maybe(v),
                _ => Oracle::Refuse,
            }
        }
    }
}

fn check_currency(c: &mut Ctx, s: &str) -> Res {
    let want = meaning(s);
    let js = json!(s);
    for (how, got) in [
        ("parse_string", caught(|| Currency::parse_string(s).ok())),
        ("JSON", caught(|| serde_json::from_value::<Currency>(js.clone()).ok())),
        ("JSON text", caught(|| serde_json::from_str::<Currency>(&js.to_string()).ok())),
    ] {
        let got = match got {
            Ok(x) => x.map(|x| *x),
            Err(p) => fail!("panic", "{how} of {s:?} panicked: {} at {}", p.msg, p.loc),
        };
        match (&want, got) {
            (Oracle::Exact(v), Some(g)) if g == *v => c.obs("amounts parsed exactly", 1),
            (Oracle::Exact(v), Some(g)) => fail!("wrong", "{how}: {s:?} parses to {g} instead of {v}"),
            (Oracle::Exact(v), None) => fail!("refused", "{how}: {s:?} is refused although it is {v} hastings"),
            (Oracle::Refuse, None) => c.obs("texts refused", 1),
            (Oracle::Refuse, Some(g)) => fail!("accepted", "{how}: {s:?} is accepted as {g}"),
            (Oracle::Maybe(v), Some(g)) => ensure!(g == *v, "wrong", "{how}: {s:?} parses to {g} instead of {v} or an error"),
            (Oracle::Maybe(_), None) => c.obs("texts refused", 1),
        }
    }
    c.seen("text", s.as_bytes());
    c.sample(|| s.to_string());
    Ok(())
}

/// amounts whose exact value is known
fn amounts(c: &mut Ctx) -> Res {
    for _ in 0..8 {
        let (unit, exp) = *c.r.pick(&UNITS);
        let v: BigUint = match c.r.below(6) {
            0 => big(u128::MAX) - big(c.r.below(3) as u128),
            1 => big(u128::MAX) + big(1 + c.r.below(3) as u128),
            2 => {
                // near the limits of the integer part alone
                let k = big(u128::MAX) / pow10(exp);
                (k + big(c.r.below(3) as u128)) * pow10(exp)
            }
            3 => {
                // near where a factor wraps
                let k = (BigUint::one() << 128u32) * big(1 + c.r.n64() as u128 % 1000) / pow10(exp) + big(c.r.below(3) as u128);
                k * pow10(exp) + if c.r.bool() { big(c.r.n64() as u128) } else { BigUint::zero() }
            }
            4 => big(c.r.n64() as u128) * pow10(c.r.below(21) as u32),
            _ => big(c.r.n128()),
        };
        // extra digits below one hasting
        let extra = if c.r.one_in(4) { 1 + c.r.below(20) as u32 } else { 0 };
        let num = if extra > 0 && c.r.bool() { &v * pow10(extra) + big(c.r.below(1000) as u128) % pow10(extra) } else { &v * pow10(extra) };
        let digits = exp + extra;
        let (i, f) = (&num / pow10(digits), &num % pow10(digits));
        let mut s = String::new();
        if c.r.one_in(4) {
            s.push_str(&"0".repeat(*c.r.pick(&[1, 2, 5, 40])));
        }
        s.push_str(&i.to_string());
        if digits > 0 && (!f.is_zero() || c.r.one_in(3)) {
            let mut t = format!("{:0>width$}", f.to_string(), width = digits as usize);
            match c.r.below(3) {
                0 => {}
                1 => t.push_str(&"0".repeat(*c.r.pick(&[1usize, 3, 13, 40]))),
                _ => {
                    t = t.trim_end_matches('0').to_string();
                    if t.is_empty() {
                        t.push('0');
                    }
                }
            }
            s.push('.');
            s.push_str(&t);
        }
        s.push_str(*c.r.pick(&["", " ", " ", "  "]));
        s.push_str(unit);
        check_currency(c, &s)?;
        c.obs(&format!("unit:{unit}"), 1);
    }
    Ok(())
}

fn texts(c: &mut Ctx) -> Res {
    for _ in 0..8 {
        let s = currency_text(&mut c.r);
        check_currency(c, &s)?;
    }
    // printing
    let v = c.r.n128();
    let cur = Currency::new(v);
    let t = (*cur).to_string();
    ensure!(t == big(v).to_string(), "print", "{v} prints as {t}");
    check_currency(c, &t)?;
    match run("serialize", "serializing", || serde_json::to_value(cur).ok())? {
        Some(x) if x == json!(t) => {}
        x => fail!("json", "{v} serializes as {x:?}"),
    }
    c.obs("amounts printed", 1);
    Ok(())
}

/// JSON numbers, and every integer the deserializer may be handed
fn numbers(c: &mut Ctx) -> Res {
    type E = dv::Error;
    let u = c.r.n64();
    let j = run("number", "JSON number", || serde_json::from_value::<Currency>(json!(u)).ok())?;
    ensure!(j.map(|x| *x) == Some(u as u128), "number", "JSON number {u} gives {j:?}");
    let j = run("number", "JSON number", || serde_json::from_str::<Currency>(&u.to_string()).ok())?;
    ensure!(j.map(|x| *x) == Some(u as u128), "number", "JSON number {u} gives {j:?}");
    let i = c.r.u64() as i64 >> c.r.below(64);
    let wide = c.r.n128();
    let iw = (c.r.u128() as i128) >> c.r.below(128);
    let nn = |x: i128| if x < 0 { None } else { Some(x as u128) };
    let got: Vec<(&str, Option<Currency>, Option<u128>)> = run("integer", "integers", || {
        vec![
            ("u8", Currency::deserialize(dv::U8Deserializer::<E>::new(u as u8)).ok(), Some(u as u8 as u128)),
            ("u16", Currency::deserialize(dv::U16Deserializer::<E>::new(u as u16)).ok(), Some(u as u16 as u128)),
            ("u32", Currency::deserialize(dv::U32Deserializer::<E>::new(u as u32)).ok(), Some(u as u32 as u128)),
            ("u64", Currency::deserialize(dv::U64Deserializer::<E>::new(u)).ok(), Some(u as u128)),
            ("u128", Currency::deserialize(dv::U128Deserializer::<E>::new(wide)).ok(), Some(wide)),
            ("i8", Currency::deserialize(dv::I8Deserializer::<E>::new(i as i8)).ok(), nn(i as i8 as i128)),
            ("i16", Currency::deserialize(dv::I16Deserializer::<E>::new(i as i16)).ok(), nn(i as i16 as i128)),
            ("i32", Currency::deserialize(dv::I32Deserializer::<E>::new(i as i32)).ok(), nn(i as i32 as i128)),
            ("i64", Currency::deserialize(dv::I64Deserializer::<E>::new(i)).ok(), nn(i as i128)),
            ("i128", Currency::deserialize(dv::I128Deserializer::<E>::new(iw)).ok(), nn(iw)),
            ("JSON i64", serde_json::from_str(&i.to_string()).ok(), nn(i as i128)),
        ]
    })?;
    for (what, g, want) in got {
        let g = g.map(|x| *x);
        ensure!(g == want, "number", "{what}: {u} / {i} / {wide} / {iw} gives {g:?} instead of {want:?}");
        c.obs("integers", 1);
    }
    for s in [format!("{u}.5"), format!("{u}.0"), format!("-{}", u | 1), "1e3".into(), "1E400".into(), "null".into(), "true".into(), "[1]".into(), "{}".into(), format!("{u}{u}{u}{u}{u}"), "-1".into(), "\"-1\"".into()] {
        match run("number", &s, || serde_json::from_str::<Currency>(&s).ok())? {
            None => c.obs("texts refused", 1),
            // a plain integer wider than JSON numbers usually are may be accepted, exactly
            Some(g) if (*g).to_string() == s => {}
            Some(g) => fail!("accepted", "JSON {s} is accepted as {}", *g),
        }
    }
    c.seen("numbers", &[u.to_le_bytes(), i.to_le_bytes()].concat());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

fn expect(c: &mut Ctx, what: &str, args: &str, got: Result<Currency, Panicked>, want: Option<BigUint>) -> Res {
    let want = want.and_then(|x| x.to_u128());
    match (got, want) {
        (Ok(g), Some(w)) if *g == w => c.obs("exact results", 1),
        (Ok(g), Some(w)) => fail!(format!("wrong:{what}"), "{what} of {args} is {} instead of {w}", *g),
        (Ok(g), None) => fail!(format!("wrapped:{what}"), "{what} of {args} gives {} although there is no such amount", *g),
        (Err(_), None) => c.obs("overflows refused", 1),
        (Err(p), Some(w)) => fail!(format!("panic:{what}"), "{what} of {args} panicked ({} at {}) instead of giving {w}", p.msg, p.loc),
    }
    c.obs(&format!("op:{what}"), 1);
    Ok(())
}
fn expect_opt(c: &mut Ctx, what: &str, args: &str, got: Result<Option<Currency>, Panicked>, want: Option<BigUint>) -> Res {
    let want = want.and_then(|x| x.to_u128());
    match got {
        Ok(g) if g.map(|x| *x) == want => {}
        Ok(g) => fail!(format!("wrong:{what}"), "{what} of {args} gives {:?} instead of {want:?}", g.map(|x| *x)),
        Err(p) => fail!(format!("panic:{what}"), "{what} of {args} panicked: {} at {}", p.msg, p.loc),
    }
    c.obs(if want.is_some() { "exact results" } else { "overflows refused" }, 1);
    c.obs(&format!("op:{what}"), 1);
    Ok(())
}

fn pair(r: &mut Rng) -> (u128, u128) {
    let a = r.n128();
    let b = match r.below(10) {
        0 => u128::MAX - a,
        1 => (u128::MAX - a).wrapping_add(1),
        2 => a,
        3 => a.wrapping_sub(1),
        4 => a.wrapping_add(1),
        5 if a > 0 => u128::MAX / a,
        6 if a > 0 => (u128::MAX / a).wrapping_add(1),
        7 => 0,
        _ => r.n128(),
    };
    if r.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

fn arithmetic(c: &mut Ctx) -> Res {
    for _ in 0..4 {
        let (x, y) = pair(&mut c.r);
        let (a, b) = (Currency::new(x), Currency::new(y));
        let args = format!("{x}, {y}");
        let sub = if x >= y { Some(big(x) - big(y)) } else { None };
        let div = if y == 0 { None } else { Some(big(x) / big(y)) };
        let rem = if y == 0 { None } else { Some(big(x) % big(y)) };
        expect(c, "add", &args, caught(|| a + b), Some(big(x) + big(y)))?;
        expect(c, "sub", &args, caught(|| a - b), sub.clone())?;
        expect(c, "mul", &args, caught(|| a * b), Some(big(x) * big(y)))?;
        expect(c, "div", &args, caught(|| a / b), div.clone())?;
        expect(c, "rem", &args, caught(|| a % b), rem)?;
        expect_opt(c, "checked_add", &args, caught(|| a.checked_add(b)), Some(big(x) + big(y)))?;
        expect_opt(c, "checked_sub", &args, caught(|| a.checked_sub(b)), sub)?;
        expect_opt(c, "checked_mul", &args, caught(|| a.checked_mul(b)), Some(big(x) * big(y)))?;
        expect_opt(c, "checked_div", &args, caught(|| a.checked_div(b)), div)?;
        // order and equality
        let want = big(x).cmp(&big(y));
        let got = run("cmp", "comparison", || (a.cmp(&b), a.partial_cmp(&b), a == b, a < b, a <= b, a > b, a >= b, a.max(b), a.min(b)))?;
        let eq = want == Ordering::Equal;
        ensure!(
            got == (want, Some(want), eq, want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), if want.is_gt() { a } else { b }, if want.is_gt() { b } else { a }),
            "wrong:cmp",
            "comparison of {args} gives {got:?}"
        );
        let t: Option<u64> = run("try_into", "conversion", || a.try_into().ok())?;
        ensure!(t == big(x).to_u64(), "wrong:try_into", "{x} converts to 64 bits as {t:?}");
        ensure!(*a == x && Currency::default() == Currency::zero() && *Currency::zero() == 0, "wrong:new", "constructors of {x}");
        c.seen("pair", &[x.to_le_bytes(), y.to_le_bytes()].concat());
        c.sample(|| format!("all operations on {args}"));
    }
    Ok(())
}

fn sums(c: &mut Ctx) -> Res {
    let n = *c.r.pick(&[0usize, 1, 2, 3, 10, 100]);
    let mut xs: Vec<u128> = (0..n).map(|_| c.r.n128() / if c.r.bool() { n as u128 + 1 } else { 1 }).collect();
    let total: BigUint = xs.iter().map(|x| big(*x)).sum();
    if n > 0 && c.r.one_in(3) {
        // exactly at the limit, or one beyond it
        if let Some(t) = total.to_u128() {
            xs.push(u128::MAX - t);
            if c.r.bool() {
                xs.push(1);
            }
        }
    }
    for i in (1..xs.len()).rev() {
        let j = c.r.below(i + 1);
        xs.swap(i, j);
    }
    let total: BigUint = xs.iter().map(|x| big(*x)).sum();
    let args = format!("{xs:?}");
    expect(c, "sum", &args, caught(|| xs.iter().map(|x| Currency::new(*x)).sum::<Currency>()), Some(total))?;
    let k = match c.r.below(4) {
        0 => 340_282_366_920_938 + c.r.below(3) as u64,
        _ => c.r.n64(),
    };
    expect(c, "siacoins", &k.to_string(), caught(|| Currency::siacoins(k)), Some(big(k as u128) * pow10(24)))?;
    c.seen("sum", args.as_bytes());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let std: &[&str] = &["the harness's own hexadecimal, BLAKE2b and big-integer arithmetic are the reference"];
    vec![
        Prop {
            id: "C12",
            rule: "random and patterned values of every type printed and parsed; every single-digit change of an address; misshapen texts; literals with every digit at every position; distinct by type and content",
            monitors: vec![
                Monitor { name: "canonical", weight: 4, f: canonical },
                Monitor { name: "corrupt", weight: 2, f: corrupt },
                Monitor { name: "shapes", weight: 3, f: shapes },
                Monitor { name: "macros", weight: 1, f: macros },
            ],
            quick_ms: 12_000,
            thorough_ms: 90_000,
            must: &[("canonical texts parsed", 20_000), ("texts compared", 5000), ("corrupted addresses refused", 100_000), ("misshapen texts refused", 5000), ("literals compared", LITERALS)],
            assumptions: std,
        },
        Prop {
            id: "C13",
            rule: "exact decimal forms of known amounts in every unit, damaged amounts, JSON numbers of every width; distinct by text",
            monitors: vec![Monitor { name: "amounts", weight: 4, f: amounts }, Monitor { name: "texts", weight: 3, f: texts }, Monitor { name: "numbers", weight: 1, f: numbers }],
            quick_ms: 12_000,
            thorough_ms: 90_000,
            must: &[
                ("amounts parsed exactly", 10_000),
                ("texts refused", 5000),
                ("integers", 2000),
                ("unit:", 100),
                ("unit:H", 100),
                ("unit:pS", 100),
                ("unit:nS", 100),
                ("unit:uS", 100),
                ("unit:mS", 100),
                ("unit:SC", 100),
                ("unit:KS", 100),
                ("unit:MS", 100),
                ("unit:GS", 100),
                ("unit:TS", 100),
            ],
            assumptions: std,
        },
        Prop {
            id: "C14",
            rule: "pairs, lists and counts around every limit of 128-bit arithmetic, each operation compared with big-integer arithmetic, in an unchecked and an overflow-checked build; distinct by operands",
            monitors: vec![Monitor { name: "arithmetic", weight: 3, f: arithmetic }, Monitor { name: "sums", weight: 1, f: sums }],
            quick_ms: 12_000,
            thorough_ms: 90_000,
            must: &[("exact results", 20_000), ("overflows refused", 5000), ("op:add", 1000), ("op:sub", 1000), ("op:mul", 1000), ("op:sum", 500), ("op:siacoins", 500)],
            assumptions: std,
        },
    ]
}
