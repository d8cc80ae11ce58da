//! Reference JSON representation over value trees.
use crate::blake::blake2b256;
use crate::val::*;
use num_bigint::BigUint;
use serde_json::{json, Map, Value};

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(x >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
        s.push(b"0123456789abcdef"[(x & 15) as usize] as char);
    }
    s
}

pub fn address(b: &[u8]) -> String {
    format!("{}{}", hexs(b), hexs(&blake2b256(b)[..6]))
}

/// Howard Hinnant's civil_from_days
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d)
}

pub fn rfc3339(t: i64, ns: u32) -> String {
    let (y, m, d) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    let mut out = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, s / 3600, s / 60 % 60, s % 60);
    if ns != 0 {
        let f = format!("{:09}", ns);
        out.push('.');
        out.push_str(f.trim_end_matches('0'));
    }
    out.push('Z');
    out
}

/// text of an unlock key; the algorithm must be UTF-8
pub fn unlock_key(alg: &[u8], key: &[u8]) -> Option<String> {
    let n = alg.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    let a = std::str::from_utf8(&alg[..n]).ok()?;
    Some(format!("{}:{}", a, hexs(key)))
}

pub fn to_json(ty: &Ty, v: &Val) -> Value {
    match (ty, v) {
        (Ty::Int(64, true), Val::U(x)) => json!(*x as i64),
        (Ty::Int(_, true), Val::U(x)) => json!(*x as i64),
        (Ty::Int(..) | Ty::U8, Val::U(x)) => json!(x),
        (Ty::Bool, Val::Bool(b)) => json!(b),
        (Ty::Cur, Val::Cur(x)) => json!(x.to_string()),
        (Ty::Work, Val::B(b)) => json!(BigUint::from_bytes_be(b).to_string()),
        (Ty::Fix(_, k), Val::B(b)) => match k {
            FixJson::Hex => json!(hexs(b)),
            FixJson::Address => json!(address(b)),
            FixJson::PubKey => json!(format!("ed25519:{}", hexs(b))),
            FixJson::Array => Value::Array(b.iter().map(|x| json!(x)).collect()),
        },
        (Ty::Blob, Val::Blob(b)) => json!(base64(b)),
        (Ty::Str, Val::Str(s)) => json!(s),
        (Ty::Time, Val::Time(t, n)) => json!(rfc3339(*t, *n)),
        (Ty::Dur, Val::Dur(d)) => json!(*d as u64),
        (Ty::List(t), Val::List(l)) => Value::Array(l.iter().map(|x| to_json(t, x)).collect()),
        (Ty::PrevTs, Val::List(l)) => Value::Array(l.iter().map(|x| to_json(&Ty::Time, x)).collect()),
        (Ty::Opt(t), Val::Opt(o)) => match o {
            None => Value::Null,
            Some(x) => to_json(t, x),
        },
        (Ty::UnlockKey, Val::St(f)) => json!(unlock_key(f[0].b(), f[1].b()).expect("utf-8 algorithm")),
        (Ty::Policy, Val::En(k, x)) => {
            let names = ["above", "after", "pk", "h", "thresh", "opaque", "uc"];
            let p = match k {
                0 => json!(x.u()),
                1 => json!(x.time().0 as u64),
                2 => json!(format!("ed25519:{}", hexs(x.b()))),
                3 => json!(hexs(x.b())),
                4 => {
                    let s = x.st();
                    json!({"n": s[0].u(), "of": s[1].list().iter().map(|c| to_json(&Ty::Policy, c)).collect::<Vec<_>>()})
                }
                5 => json!(address(x.b())),
                _ => to_json(&uc(), x),
            };
            json!({"type": names[*k], "policy": p})
        }
        (Ty::Acc, Val::St(f)) => json!({
            "numLeaves": f[0].u(),
            "trees": f[1].list().iter().map(|h| json!(hexs(h.b()))).collect::<Vec<_>>(),
        }),
        (Ty::Resolution(a, b), Val::En(k, x)) => match k {
            0 => json!({"renewal": to_json(&Ty::Struct(a), x)}),
            1 => json!({"storageProof": to_json(&Ty::Struct(b), x)}),
            _ => json!({"expiration": []}),
        },
        (Ty::Struct(d), Val::St(f)) => {
            let mut m = Map::new();
            if d.kind == Kind::Resolution {
                m.insert("parent".into(), to_json(&d.fields[0].ty, &f[0]));
                let (Ty::Resolution(a, b), Val::En(k, x)) = (&d.fields[1].ty, &f[1]) else { panic!() };
                let (n, r) = match k {
                    0 => ("renewal", to_json(&Ty::Struct(a), x)),
                    1 => ("storageProof", to_json(&Ty::Struct(b), x)),
                    _ => ("expiration", json!({})),
                };
                m.insert("type".into(), json!(n));
                m.insert("resolution".into(), r);
                return Value::Object(m);
            }
            for (fd, x) in d.fields.iter().zip(f) {
                let empty = match x {
                    Val::List(l) => l.is_empty(),
                    Val::Blob(b) => b.is_empty(),
                    Val::Opt(o) => o.is_none(),
                    _ => false,
                };
                if fd.skip == Skip::Empty && empty {
                    continue;
                }
                m.insert(fd.json.into(), to_json(&fd.ty, x));
            }
            Value::Object(m)
        }
        _ => panic!("no JSON for {ty:?} / {v:?}"),
    }
}

#[test]
fn t() {
    assert_eq!(rfc3339(0, 0), "1970-01-01T00:00:00Z");
    assert_eq!(rfc3339(1433600000, 500_000_000), "2015-06-06T14:13:20.5Z");
    assert_eq!(rfc3339(RFC_MIN, 0), "0000-01-01T00:00:00Z");
    assert_eq!(rfc3339(TIME_MAX, 0), "9999-12-31T23:59:59Z");
    assert_eq!(base64(b"foob"), "Zm9vYg==");
}
