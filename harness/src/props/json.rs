//! C09–C11, C31: JSON documents, text parsers and binary serde formats.
use super::util::*;
use crate::ensure;
use crate::eng::*;
use crate::fail;
use crate::io::Rd;
use crate::models::*;
use model::refjson;
use model::rng::Rng;
use model::val::*;
use serde_json::{json, Map, Value};
use sia::seed::Seed;
use sia::signing::{PublicKey, Signature};
use sia::types::*;
use std::collections::BTreeMap;

fn jentry(r: &mut Rng) -> &'static Entry {
    pick_entry(r, |e| e.json)
}

fn is_raw_resolution(e: &Entry) -> bool {
    e.name == "v2::ContractResolution"
}

// ---------------------------------------------------------------------------------------------
// rendering

fn jstr(s: &str, r: &mut Rng, esc: usize, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let forced = c == '"' || c == '\\' || (c as u32) < 0x20;
        if forced && c == '"' && r.bool() {
            out.push_str("\\\"");
        } else if c == '/' && esc > 0 && r.one_in(3) {
            out.push_str("\\/");
        } else if forced || esc > 0 && r.one_in(esc) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if r.bool() {
                    out.push_str(&format!("\\u{u:04x}"));
                } else {
                    out.push_str(&format!("\\u{u:04X}"));
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn ws(r: &mut Rng, on: bool, out: &mut String) {
    if on && r.one_in(3) {
        for _ in 0..1 + r.below(3) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

/// JSON text of a document, with random key order, white space and escapes
pub fn render(v: &Value, r: &mut Rng, white: bool, esc: usize, out: &mut String) {
    ws(r, white, out);
    match v {
        Value::Object(m) => {
            let mut ks: Vec<(&String, &Value)> = m.iter().collect();
            for i in (1..ks.len()).rev() {
                ks.swap(i, r.below(i + 1));
            }
            out.push('{');
            for (i, (k, x)) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, white, out);
                jstr(k, r, esc, out);
                ws(r, white, out);
                out.push(':');
                render(x, r, white, esc, out);
            }
            ws(r, white, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(x, r, white, esc, out);
            }
            ws(r, white, out);
            out.push(']');
        }
        Value::String(s) => jstr(s, r, esc, out),
        _ => out.push_str(&v.to_string()),
    }
    ws(r, white, out);
}

/// add the omitted fields explicitly (empty list, empty string, null), each with probability one half
fn explicit(ty: &Ty, v: &Val, j: &mut Value, r: &mut Rng) {
    match (ty, v, j) {
        (Ty::List(t), Val::List(l), Value::Array(a)) => l.iter().zip(a).for_each(|(x, y)| explicit(t, x, y, r)),
        (Ty::Struct(d), Val::St(f), Value::Object(m)) => {
            for (fd, x) in d.fields.iter().zip(f) {
                if let Some(y) = m.get_mut(fd.json) {
                    explicit(&fd.ty, x, y, r);
                } else if fd.skip == Skip::Empty && r.bool() {
                    let e = match fd.ty {
                        Ty::List(_) => json!([]),
                        Ty::Blob => json!(""),
                        _ => Value::Null,
                    };
                    m.insert(fd.json.into(), e);
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------
// C09

fn same_value(c: &mut Ctx, e: &Entry, v: &Val, d: &dyn Dyn, how: &str, text: &str, got: Result<Result<Box<dyn Dyn>, String>, Panicked>) -> Res {
    match got {
        Ok(Ok(g)) => {
            let gv = g.to_val();
            ensure!(gv == *v, format!("value:{}", e.name), "{}: {how} parses to another value: {}\n{}", e.name, vdiff(&gv, v), short(&text));
            ensure!(g.same(d) && d.same(&*g), format!("equality:{}", e.name), "{}: {how}: parsed value is not equal to the original", e.name);
        }
        Ok(Err(x)) => fail!(format!("refused:{}", e.name), "{}: {how} is refused: {x}\n{}", e.name, short(&text)),
        Err(p) => fail!(format!("panic:{}", e.name), "{}: parsing {how} panicked: {} at {}\n{}", e.name, p.msg, p.loc, short(&text)),
    }
    c.obs("documents parsed back", 1);
    Ok(())
}

fn to_text(e: &Entry, d: &dyn Dyn, v: &Val) -> Result<String, Fail> {
    match caught(|| d.json_text()) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(x)) => Err(Fail { key: format!("serialize:{}", e.name), msg: format!("{}: serializing failed: {x}: {}", e.name, short(v)) }),
        Err(p) => Err(Fail { key: format!("serialize:{}", e.name), msg: format!("{}: serializing panicked: {} at {}: {}", e.name, p.msg, p.loc, short(v)) }),
    }
}
fn to_doc(e: &Entry, d: &dyn Dyn, v: &Val) -> Result<Value, Fail> {
    match caught(|| d.json_value()) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(x)) => Err(Fail { key: format!("serialize-value:{}", e.name), msg: format!("{}: serializing to a document failed: {x}: {}", e.name, short(v)) }),
        Err(p) => Err(Fail { key: format!("serialize-value:{}", e.name), msg: format!("{}: serializing to a document panicked: {} at {}: {}", e.name, p.msg, p.loc, short(v)) }),
    }
}

fn roundtrip(c: &mut Ctx) -> Res {
    for _ in 0..2 {
        let e = jentry(&mut c.r);
        let v = gen_json(e, &mut c.r);
        let d = (e.from_val)(&v);
        let t = to_text(e, &*d, &v)?;
        let doc = to_doc(e, &*d, &v)?;
        let g = caught(|| (e.parse_text)(&t));
        same_value(c, e, &v, &*d, "its JSON text", &t, g)?;
        // serde_json cannot read an empty tuple variant back from a document (only from text)
        if !is_raw_resolution(e) {
            let g = caught(|| (e.parse_value)(doc.clone()));
            same_value(c, e, &v, &*d, "its JSON document", &t, g)?;
        }
        // text and document are the same data
        match serde_json::from_str::<Value>(&t) {
            Ok(x) => ensure!(x == doc, "text-document", "{}: text and document differ: {} / {}", e.name, short(&t), doc),
            Err(x) => fail!("invalid-json", "{}: produced invalid JSON: {x}: {}", e.name, short(&t)),
        }
        c.obs(&format!("type:{}", e.name), 1);
        c.seen(e.name, t.as_bytes());
        c.sample(|| format!("{} {t}", e.name));
    }
    Ok(())
}

/// values that may have no text form: serializing is refused, or reads back equal
fn awkward(c: &mut Ctx) -> Res {
    let e = jentry(&mut c.r);
    let v = gen(e, &mut c.r);
    let d = (e.from_val)(&v);
    match caught(|| d.json_text()) {
        Ok(Ok(t)) => {
            let g = caught(|| (e.parse_text)(&t));
            same_value(c, e, &v, &*d, "its JSON text", &t, g)?;
            c.seen(e.name, t.as_bytes());
        }
        Ok(Err(_)) => c.obs("values refused", 1),
        Err(p) => fail!(format!("serialize:{}", e.name), "{}: serializing panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&v)),
    }
    match caught(|| d.json_value()) {
        Ok(Ok(doc)) => {
            if !is_raw_resolution(e) {
                let t = doc.to_string();
                let g = caught(|| (e.parse_value)(doc.clone()));
                same_value(c, e, &v, &*d, "its JSON document", &t, g)?;
            }
        }
        Ok(Err(_)) => {}
        Err(p) => fail!(format!("serialize-value:{}", e.name), "{}: serializing to a document panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&v)),
    }
    Ok(())
}

fn shuffled(c: &mut Ctx) -> Res {
    let e = jentry(&mut c.r);
    let v = gen_json(e, &mut c.r);
    let d = (e.from_val)(&v);
    let mut doc = to_doc(e, &*d, &v)?;
    explicit(&e.ty, &v, &mut doc, &mut c.r);
    for _ in 0..2 {
        let mut t = String::new();
        let (w, esc) = (c.r.bool(), *c.r.pick(&[0usize, 0, 5, 40]));
        render(&doc, &mut c.r, w, esc, &mut t);
        let g = caught(|| (e.parse_text)(&t));
        same_value(c, e, &v, &*d, "its reordered JSON text", &t, g)?;
        c.obs("reordered documents", 1);
        c.seen(e.name, t.as_bytes());
    }
    if is_raw_resolution(e) {
        return Ok(());
    }
    let g = caught(|| (e.parse_value)(doc.clone()));
    same_value(c, e, &v, &*d, "its document with explicit empty fields", &doc.to_string(), g)?;
    c.sample(|| format!("{} {doc}", e.name));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

fn docdiff(a: &Value, b: &Value, p: &mut String) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                if x.get(k) != y.get(k) {
                    p.push_str(&format!("/{k}"));
                    match (x.get(k), y.get(k)) {
                        (Some(u), Some(v)) => return docdiff(u, v, p),
                        (u, v) => {
                            p.push_str(&format!(": {} vs {}", short(&u), short(&v)));
                            return;
                        }
                    }
                }
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (u, v)) in x.iter().zip(y).enumerate() {
                if u != v {
                    p.push_str(&format!("/{i}"));
                    return docdiff(u, v, p);
                }
            }
        }
        _ => p.push_str(&format!(": got {}, expected {}", short(a), short(b))),
    }
}

fn shape(c: &mut Ctx) -> Res {
    for _ in 0..2 {
        let e = jentry(&mut c.r);
        if is_raw_resolution(e) {
            continue;
        }
        let v = gen_json(e, &mut c.r);
        let d = (e.from_val)(&v);
        let want = refjson::to_json(&e.ty, &v);
        let doc = to_doc(e, &*d, &v)?;
        if doc != want {
            let mut p = String::new();
            docdiff(&doc, &want, &mut p);
            fail!(format!("shape:{}", e.name), "{}: document differs at {p}", e.name);
        }
        let t = to_text(e, &*d, &v)?;
        let back: Value = serde_json::from_str(&t).map_err(|x| Fail { key: "invalid-json".into(), msg: format!("{}: {x}: {}", e.name, short(&t)) })?;
        if back != want {
            let mut p = String::new();
            docdiff(&back, &want, &mut p);
            fail!(format!("text-shape:{}", e.name), "{}: JSON text differs at {p}", e.name);
        }
        // a repeated key would be lost by parsing
        ensure!(t.len() == want.to_string().len(), "duplicate", "{}: JSON text has {} bytes, the document {}", e.name, t.len(), want.to_string().len());
        c.obs("documents compared", 1);
        c.obs(&format!("type:{}", e.name), 1);
        let mut t = String::new();
        render(&want, &mut c.r, false, 0, &mut t);
        let g = caught(|| (e.parse_text)(&t));
        same_value(c, e, &v, &*d, "the API representation", &t, g)?;
        let g = caught(|| (e.parse_value)(want.clone()));
        same_value(c, e, &v, &*d, "the API document", &t, g)?;
        c.seen(e.name, t.as_bytes());
        c.sample(|| format!("{} {want}", e.name));
    }
    Ok(())
}

/// forms other implementations write: currencies as numbers, times with an offset or a fraction
fn foreign(c: &mut Ctx) -> Res {
    // times
    let e = entry("Block");
    let mut g = Gen::json(10);
    g.nanos = false;
    let v = g.gen(&e.ty, &mut c.r);
    let Ty::Struct(def) = &e.ty else { panic!() };
    let ti = def.idx("timestamp");
    let (t, _) = v.st()[ti].time();
    let off = (c.r.below(24 * 60) as i64 - 12 * 60) * 60;
    let mut doc = refjson::to_json(&e.ty, &v);
    if t + off > RFC_MIN && t + off < TIME_MAX {
        let local = refjson::rfc3339(t + off, 0);
        let s = format!("{}{}{:02}:{:02}", &local[..local.len() - 1], if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60);
        doc["timestamp"] = json!(s);
        match caught(|| (e.parse_value)(doc.clone())) {
            Ok(Ok(d)) => {
                let gv = d.to_val();
                ensure!(gv == v, "offset", "timestamp {s} parses to {:?}, expected {:?}", gv.st()[ti], v.st()[ti]);
            }
            Ok(Err(x)) => fail!("offset", "timestamp {s} refused: {x}"),
            Err(p) => fail!("offset", "timestamp {s}: panic {}", p.msg),
        }
        c.obs("times with offset", 1);
        c.seen("offset", s.as_bytes());
    }
    // currency as number
    let n = c.r.n64();
    match serde_json::from_str::<Currency>(&n.to_string()) {
        Ok(x) => ensure!(*x == n as u128, "number", "JSON number {n} parses to {} hastings", *x),
        Err(x) => fail!("number", "JSON number {n} refused as currency: {x}"),
    }
    c.obs("numeric currencies", 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C11

struct Bad<'a> {
    target: isize,
    what: String,
    /// every place met before the target
    places: Vec<String>,
    r: &'a mut Rng,
}

fn numbers(bad: &mut Bad, lo: i128, hi: i128) -> Value {
    let mut v = vec![json!("5"), Value::Null, json!(true), json!([]), json!({}), json!(1.5), json!(0.25), json!(1e300)];
    if lo == 0 {
        v.push(json!(-1));
        v.push(json!(i64::MIN));
        v.push(json!(-(bad.r.n64() as i64).saturating_abs().max(1)));
    }
    for x in [hi + 1, hi * 2 + 2, hi + 1000] {
        if x <= u64::MAX as i128 {
            v.push(json!(x as u64));
        } else {
            v.push(json!(x as f64));
        }
    }
    bad.r.pick(&v).clone()
}

fn bad_hex(n: usize, good: &str, bad: &mut Bad) -> Value {
    let mut s: Vec<u8> = good.bytes().collect();
    match bad.r.below(9) {
        0 => s.truncate(2 * n - 2),
        1 => s.truncate(2 * n - 1),
        2 => s.extend_from_slice(b"00"),
        3 => s.push(b'0'),
        4 => {
            let i = bad.r.below(s.len());
            s[i] = *bad.r.pick(b"gGzZ-_ \"/@`\n");
        }
        5 => {
            let i = bad.r.below(s.len() - 1);
            return json!(format!("{}é{}", &good[..i], &good[i + 2..]));
        }
        6 => s.clear(),
        7 => {
            // 0x prefix within the right length
            s[0] = b'0';
            s[1] = b'x';
        }
        _ => {
            return bad.r.pick(&[Value::Null, json!(5), json!([]), json!({}), json!(false), json!([1, 2, 3])]).clone();
        }
    }
    json!(String::from_utf8(s).unwrap())
}

fn place(bad: &mut Bad, what: &str) -> bool {
    bad.target -= 1;
    if bad.target == -1 {
        bad.what = what.to_string();
        true
    } else {
        if bad.target > 0 {
            bad.places.push(what.to_string());
        }
        false
    }
}

/// the JSON document of a value with the `target`-th place malformed
fn malform(ty: &Ty, v: &Val, bad: &mut Bad) -> Value {
    let good = || refjson::to_json(ty, v);
    match (ty, v) {
        (Ty::Int(64, true), _) => {
            if place(bad, "number") {
                return numbers(bad, i64::MIN as i128, i64::MAX as i128);
            }
            good()
        }
        (Ty::Int(..), _) => {
            if place(bad, "number") {
                return numbers(bad, 0, u64::MAX as i128);
            }
            good()
        }
        (Ty::Dur, _) => {
            if place(bad, "duration") {
                return numbers(bad, 0, i64::MAX as i128);
            }
            good()
        }
        (Ty::Bool, _) => {
            if place(bad, "bool") {
                return bad.r.pick(&[json!(0), json!(1), json!("true"), Value::Null, json!([])]).clone();
            }
            good()
        }
        (Ty::Cur, _) => {
            if place(bad, "currency") {
                let c = [
                    json!("-1"), json!(""), json!("abc"), json!("340282366920938463463374607431768211456"), json!("1.5"), json!("1e5"), json!(-1), json!(1.5),
                    Value::Null, json!("+5"), json!("1 XX"), json!("1..2 SC"), json!("340282366920939 SC"), json!([]), json!({}), json!("0x10"), json!("1.0000000000000000000000001 SC"), json!("٣"), json!(1e30), json!(i64::MIN), json!(true),
                ];
                return bad.r.pick(&c).clone();
            }
            good()
        }
        (Ty::Work, _) => {
            if place(bad, "work") {
                let c = [
                    json!("-1"), json!("abc"), json!("1.5"), json!("115792089237316195423570985008687907853269984665640564039457584007913129639936"), json!(5), Value::Null, json!("+5"), json!("0x10"),
                    json!("1157920892373161954235709850086879078532699846656405640394575840079131296399360000"), json!(" 5"), json!("5 "),
                ];
                return bad.r.pick(&c).clone();
            }
            good()
        }
        (Ty::Fix(n, FixJson::Hex), Val::B(b)) => {
            if place(bad, "hex") {
                return bad_hex(*n, &refjson::hexs(b), bad);
            }
            good()
        }
        (Ty::Fix(_, FixJson::Address), Val::B(b)) => {
            let g = refjson::address(b);
            if place(bad, "address") {
                return bad_hex(38, &g, bad);
            }
            if place(bad, "address checksum") {
                // another digit anywhere
                let mut s: Vec<u8> = g.bytes().collect();
                let i = if bad.r.bool() { 64 + bad.r.below(12) } else { bad.r.below(76) };
                let old = s[i];
                while s[i] == old {
                    s[i] = *bad.r.pick(b"0123456789abcdef");
                }
                return json!(String::from_utf8(s).unwrap());
            }
            good()
        }
        (Ty::Fix(_, FixJson::PubKey), Val::B(b)) => {
            let h = refjson::hexs(b);
            if place(bad, "key") {
                let j = bad_hex(32, &h, bad);
                return match j {
                    Value::String(s) => json!(format!("ed25519:{s}")),
                    x => x,
                };
            }
            if place(bad, "key prefix") {
                let p = *bad.r.pick(&["", "ed25519", "ed2551:", "entropy:", ":", " ed25519:", "ed25519::", "ed25519: "]);
                return json!(format!("{p}{h}"));
            }
            good()
        }
        (Ty::Fix(n, FixJson::Array), _) => {
            if place(bad, "byte array") {
                let mut a = good().as_array().unwrap().clone();
                match bad.r.below(5) {
                    0 => {
                        a.pop();
                    }
                    1 => a.push(json!(0)),
                    2 => a[bad.r.below(*n)] = json!(256),
                    3 => a[bad.r.below(*n)] = json!(-1),
                    _ => return json!("ed25519"),
                }
                return Value::Array(a);
            }
            good()
        }
        (Ty::Blob, Val::Blob(b)) => {
            if place(bad, "base64") {
                let g = refjson::base64(b);
                let mut c = vec![
                    json!("a"), json!("ab"), json!("a==="), json!("@@@@"), json!("-_-_"), json!("===="), json!(5), Value::Null, json!("Zm9v YmFy"), json!("Zm9vYg="), json!("Zm9vYg==="), json!("Zm9vYg==Zm9v"), json!("Zm9v\n"), json!([1, 2]), json!(format!("{g}=")), json!(format!("{g}A")),
                ];
                if g.ends_with('=') {
                    let bare = g.trim_end_matches('=');
                    c.extend(std::iter::repeat(json!(bare)).take(6));
                    if g.len() - bare.len() == 2 {
                        c.extend(std::iter::repeat(json!(format!("{bare}="))).take(6));
                    }
                }
                if !g.is_empty() {
                    let i = bad.r.below(g.len());
                    let x = *bad.r.pick(&["-", "_", " ", "\n", "=", "é", "\u{0}"]);
                    c.extend(std::iter::repeat(json!(format!("{}{x}{}", &g[..i], &g[i..]))).take(3));
                }
                return bad.r.pick(&c).clone();
            }
            good()
        }
        (Ty::Str, _) => {
            if place(bad, "string") {
                return bad.r.pick(&[json!(5), Value::Null, json!([]), json!({}), json!(true)]).clone();
            }
            good()
        }
        (Ty::Time, _) => {
            if place(bad, "time") {
                let c = [
                    json!(""), json!("2020-13-01T00:00:00Z"), json!("2020-01-01"), json!("2020-01-01T25:00:00Z"), json!(0), Value::Null, json!("2020-02-30T00:00:00Z"), json!("2020-01-01T00:00:00"),
                    json!("1577836800"), json!("2020-01-01T00:60:00Z"), json!("20-01-01T00:00:00Z"), json!("12020-01-01T00:00:00Z"), json!("2020-01-01T00:00:00+25:00"),
                ];
                return bad.r.pick(&c).clone();
            }
            good()
        }
        (Ty::PrevTs, Val::List(l)) => {
            if place(bad, "timestamps") {
                let mut a = good().as_array().unwrap().clone();
                match bad.r.below(5) {
                    0 => a.push(json!("1970-01-01T00:00:00Z")),
                    1 => a.extend((0..1 + bad.r.below(100)).map(|_| json!("1970-01-01T00:00:00Z"))),
                    2 => a[bad.r.below(11)] = json!("x"),
                    3 => a[bad.r.below(11)] = Value::Null,
                    _ => return bad.r.pick(&[json!("1970-01-01T00:00:00Z"), json!({}), json!(7), Value::Null]).clone(),
                }
                return Value::Array(a);
            }
            let _ = l;
            good()
        }
        (Ty::List(t), Val::List(l)) => {
            if place(bad, "list") {
                return bad.r.pick(&[json!({}), json!("x"), json!(5), json!(true)]).clone();
            }
            if bad.target < 0 {
                return good();
            }
            Value::Array(l.iter().map(|x| malform(t, x, bad)).collect())
        }
        (Ty::Opt(t), Val::Opt(o)) => match o {
            None => Value::Null,
            Some(x) => {
                // null is the absent value, not a malformed one
                let j = malform(t, x, bad);
                if j.is_null() {
                    json!(false)
                } else {
                    j
                }
            }
        },
        (Ty::UnlockKey, Val::St(f)) => {
            if place(bad, "unlock key") {
                let h = refjson::hexs(f[1].b());
                let c = [
                    json!(h), json!(format!("ed25519:{h}0")), json!(format!("ed25519:{h}zz")), json!(format!("ed25519:{h}é")), json!(""), Value::Null, json!(5), json!("ed25519"),
                    json!(format!("an algorithm name that is too long:{h}")), json!(format!("12345678901234567:{h}")), json!(format!("ed25519: {h}")),
                ];
                return bad.r.pick(&c).clone();
            }
            good()
        }
        (Ty::Acc, Val::St(f)) => {
            if place(bad, "tree count") {
                let mut g = good();
                match bad.r.below(4) {
                    0 => g["trees"].as_array_mut().unwrap().push(json!("00".repeat(32))),
                    1 if !f[1].list().is_empty() => {
                        g["trees"].as_array_mut().unwrap().pop();
                    }
                    2 => g["numLeaves"] = json!(f[0].u() ^ (1 << bad.r.below(64))),
                    _ => g["trees"].as_array_mut().unwrap().extend((0..1 + bad.r.below(70)).map(|_| json!("00".repeat(32)))),
                }
                return g;
            }
            if place(bad, "missing field") {
                let mut g = good();
                let k = *bad.r.pick(&["trees", "numLeaves"]);
                g.as_object_mut().unwrap().remove(k);
                return g;
            }
            if place(bad, "tree") {
                let mut g = good();
                let a = g["trees"].as_array_mut().unwrap();
                if a.is_empty() {
                    return json!({"numLeaves": "0", "trees": []});
                }
                let i = bad.r.below(a.len());
                let h = a[i].as_str().unwrap().to_string();
                a[i] = bad_hex(32, &h, bad);
                return g;
            }
            good()
        }
        (Ty::Policy, Val::En(k, x)) => {
            if place(bad, "policy object") {
                return bad.r.pick(&[json!(5), json!("above"), Value::Null, json!(true)]).clone();
            }
            if place(bad, "policy field missing") {
                let mut g = good();
                let f = *bad.r.pick(&["type", "policy"]);
                g.as_object_mut().unwrap().remove(f);
                return g;
            }
            if place(bad, "policy type") {
                let mut g = good();
                g["type"] = bad.r.pick(&[json!("foo"), json!(""), json!("Above"), json!("publicKey"), json!("threshold"), json!("ABOVE"), json!("pk "), json!(5), Value::Null, json!("hash")]).clone();
                return g;
            }
            if place(bad, "policy content") {
                let mut g = good();
                g["policy"] = match k {
                    0 => numbers(bad, 0, u64::MAX as i128),
                    1 => {
                        let c = [json!(-1), json!(1.5), json!(253402300800u64), json!(1u64 << 62), json!("2020-01-01T00:00:00Z"), Value::Null, json!("0")];
                        bad.r.pick(&c).clone()
                    }
                    2 => json!(refjson::hexs(x.b())),
                    3 => bad_hex(32, &refjson::hexs(x.b()), bad),
                    4 => {
                        let p = &mut g["policy"];
                        match bad.r.below(7) {
                            0 => p["n"] = json!(256),
                            1 => p["n"] = json!(-1),
                            2 => p["n"] = json!("1"),
                            3 => {
                                p.as_object_mut().unwrap().remove("n");
                            }
                            4 => {
                                p.as_object_mut().unwrap().remove("of");
                            }
                            5 => p["of"] = json!({}),
                            _ => p["of"] = Value::Array(vec![json!({"type": "above", "policy": 1}); 256]),
                        }
                        p.clone()
                    }
                    5 => json!(refjson::hexs(x.b())),
                    _ => {
                        let mut u = g["policy"].clone();
                        let f = *bad.r.pick(&["timelock", "publicKeys", "signaturesRequired"]);
                        u.as_object_mut().unwrap().remove(f);
                        u
                    }
                };
                return g;
            }
            if bad.target < 0 {
                return good();
            }
            match k {
                4 => {
                    let s = x.st();
                    let of: Vec<Value> = s[1].list().iter().map(|c| malform(&Ty::Policy, c, bad)).collect();
                    json!({"type": "thresh", "policy": {"n": s[0].u(), "of": of}})
                }
                6 => json!({"type": "uc", "policy": malform(&uc(), x, bad)}),
                _ => good(),
            }
        }
        (Ty::Resolution(..), _) => {
            // raw enum
            if place(bad, "resolution") {
                return bad.r.pick(&[json!({"foo": {}}), json!({}), json!(5), json!("renewal"), json!({"storageProof": {}}), json!({"renewal": {}}), json!({"Renewal": {}})]).clone();
            }
            good()
        }
        (Ty::Struct(d), Val::St(f)) if d.kind == Kind::Resolution => {
            if place(bad, "resolution type") {
                let mut g = good();
                g["type"] = bad.r.pick(&[json!("foo"), json!(""), json!("Renewal"), json!("storage_proof"), json!("finalization"), json!(0), Value::Null]).clone();
                return g;
            }
            if place(bad, "missing field") {
                let mut g = good();
                let k = *bad.r.pick(&["type", "parent", "resolution"]);
                g.as_object_mut().unwrap().remove(k);
                return g;
            }
            if bad.target < 0 {
                return good();
            }
            let mut m = Map::new();
            m.insert("parent".into(), malform(&d.fields[0].ty, &f[0], bad));
            let (Ty::Resolution(a, b), Val::En(k, x)) = (&d.fields[1].ty, &f[1]) else { panic!() };
            let (n, res) = match k {
                0 => ("renewal", malform(&Ty::Struct(a), x, bad)),
                1 => ("storageProof", malform(&Ty::Struct(b), x, bad)),
                _ => ("expiration", json!({})),
            };
            m.insert("type".into(), json!(n));
            m.insert("resolution".into(), res);
            Value::Object(m)
        }
        (Ty::Struct(d), Val::St(f)) => {
            if place(bad, "object") {
                return bad.r.pick(&[json!(5), json!("x"), Value::Null, json!(true)]).clone();
            }
            for fd in &d.fields {
                if fd.skip == Skip::Never && place(bad, &format!("missing field {}.{}", d.name, fd.json)) {
                    let mut g = good();
                    g.as_object_mut().unwrap().remove(fd.json);
                    return g;
                }
            }
            if bad.target < 0 {
                return good();
            }
            let mut m = Map::new();
            for (fd, x) in d.fields.iter().zip(f) {
                if fd.skip == Skip::Empty && x.is_empty() {
                    continue;
                }
                m.insert(fd.json.into(), malform(&fd.ty, x, bad));
            }
            Value::Object(m)
        }
        _ => good(),
    }
}

/// calls that parse malformed and other texts, for the leak monitor of C30
pub fn parse_calls(r: &mut Rng) -> Vec<(String, Box<dyn Fn() -> String + Send + Sync>)> {
    let mut out: Vec<(String, Box<dyn Fn() -> String + Send + Sync>)> = vec![];
    let e = jentry(r);
    let b = 5 + r.below(40) as isize;
    let v = Gen::json(b).gen(&e.ty, r);
    let mut fork = Rng::new(r.u64(), "bad", 0);
    let mut count = Bad { target: isize::MAX, what: String::new(), places: vec![], r: &mut fork };
    malform(&e.ty, &v, &mut count);
    let mut kinds: BTreeMap<String, Vec<isize>> = BTreeMap::new();
    for (i, w) in std::mem::take(&mut count.places).into_iter().enumerate() {
        kinds.entry(w).or_default().push(i as isize);
    }
    for (what, at) in kinds {
        let target = *r.pick(&at);
        let mut bad = Bad { target, what: String::new(), places: vec![], r };
        let doc = malform(&e.ty, &v, &mut bad);
        let t = doc.to_string();
        out.push((format!("parsing {} with malformed {what}", e.name), Box::new(move || (e.parse_text)(&t).is_ok().to_string())));
        out.push((format!("converting {} with malformed {what}", e.name), Box::new(move || (e.parse_value)(doc.clone()).is_ok().to_string())));
    }
    if let Ok(mut x) = (e.from_val)(&v).cbor() {
        let i = r.below(x.len());
        x[i] ^= 1 << r.below(8);
        out.push((format!("parsing damaged CBOR of {}", e.name), Box::new(move || (e.parse_cbor)(&x).is_ok().to_string())));
    }
    for _ in 0..2 {
        let s = some_text(r);
        let mut parser = |what: &str, f: fn(&str) -> bool| {
            let s = s.clone();
            out.push((format!("parsing a text as {what}"), Box::new(move || f(&s).to_string())));
        };
        parser("currency", |s| Currency::parse_string(s).is_ok());
        parser("address", |s| Address::parse_string(s).is_ok());
        parser("hash", |s| Hash256::parse_string(s).is_ok());
        parser("output ID", |s| SiacoinOutputID::parse_string(s).is_ok());
        parser("unlock key", |s| v1::UnlockKey::parse_string(s).is_ok());
        parser("leaf", |s| Leaf::parse_string(s).is_ok());
        parser("signature", |s| Signature::parse_string(s).is_ok());
        parser("mnemonic", |s| Seed::from_mnemonic(s).is_ok());
    }
    out
}

fn malformed(c: &mut Ctx) -> Res {
    let e = jentry(&mut c.r);
    let b = 5 + c.r.below(40) as isize;
    let v = Gen::json(b).gen(&e.ty, &mut c.r);
    let mut fork = c.fork("bad");
    let mut count = Bad { target: isize::MAX, what: String::new(), places: vec![], r: &mut fork };
    malform(&e.ty, &v, &mut count);
    let mut kinds: BTreeMap<String, Vec<isize>> = BTreeMap::new();
    for (i, w) in std::mem::take(&mut count.places).into_iter().enumerate() {
        kinds.entry(w).or_default().push(i as isize);
    }
    let kinds: Vec<Vec<isize>> = kinds.into_values().collect();
    let n: usize = kinds.iter().map(|k| k.len()).sum();
    for _ in 0..n.min(12) {
        // every kind of place equally often, however many there are
        let target = if c.r.one_in(4) { c.r.below(n) as isize } else { {
            let k = c.r.below(kinds.len());
            *c.r.pick(&kinds[k])
        } };
        let mut bad = Bad { target, what: String::new(), places: vec![], r: &mut c.r };
        let doc = malform(&e.ty, &v, &mut bad);
        let what = bad.what.clone();
        if what.is_empty() {
            continue;
        }
        let key = what.split(' ').take(2).collect::<Vec<_>>().join(" ");
        let t = doc.to_string();
        for text in [true, false] {
            match caught(|| if text { (e.parse_text)(&t) } else { (e.parse_value)(doc.clone()) }) {
                Ok(Err(_)) => {}
                Ok(Ok(d)) => fail!(format!("accepted:{key}"), "{}: document with malformed {what} was accepted as {}: {}", e.name, short(&d.to_val()), short(&t)),
                Err(p) => fail!(format!("panic:{key}"), "{}: document with malformed {what}: panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&t)),
            }
        }
        c.obs("malformed documents", 1);
        c.obs(&format!("malformed:{key}"), 1);
        c.seen(e.name, t.as_bytes());
        c.sample(|| format!("{} [{what}] {t}", e.name));
    }
    Ok(())
}

/// everything that can be done with a parsed or decoded value
fn use_all(e: &Entry, d: &dyn Dyn) -> Result<(), Panicked> {
    exercise(d, e)?;
    if e.json {
        caught(|| {
            let _ = d.json_text();
            let _ = d.json_value();
            let _ = d.cbor();
        })?;
    }
    Ok(())
}

fn attempt_text(c: &mut Ctx, e: &Entry, t: &str) -> Res {
    match caught(|| (e.parse_text)(t)) {
        Err(p) => fail!("panic", "{}: parsing panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&t)),
        Ok(Err(_)) => c.obs("documents refused", 1),
        Ok(Ok(d)) => {
            c.obs("documents accepted", 1);
            if let Err(p) = use_all(e, &*d) {
                fail!("use-panic", "{}: using what was parsed panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&t));
            }
        }
    }
    c.seen(e.name, t.as_bytes());
    if let Ok(doc) = serde_json::from_str::<Value>(t) {
        match caught(|| (e.parse_value)(doc)) {
            Err(p) => fail!("panic-value", "{}: parsing a document panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&t)),
            Ok(Ok(d)) => {
                if let Err(p) = use_all(e, &*d) {
                    fail!("use-panic", "{}: using what was parsed panicked: {} at {}: {}", e.name, p.msg, p.loc, short(&t));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn scalar(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 | 3 => json!(r.n64()),
        4 => json!(-(r.n64() as i128).min(i64::MAX as i128) as i64),
        5 => json!(r.u64() as f64 * 1e-3),
        6 => json!([]),
        7 => json!({}),
        8 => json!(r.string(30)),
        9 => json!(refjson::hexs(&r.fixed(32))),
        10 => json!(refjson::address(&r.fixed(32))),
        11 => json!(format!("{}:{}", r.string(20), refjson::hexs(&r.fixed(32)))),
        12 => json!(currency_text(r)),
        _ => json!({"type": r.pick(&["above", "after", "pk", "h", "thresh", "opaque", "uc", "renewal", "storageProof", "expiration"]), "policy": r.n64()}),
    }
}

fn mutate_doc(v: &mut Value, r: &mut Rng, depth: usize) {
    if depth == 0 || r.one_in(6) {
        *v = scalar(r);
        return;
    }
    match v {
        Value::Object(m) if !m.is_empty() => {
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(8) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = m.remove(&k).unwrap();
                    let k2 = if r.bool() { r.sdict().unwrap_or_default() } else { k.to_uppercase() };
                    m.insert(k2, x);
                }
                2 => {
                    let x = m[&k].clone();
                    let k2 = m.keys().nth(r.below(m.len())).unwrap().clone();
                    m.insert(k2, x);
                }
                _ => mutate_doc(m.get_mut(&k).unwrap(), r, depth - 1),
            }
        }
        Value::Array(a) if !a.is_empty() => {
            let i = r.below(a.len());
            match r.below(8) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    let n = 1 + r.below(300);
                    for _ in 0..n.min(4000 / (x.to_string().len() + 1) + 1) {
                        a.push(x.clone());
                    }
                }
                2 => a.clear(),
                _ => mutate_doc(&mut a[i], r, depth - 1),
            }
        }
        Value::String(s) => {
            let mut cs: Vec<char> = s.chars().collect();
            match r.below(7) {
                0 => {
                    cs.pop();
                }
                1 => cs.push('0'),
                2 if !cs.is_empty() => {
                    let i = r.below(cs.len());
                    cs[i] = *r.pick(&['g', 'F', '0', 'é', ':', '\u{0}', '€', ' ', '.', '-']);
                }
                3 if !cs.is_empty() => {
                    cs.remove(r.below(cs.len()));
                }
                4 => {
                    let i = r.below(cs.len() + 1);
                    cs.insert(i, *r.pick(&['g', ':', 'é', '\u{0}', '9', '.', 'a']));
                }
                5 => {
                    let n = r.below(200);
                    cs = r.string(n).chars().collect();
                }
                _ => {
                    *v = scalar(r);
                    return;
                }
            }
            *s = cs.into_iter().collect();
        }
        Value::Number(_) => {
            *v = match r.below(5) {
                0 => json!(r.n64()),
                1 => json!(-(r.below(1000) as i64)),
                2 => json!(r.n64() as f64 + 0.5),
                3 => json!(r.n64().to_string()),
                _ => scalar(r),
            }
        }
        _ => *v = scalar(r),
    }
}

fn mutated(c: &mut Ctx) -> Res {
    let e = jentry(&mut c.r);
    let b = 5 + c.r.below(50) as isize;
    let v = Gen::json(b).gen(&e.ty, &mut c.r);
    let good = if is_raw_resolution(e) { (e.from_val)(&v).json_value().unwrap_or(Value::Null) } else { refjson::to_json(&e.ty, &v) };
    for _ in 0..3 {
        let mut doc = good.clone();
        for _ in 0..1 + c.r.below(3) {
            mutate_doc(&mut doc, &mut c.r, 9);
        }
        let mut t = String::new();
        render(&doc, &mut c.r, false, 0, &mut t);
        attempt_text(c, e, &t)?;
    }
    // damaged text
    for _ in 0..2 {
        let mut b = good.to_string().into_bytes();
        for _ in 0..1 + c.r.below(3) {
            if b.is_empty() {
                break;
            }
            let i = c.r.below(b.len());
            match c.r.below(6) {
                0 => b[i] = *c.r.pick(b"{}[]\",:0123456789.-eEnulltrue\\ "),
                1 => {
                    b.remove(i);
                }
                2 => b.insert(i, *c.r.pick(b"{}[]\",:0-9.eE\\ ")),
                3 => b.truncate(i),
                4 => {
                    let j = (i + 1 + c.r.below(60)).min(b.len());
                    let x = b[i..j].to_vec();
                    b.splice(i..i, x);
                }
                _ => {
                    let n = *c.r.pick(&[5usize, 30, 127, 128, 129, 3000]);
                    let x = c.r.pick(b"[{9").to_owned();
                    b.splice(i..i, std::iter::repeat(x).take(n));
                }
            }
        }
        let t = String::from_utf8_lossy(&b).to_string();
        attempt_text(c, e, &t)?;
    }
    c.sample(|| format!("{} mutations of {good}", e.name));
    Ok(())
}

/// serializing and printing whatever the binary decoders accept
fn decoded(c: &mut Ctx) -> Res {
    let e = pick_entry(&mut c.r, |e| e.json && (e.v1 || e.v2));
    let ver = if e.v1 && e.v2 { 1 + c.r.below(2) as u8 } else if e.v1 { 1 } else { 2 };
    let v = gen(e, &mut c.r);
    let o = reference(e, &v, ver);
    for k in 0..4 {
        let b = if k == 0 { o.buf.clone() } else { mutate(&o, &mut c.r) };
        if let Ok(Ok(d)) = caught(|| dec(e, ver, &mut Rd::new(&b))) {
            if let Err(p) = use_all(e, &*d) {
                fail!("use-panic", "{} v{ver}: using what was decoded panicked: {} at {}: {}", e.name, p.msg, p.loc, hx(&b));
            }
            c.obs("decoded values used", 1);
            c.seen(e.name, &b);
        }
    }
    Ok(())
}

/// deeply nested policies, serialized in a 2 MiB thread
fn deep(c: &mut Ctx) -> Res {
    // serializing nested policies takes time quadratic in the depth, so the deepest are few
    let depth = match c.idx % 4000 {
        0..=3 => 1000 + c.r.below(24),
        4..=7 => 300 + c.r.below(200),
        _ => *c.r.pick(&[20usize, 40, 41, 42, 43, 60, 63, 64, 100]),
    };
    let mut pol = vec![1u8];
    for _ in 0..depth {
        pol.extend_from_slice(&[5, 1, 1]);
    }
    pol.push(1);
    pol.extend_from_slice(&7u64.to_le_bytes());
    let e = entry("v2::SpendPolicy");
    if let Ok(Ok(d)) = caught(|| dec(e, 2, &mut Rd::new(&pol))) {
        let used = if depth < 300 {
            use_all(e, &*d)
        } else {
            match c.idx % 2 {
                0 => caught(|| d.json_text().is_ok()).map(|_| ()),
                _ => caught(|| d.cbor().is_ok()).map(|_| ()),
            }
        };
        if let Err(p) = used {
            fail!("deep", "policy nested {depth} deep: using it panicked: {} at {}", p.msg, p.loc);
        }
        c.obs("deep policies used", 1);
    }
    let mut t = String::new();
    for _ in 0..depth {
        t.push_str(r#"{"type":"thresh","policy":{"n":1,"of":["#);
    }
    t.push_str(r#"{"type":"above","policy":7}"#);
    for _ in 0..depth {
        t.push_str("]}}");
    }
    c.seen("deep", &depth.to_le_bytes());
    attempt_text(c, e, &t)
}

pub fn currency_text(r: &mut Rng) -> String {
    let units = ["", "H", "pS", "nS", "uS", "mS", "SC", "KS", "MS", "GS", "TS", "sc", "XS", "ps", "S", "SCC", " SC", "µS"];
    let digits = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(b"0011234567899") as char).collect() };
    let mut s = String::new();
    match r.below(8) {
        0 => s.push_str(&r.n128().to_string()),
        1 => {}
        _ => {
            let n = *r.pick(&[1usize, 1, 2, 3, 5, 12, 14, 15, 16, 24, 27, 38, 39, 40, 60]);
            s.push_str(&digits(r, n));
        }
    }
    if r.bool() {
        s.push('.');
        let n = *r.pick(&[0usize, 1, 2, 3, 11, 12, 13, 15, 18, 21, 24, 25, 27, 30, 36, 37, 38, 39, 40, 50, 70]);
        let mut f = digits(r, n);
        if r.bool() && !f.is_empty() {
            let k = r.below(f.len());
            f = format!("{}{}", &f[..k], "0".repeat(f.len() - k));
        }
        s.push_str(&f);
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
        s.push(' ');
    }
    s.push_str(*r.pick(&units));
    if r.one_in(6) {
        let mut cs: Vec<char> = s.chars().collect();
        let i = r.below(cs.len() + 1);
        cs.insert(i, *r.pick(&['.', '-', '+', 'e', ',', '_', ' ', '\t', '٣', '\u{0}', '9', 'é', '\'', 'x']));
        s = cs.into_iter().collect();
    }
    s
}

fn word_soup(r: &mut Rng) -> String {
    let m = Seed::new(r.fixed(16).try_into().unwrap()).to_mnemonic();
    let mut w: Vec<String> = m.split(' ').map(|x| x.to_string()).collect();
    for _ in 0..r.below(4) {
        let i = r.below(w.len());
        match r.below(7) {
            0 => {
                w.remove(i);
            }
            1 => w.push("abandon".into()),
            2 => w[i] = r.string(10),
            3 => w[i] = w[i].to_uppercase(),
            4 => {
                let j = r.below(w.len());
                w.swap(i, j);
            }
            5 => w[i] = "zoo".into(),
            _ => {
                let x = w.clone();
                w.extend(x);
            }
        }
        if w.is_empty() {
            break;
        }
    }
    w.join(*r.pick(&[" ", "  ", "\t", "\u{3000}", "\n"]))
}

fn some_text(r: &mut Rng) -> String {
    let n = *r.pick(&[32usize, 38, 64, 16, 33, 31, 0, 1]);
    let mut s = match r.below(12) {
        0 => r.string(100),
        1 => refjson::address(&r.fixed(32)),
        2 => format!("ed25519:{}", refjson::hexs(&r.fixed(32))),
        3 => format!("{}:{}", r.string(20), refjson::hexs(&r.bytes(n))),
        4 => currency_text(r),
        5 => word_soup(r),
        6 => r.sdict().unwrap_or_default(),
        _ => refjson::hexs(&r.bytes(n)),
    };
    for _ in 0..r.below(3) {
        let mut cs: Vec<char> = s.chars().collect();
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        match r.below(5) {
            0 => cs[i] = *r.pick(&['é', '€', '😀', '\u{0}', ':', 'G', 'F']),
            1 => {
                cs.remove(i);
            }
            2 => cs.insert(i, *r.pick(&[':', '0', 'é', ' '])),
            3 => cs.truncate(i),
            _ => {
                // same length in bytes, not in characters
                if i + 1 < cs.len() {
                    cs.remove(i);
                    cs[i] = 'é';
                }
            }
        }
        s = cs.into_iter().collect();
    }
    s
}

/// every text parser on the same text
fn parsers(c: &mut Ctx) -> Res {
    fn go<T, E>(c: &mut Ctx, what: &str, s: &str, parse: impl Fn(&str) -> Result<T, E>, print: impl Fn(&T) -> String, eq: impl Fn(&T, &T) -> bool) -> Res {
        match caught(|| parse(s).ok()) {
            Err(p) => fail!(format!("panic:{what}"), "parsing {s:?} as {what} panicked: {} at {}", p.msg, p.loc),
            Ok(None) => c.obs("texts refused", 1),
            Ok(Some(x)) => {
                c.obs("texts accepted", 1);
                match caught(|| print(&x)) {
                    Err(p) => fail!(format!("print:{what}"), "printing the {what} parsed from {s:?} panicked: {} at {}", p.msg, p.loc),
                    Ok(t) => match caught(|| parse(&t).ok()) {
                        Ok(Some(y)) if eq(&x, &y) => {}
                        Ok(_) => fail!(format!("reparse:{what}"), "{s:?} parses as {what}, which prints as {t:?}, which does not parse back to it"),
                        Err(p) => fail!(format!("panic:{what}"), "parsing {t:?} as {what} panicked: {}", p.msg),
                    },
                }
            }
        }
        Ok(())
    }
    for _ in 0..10 {
        let s = some_text(&mut c.r);
        c.seen("text", s.as_bytes());
        go(c, "currency", &s, Currency::parse_string, |x| (**x).to_string(), |a, b| a == b)?;
        go(c, "address", &s, Address::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "hash", &s, Hash256::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "siacoin output ID", &s, SiacoinOutputID::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "block ID", &s, BlockID::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "unlock key", &s, v1::UnlockKey::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "leaf", &s, Leaf::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "signature", &s, Signature::parse_string, |x| x.to_string(), |a, b| a == b)?;
        go(c, "mnemonic", &s, Seed::from_mnemonic, |x| x.to_mnemonic(), |a, b| a.as_bytes() == b.as_bytes())?;
        go(c, "key", &s, |s| serde_json::from_value::<PublicKey>(json!(s)), |x| x.to_string(), |a, b| a == b)?;
        go(c, "work", &s, |s| serde_json::from_value::<Work>(json!(s)), |x| x.to_string(), |a, b| a == b)?;
        go(c, "JSON currency", &s, |s| serde_json::from_value::<Currency>(json!(s)), |x| (**x).to_string(), |a, b| a == b)?;
        c.obs("texts", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C31

fn cbor(c: &mut Ctx) -> Res {
    for _ in 0..2 {
        let e = jentry(&mut c.r);
        let any = c.r.one_in(3);
        let v = if any { gen(e, &mut c.r) } else { gen_json(e, &mut c.r) };
        let d = (e.from_val)(&v);
        let b = match caught(|| d.cbor()) {
            Ok(Ok(b)) => b,
            // dates without a four-digit year have no serialized form
            Ok(Err(_)) if any => {
                c.obs("values refused", 1);
                continue;
            }
            Ok(Err(x)) => fail!(format!("serialize:{}", e.name), "{}: CBOR serialization failed: {x}: {}", e.name, short(&v)),
            Err(p) => fail!(format!("serialize:{}", e.name), "{}: CBOR serialization panicked: {} at {}", e.name, p.msg, p.loc),
        };
        match caught(|| (e.parse_cbor)(&b)) {
            Ok(Ok(g)) => {
                let gv = g.to_val();
                ensure!(gv == v && g.same(&*d), format!("value:{}", e.name), "{}: CBOR parses to another value: {}", e.name, vdiff(&gv, &v));
            }
            Ok(Err(x)) => fail!(format!("refused:{}", e.name), "{}: its own CBOR is refused: {}: {}", e.name, short(&x), short(&v)),
            Err(p) => fail!(format!("panic:{}", e.name), "{}: parsing its own CBOR panicked: {} at {}", e.name, p.msg, p.loc),
        }
        c.obs("CBOR values round-tripped", 1);
        c.obs(&format!("type:{}", e.name), 1);
        c.seen(e.name, &b);
        c.sample(|| format!("{} {}", e.name, hx(&b)));
        // damaged CBOR: an error or a value
        let mut m = b.clone();
        for _ in 0..1 + c.r.below(3) {
            if m.is_empty() {
                break;
            }
            let i = c.r.below(m.len());
            match c.r.below(3) {
                0 => m[i] = c.r.u64() as u8,
                1 => m.truncate(i),
                _ => m[i] ^= 1 << c.r.below(8),
            }
        }
        match caught(|| (e.parse_cbor)(&m)) {
            Err(p) => fail!("panic-damaged", "{}: parsing damaged CBOR panicked: {} at {}: {}", e.name, p.msg, p.loc, hx(&m)),
            Ok(Ok(d)) => {
                if let Err(p) = caught(|| (d.debug().len(), d.same(&*d))) {
                    fail!("panic-damaged", "{}: using a value from damaged CBOR panicked: {}", e.name, p.msg);
                }
            }
            _ => {}
        }
        c.obs("damaged CBOR", 1);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let std: &[&str] = &["the reference JSON representation in harness/model follows the Sia API", "field lists of the types under test are complete (a missing field does not compile)"];
    vec![
        Prop {
            id: "C09",
            rule: "generated values serialized to text and document and parsed back, also with keys shuffled, white space, escapes and explicit empty fields; distinct by type and text",
            monitors: vec![Monitor { name: "roundtrip", weight: 3, f: roundtrip }, Monitor { name: "shuffled", weight: 2, f: shuffled }, Monitor { name: "awkward", weight: 2, f: awkward }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("documents parsed back", 2000), ("reordered documents", 500), ("values refused", 50), ("type:v2::Transaction", 20), ("type:State", 20)],
            assumptions: std,
        },
        Prop {
            id: "C10",
            rule: "documents compared with an independent serializer, and its documents parsed; distinct by type and text",
            monitors: vec![Monitor { name: "shape", weight: 4, f: shape }, Monitor { name: "foreign", weight: 1, f: foreign }],
            quick_ms: 15_000,
            thorough_ms: 120_000,
            must: &[("documents compared", 1500), ("times with offset", 50), ("numeric currencies", 50)],
            assumptions: std,
        },
        Prop {
            id: "C11",
            rule: "documents with one malformed place of every kind, mutated documents and texts, texts given to every parser, and decoded values serialized and printed in a 2 MiB thread; distinct by input",
            monitors: vec![
                Monitor { name: "malformed", weight: 4, f: malformed },
                Monitor { name: "mutated", weight: 3, f: mutated },
                Monitor { name: "parsers", weight: 3, f: parsers },
                Monitor { name: "decoded", weight: 3, f: decoded },
                Monitor { name: "deep", weight: 1, f: deep },
            ],
            quick_ms: 20_000,
            thorough_ms: 180_000,
            must: &[
                ("malformed documents", 3000),
                ("documents accepted", 100),
                ("documents refused", 500),
                ("texts", 2000),
                ("decoded values used", 500),
                ("deep policies used", 20),
                ("malformed:hex", 100),
                ("malformed:address checksum", 50),
                ("malformed:base64", 20),
                ("malformed:tree count", 5),
                ("malformed:timestamps", 5),
                ("malformed:policy type", 10),
                ("malformed:resolution type", 5),
            ],
            assumptions: std,
        },
        Prop {
            id: "C31",
            rule: "generated values serialized to CBOR and parsed back; distinct by type and bytes",
            monitors: vec![Monitor { name: "cbor", weight: 1, f: cbor }],
            quick_ms: 15_000,
            thorough_ms: 90_000,
            must: &[("CBOR values round-tripped", 2000), ("damaged CBOR", 1000)],
            assumptions: &["ciborium represents the self-describing binary formats"],
        },
    ]
}
