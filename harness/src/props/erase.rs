//! C27: erasure of secrets.
use crate::alloc;
use crate::eng::*;
use model::rng::Rng;
use model::sha::sha256;
use sia::seed::Seed;
use sia::signing::PrivateKey;
use sia::types::Hash256;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, OnceLock};

pub fn words() -> &'static Vec<&'static str> {
    static W: OnceLock<Vec<&'static str>> = OnceLock::new();
    W.get_or_init(|| include_str!("../../model/src/english.txt").lines().collect())
}
/// BIP-39 phrase of 16, 20, 24, 28 or 32 bytes
pub fn phrase(e: &[u8]) -> Vec<&'static str> {
    let mut bits: Vec<bool> = vec![];
    let chk = sha256(e);
    for b in e.iter().chain(&chk[..1]) {
        for i in (0..8).rev() {
            bits.push(b >> i & 1 == 1);
        }
    }
    bits.truncate(e.len() * 8 + e.len() / 4);
    bits.chunks(11).map(|c| words()[c.iter().fold(0usize, |a, b| a * 2 + *b as usize)]).collect()
}
/// Holders of secrets on the heap. Each makes the holder, shows the places that hold secrets, and
/// destroys it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Holder {
    Box,
    BoxInStruct,
    Vec,
    VecClear,
    VecTruncate,
    VecReplace,
    BoxReplace,
    OptionTake,
    Unwind,
    UnwindVec,
    Map,
    BTree,
    Arc,
    Rc,
    Slice,
    Deque,
    Thread,
    Dyn,
    CloneOf,
    Drain,
}
const HOLDERS: [Holder; 20] = [
    Holder::Box,
    Holder::BoxInStruct,
    Holder::Vec,
    Holder::VecClear,
    Holder::VecTruncate,
    Holder::VecReplace,
    Holder::BoxReplace,
    Holder::OptionTake,
    Holder::Unwind,
    Holder::UnwindVec,
    Holder::Map,
    Holder::BTree,
    Holder::Arc,
    Holder::Rc,
    Holder::Slice,
    Holder::Deque,
    Holder::Thread,
    Holder::Dyn,
    Holder::CloneOf,
    Holder::Drain,
];

struct Wallet<T> {
    name: u64,
    #[allow(dead_code)]
    secret: T,
    tail: u32,
}

/// run one scenario; for each secret, what its place held at release
#[inline(never)]
fn scenario<T: 'static + Send + Sync>(h: Holder, n: usize, make: &dyn Fn(usize) -> T, copy: fn(&T) -> T, place: fn(&T) -> &[u8]) -> Vec<Option<Vec<u8>>> {
    alloc::watch_clear();
    let many = |n: usize| {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(make(i));
        }
        v
    };
    let mut count = 1;
    match h {
        Holder::Box => {
            let b = Box::new(make(0));
            alloc::watch(place(&b));
            drop(b);
        }
        Holder::BoxInStruct => {
            let b = Box::new(Wallet { name: 7, secret: make(0), tail: 9 });
            alloc::watch(place(&b.secret));
            std::hint::black_box(b.name as u32 + b.tail);
            drop(b);
        }
        Holder::Vec => {
            let v = many(n);
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            drop(v);
        }
        Holder::VecClear => {
            let mut v = many(n);
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            v.clear();
            std::hint::black_box(&v);
            drop(v);
        }
        Holder::VecTruncate => {
            let mut v = many(n);
            v.iter().skip(n / 2).for_each(|x| alloc::watch(place(x)));
            count = n - n / 2;
            v.truncate(n / 2);
            std::hint::black_box(&v);
            drop(v);
        }
        Holder::VecReplace => {
            let mut v = many(n);
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            let spare = Vec::with_capacity(2);
            v = std::hint::black_box(spare);
            drop(v);
        }
        Holder::BoxReplace => {
            let mut b = Box::new(make(0));
            alloc::watch(place(&b));
            b = Box::new(make(1));
            std::hint::black_box(&b);
            drop(b);
        }
        Holder::OptionTake => {
            let mut b: Box<Option<T>> = Box::new(Some(make(0)));
            alloc::watch(place((*b).as_ref().unwrap()));
            *b = None;
            std::hint::black_box(&b);
            drop(b);
        }
        Holder::Unwind => {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let b = Box::new(make(0));
                alloc::watch(place(&b));
                if std::hint::black_box(true) {
                    panic!("MONITORED unwind");
                }
                drop(b);
            }));
        }
        Holder::UnwindVec => {
            count = n;
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let v = many(n);
                v.iter().for_each(|x| alloc::watch(place(x)));
                if std::hint::black_box(true) {
                    panic!("MONITORED unwind");
                }
                drop(v);
            }));
        }
        Holder::Map => {
            let mut m = HashMap::with_capacity(2 * n);
            for i in 0..n {
                m.insert(i as u64, make(i));
            }
            m.values().for_each(|x| alloc::watch(place(x)));
            count = n;
            drop(m);
        }
        Holder::BTree => {
            let mut m = BTreeMap::new();
            m.insert(0u64, make(0));
            m.values().for_each(|x| alloc::watch(place(x)));
            m.clear();
            drop(m);
        }
        Holder::Arc => {
            let a = Arc::new(make(0));
            let b = a.clone();
            alloc::watch(place(&a));
            drop(a);
            drop(b);
        }
        Holder::Rc => {
            let a = std::rc::Rc::new(make(0));
            alloc::watch(place(&a));
            drop(a);
        }
        Holder::Slice => {
            let v = many(n).into_boxed_slice();
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            drop(v);
        }
        Holder::Deque => {
            let mut v = std::collections::VecDeque::with_capacity(n);
            for i in 0..n {
                v.push_back(make(i));
            }
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            v.clear();
            drop(v);
        }
        Holder::Thread => {
            // made here, destroyed by another thread, which does the watching
            let b = Box::new(make(0));
            let r = std::thread::spawn(move || {
                alloc::watch_clear();
                alloc::watch(place(&b));
                drop(b);
                alloc::watched(0)
            })
            .join()
            .expect("MONITOR: thread");
            return vec![r];
        }
        Holder::Dyn => {
            let b: Box<T> = Box::new(make(0));
            alloc::watch(place(&b));
            let b: Box<dyn std::any::Any> = b;
            drop(std::hint::black_box(b));
        }
        Holder::CloneOf => {
            let a = make(0);
            let b = Box::new(copy(&a));
            alloc::watch(place(&b));
            drop(b);
            std::hint::black_box(place(&a)[0]);
        }
        Holder::Drain => {
            let mut v = many(n);
            v.iter().for_each(|x| alloc::watch(place(x)));
            count = n;
            v.retain(|_| false);
            std::hint::black_box(&v);
            drop(v);
        }
    }
    let r = (0..count).map(alloc::watched).collect();
    alloc::watch_clear();
    r
}

/// secret bytes without common filling values
fn secret(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| 1 + (r.u64() % 254) as u8).collect()
}

fn erase(c: &mut Ctx) -> Res {
    if cfg!(feature = "sanitizer") {
        return Ok(());
    }
    let h = *c.r.pick(&HOLDERS);
    let n = 2 + c.r.below(6);
    let is_seed = c.r.bool();
    // a byte that is still there three times in a row is no accident
    let mut kept: Option<Vec<usize>> = None;
    for round in 0..3 {
        let secrets: Vec<Vec<u8>> = (0..n).map(|_| secret(&mut c.r, if is_seed { 16 } else { 32 })).collect();
        let how = c.r.below(4);
        let held = if is_seed {
            let texts: Vec<String> = secrets.iter().map(|s| phrase(s).join(" ")).collect();
            scenario::<Seed>(
                h,
                n,
                &|i| if how == 0 { Seed::from_mnemonic(&texts[i]).ok().expect("VIOLATION: valid phrase refused") } else { Seed::new(secrets[i][..].try_into().unwrap()) },
                |s| Seed::new(s.as_bytes().try_into().unwrap()),
                |s| s.as_bytes(),
            )
        } else {
            scenario::<PrivateKey>(
                h,
                n,
                &|i| {
                    let s: [u8; 32] = secrets[i][..].try_into().unwrap();
                    match how {
                        0 => PrivateKey::from_seed(&s),
                        1 => PrivateKey::from(Hash256::from(s)),
                        _ => {
                            let mut f = [0u8; 64];
                            f[..32].copy_from_slice(&s);
                            f[32..].copy_from_slice(&s);
                            PrivateKey::from(f)
                        }
                    }
                },
                |k| k.clone(),
                |k| &k.as_bytes()[..32],
            )
        };
        let skip = if h == Holder::VecTruncate { n / 2 } else { 0 };
        let mut now = vec![];
        for (i, x) in held.iter().enumerate() {
            let Some(x) = x else {
                c.obs("not released", 1);
                continue;
            };
            // which secret was at this place is not always known (maps): compare with all of them
            let cand: Vec<&Vec<u8>> = if h == Holder::Map { secrets.iter().collect() } else { vec![&secrets[i + skip]] };
            let left = cand.iter().map(|s| (0..s.len()).filter(|&k| x[k] == s[k]).collect::<Vec<_>>()).max_by_key(|l| l.len()).unwrap();
            now.extend(left);
            c.obs("released secrets inspected", 1);
            c.obs(if is_seed { "seeds" } else { "private keys" }, 1);
            c.obs(&format!("{h:?}"), 1);
            c.seen("secret", &secrets[0]);
        }
        now.sort();
        now.dedup();
        kept = Some(match kept {
            None => now,
            Some(k) => k.into_iter().filter(|x| now.contains(x)).collect(),
        });
        if kept.as_ref().unwrap().is_empty() {
            break;
        }
        if round == 2 {
            fail!(
                format!("{}:{h:?}", if is_seed { "seed" } else { "key" }),
                "{} in {h:?}: bytes {:?} of the secret are still in memory when it is released (last held {:?})",
                if is_seed { "seed" } else { "private key" },
                kept.unwrap(),
                held.iter().flatten().next().map(hex::encode)
            );
        }
    }
    c.sample(|| format!("{} of {n} in {h:?}", if is_seed { "seeds" } else { "private keys" }));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let m = |name, weight, f| Monitor { name, weight, f };
    vec![
        Prop {
            id: "C27",
            rule: "seeds and private keys in 20 kinds of heap holders, destroyed in place; every release of their memory is inspected by the allocator; distinct by secret",
            monitors: vec![m("erase", 1, erase as fn(&mut Ctx) -> Res)],
            quick_ms: 8000,
            thorough_ms: 30_000,
            must: &[
                ("released secrets inspected", 10_000),
                ("seeds", 5000),
                ("private keys", 5000),
                ("Box", 200),
                ("BoxInStruct", 200),
                ("Vec", 200),
                ("VecClear", 200),
                ("VecTruncate", 200),
                ("VecReplace", 200),
                ("BoxReplace", 200),
                ("OptionTake", 200),
                ("Unwind", 200),
                ("UnwindVec", 200),
                ("Map", 200),
                ("BTree", 200),
                ("Arc", 200),
                ("Rc", 200),
                ("Slice", 200),
                ("Deque", 200),
                ("Thread", 200),
                ("Dyn", 200),
                ("CloneOf", 200),
                ("Drain", 200),
            ],
            assumptions: &["moving a value copies it; only the memory a value occupies when it is dropped is inspected", "the crate is compiled with opt-level 3, the way a release build would be"],
        },
    ]
}
