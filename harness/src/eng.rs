//! Case engine: workers run seeded cases under monitors, the parent merges what they observed,
//! confirms crashes, writes evidence and prints the verdict.
use crate::alloc;
use model::rng::{fnv, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($key:expr, $($arg:tt)*) => { return Err($crate::eng::Fail { key: $key.to_string(), msg: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)*) => { if !($c) { $crate::fail!($key, $($arg)*) } };
}

pub struct Ctx {
    pub r: Rng,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    /// count `n` observations of a kind
    pub fn obs(&mut self, what: &str, n: u64) {
        match self.counts.get_mut(what) {
            Some(x) => *x += n,
            None => {
                self.counts.insert(what.to_string(), n);
            }
        }
    }
    /// a distinct non-trivial case, identified by its content
    pub fn seen(&mut self, what: &str, content: &[u8]) {
        let h = fnv(content) ^ fnv(what.as_bytes()).rotate_left(1);
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn fork(&self, name: &str) -> Rng {
        Rng::new(self.seed, name, self.idx)
    }
}

pub struct Monitor {
    pub name: &'static str,
    pub weight: usize,
    pub f: fn(&mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub monitors: Vec<Monitor>,
    pub quick_ms: u64,
    pub thorough_ms: u64,
    /// kinds that must have been observed at least this often, or the run is inconclusive
    pub must: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static LAST_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MONITOR_TRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC.lock().unwrap() = Some((msg.clone(), loc.clone()));
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// a panic of the code under test: message and location
#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("model/src/") || loc.contains("/verif/harness/")
}

fn is_harness(p: &Panicked) -> bool {
    !p.msg.starts_with("VIOLATION:") && (in_harness(&p.loc) || p.msg.starts_with("MONITOR:"))
}

/// Run code under test that may panic. Panics raised by the harness itself are passed on.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).or_else(|| LAST_PANIC.lock().unwrap().take()).unwrap_or_default();
            let p = Panicked { msg, loc };
            if p.msg.starts_with("MONITOR:") {
                PANIC.with(|q| *q.borrow_mut() = Some((p.msg.clone(), p.loc.clone())));
                std::panic::resume_unwind(e);
            }
            Err(p)
        }
    }
}

pub enum Outcome {
    Ok,
    Violated(Fail),
    HarnessError(String),
}

pub fn run_case(m: &Monitor, ctx: &mut Ctx) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (m.f)(ctx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Violated(f),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).or_else(|| LAST_PANIC.lock().unwrap().take()).unwrap_or_default();
            let p = Panicked { msg, loc };
            if is_harness(&p) {
                Outcome::HarnessError(format!("{} at {}", p.msg, p.loc))
            } else {
                let file = p.loc.split(':').next().unwrap_or("").to_string();
                Outcome::Violated(Fail { key: format!("panic:{file}"), msg: format!("panicked: {} at {}", p.msg, p.loc) })
            }
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

pub fn new_ctx(prop: &Prop, m: &Monitor, seed: u64, idx: u64, thorough: bool) -> Ctx {
    Ctx {
        r: Rng::new(seed, &format!("{}/{}", prop.id, m.name), idx),
        seed,
        idx,
        thorough,
        counts: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
    }
}

fn schedule(prop: &Prop) -> Vec<usize> {
    // interleave monitors in proportion to their weights
    let total: usize = prop.monitors.iter().map(|m| m.weight).sum();
    let mut credit: Vec<i64> = vec![0; prop.monitors.len()];
    let mut out = vec![];
    for _ in 0..total {
        for (i, m) in prop.monitors.iter().enumerate() {
            credit[i] += m.weight as i64;
        }
        let i = (0..credit.len()).max_by_key(|i| credit[*i]).unwrap();
        credit[i] -= total as i64;
        out.push(i);
    }
    out
}

/// Run on a thread with the stack an ordinary spawned thread gets.
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(if cfg!(feature = "sanitizer") { 256 << 20 } else { 2 << 20 })
            .spawn_scoped(s, || {
                #[cfg(not(feature = "only_erase"))]
                crate::models::init();
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

pub struct WorkerArgs {
    pub shard: u64,
    pub shards: u64,
    pub ms: u64,
    pub out: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    /// stop after this many cases (0: no limit)
    pub limit: u64,
    /// run these monitors only
    pub only: Vec<String>,
}

pub fn worker(prop: &Prop, a: &WorkerArgs) -> i32 {
    install_hook();
    let journal = std::fs::File::create(a.out.with_extension("journal")).unwrap();
    let mut sched = schedule(prop);
    if !a.only.is_empty() {
        sched.retain(|i| a.only.iter().any(|o| o == prop.monitors[*i].name));
    }
    let start = Instant::now();
    let r = on_thread(|| {
        let mut counts: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut fails: Vec<Value> = vec![];
        let mut keys: HashSet<String> = HashSet::new();
        let mut error: Option<String> = None;
        let mut evals = 0u64;
        let mut k = 0u64;
        let mut sampled: BTreeMap<&str, usize> = BTreeMap::new();
        loop {
            if a.limit > 0 && k >= a.limit {
                break;
            }
            if (k % 16 == 0 || a.ms > 0 && k < 64) && start.elapsed() > Duration::from_millis(a.ms) && k >= sched.len() as u64 {
                break;
            }
            let idx = a.shard + k * a.shards;
            let mi = sched[((k + a.shard * 7) % sched.len() as u64) as usize];
            let m = &prop.monitors[mi];
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(mi as u64).to_le_bytes());
            rec[8..].copy_from_slice(&idx.to_le_bytes());
            journal.write_all_at(&rec, 0).unwrap();
            let mut ctx = new_ctx(prop, m, a.seed, idx, a.thorough);
            if *sampled.get(m.name).unwrap_or(&0) >= 2 {
                ctx.samples = vec![String::new(); 3];
            }
            let o = run_case(m, &mut ctx);
            evals += 1;
            *counts.entry(format!("case:{}", m.name)).or_default() += 1;
            for (n, c) in ctx.counts {
                *counts.entry(n).or_default() += c;
            }
            if distinct.len() < 3_000_000 {
                distinct.extend(ctx.distinct);
            }
            for s in ctx.samples {
                if !s.is_empty() {
                    *sampled.entry(m.name).or_default() += 1;
                    samples.push(json!({"monitor": m.name, "case": s}));
                }
            }
            match o {
                Outcome::Ok => {}
                Outcome::Violated(f) => {
                    if keys.insert(format!("{} {}", m.name, f.key)) {
                        fails.push(json!({"monitor": m.name, "idx": idx, "key": f.key, "msg": clip(&f.msg, 3000)}));
                    }
                    if fails.len() >= 40 {
                        break;
                    }
                }
                Outcome::HarnessError(e) => {
                    error = Some(format!("{} case {}: {}", m.name, idx, e));
                    break;
                }
            }
            k += 1;
        }
        (evals, counts, distinct, samples, fails, error)
    });
    let (evals, counts, distinct, samples, fails, error) = r;
    let mut d = Vec::with_capacity(distinct.len() * 8);
    for h in &distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(a.out.with_extension("distinct"), d).unwrap();
    let v = json!({"evals": evals, "counts": counts, "samples": samples, "fails": fails, "error": error,
        "peak": alloc::PEAK.load(std::sync::atomic::Ordering::Relaxed)});
    std::fs::write(&a.out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

/// Run a single case; exit code 0 held, 1 violated, 3 harness error.
pub fn single(prop: &Prop, monitor: &str, seed: u64, idx: u64, thorough: bool, verbose: bool) -> i32 {
    install_hook();
    let Some(m) = prop.monitors.iter().find(|m| m.name == monitor) else {
        println!("no monitor {monitor}");
        return 3;
    };
    let o = on_thread(|| {
        let mut ctx = new_ctx(prop, m, seed, idx, thorough);
        let o = run_case(m, &mut ctx);
        if verbose {
            for s in &ctx.samples {
                println!("case: {s}");
            }
        }
        o
    });
    match o {
        Outcome::Ok => {
            println!("held");
            0
        }
        Outcome::Violated(f) => {
            println!("violated {}: {}", f.key, f.msg);
            1
        }
        Outcome::HarnessError(e) => {
            println!("harness error: {e}");
            3
        }
    }
}

pub struct RunArgs {
    pub bins: Vec<PathBuf>,
    pub seed: u64,
    pub thorough: bool,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub findings: PathBuf,
    pub level: String,
    /// results of further tools run by the driver script, merged into the evidence
    pub extra: Vec<PathBuf>,
    pub ms: Option<u64>,
    pub shards: u64,
}

fn known(findings: &Path, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(findings).unwrap_or_default().lines() {
        // finding: property=<id> signature=<monitor>/<key> <description>
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|x| x.strip_prefix("property="));
            let s = it.next().and_then(|x| x.strip_prefix("signature="));
            if let (Some(p), Some(s)) = (p, s) {
                if p == prop {
                    out.push((s.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

pub fn parent(prop: &Prop, a: &RunArgs) -> i32 {
    let start = Instant::now();
    let ms = a.ms.unwrap_or(if a.thorough { prop.thorough_ms } else { prop.quick_ms });
    let dir = std::env::temp_dir().join(format!("monitor-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut evals = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    // (signature, monitor, idx, bin, msg, seed)
    let mut fails: Vec<(String, String, u64, String, String, u64)> = vec![];
    // on a slow machine one round may observe too little: then there are more, with other seeds
    for round in 0..6u64 {
        let seed = a.seed.wrapping_add(round * 1_000_003);
        let round_start = Instant::now();
        let mut kids = vec![];
        for s in 0..a.shards {
            let bin = &a.bins[s as usize % a.bins.len()];
            let out = dir.join(format!("w{s}.json"));
            let child = Command::new(bin)
                .arg("worker")
                .args([prop.id, &s.to_string(), &a.shards.to_string(), &ms.to_string()])
                .arg(&out)
                .args([seed.to_string().as_str(), if a.thorough { "thorough" } else { "quick" }])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(dir.join(format!("w{s}.err"))).unwrap())
                .spawn()
                .unwrap();
            kids.push((s, bin.clone(), out, child));
        }
        let watchdog = Duration::from_millis(ms * 3) + Duration::from_secs(90);
        for (s, bin, out, mut child) in kids {
            let mut stuck = false;
            let status = loop {
                if let Some(st) = child.try_wait().unwrap() {
                    break st;
                }
                if round_start.elapsed() > watchdog {
                    stuck = true;
                    let _ = child.kill();
                    break child.wait().unwrap();
                }
                std::thread::sleep(Duration::from_millis(15));
            };
            let flavor = bin.file_name().unwrap().to_string_lossy().to_string();
            if status.success() {
                let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                evals += v["evals"].as_u64().unwrap();
                for (k, c) in v["counts"].as_object().unwrap() {
                    *counts.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
                for h in std::fs::read(out.with_extension("distinct")).unwrap().chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(h.try_into().unwrap()));
                }
                if samples.len() < 24 {
                    samples.extend(v["samples"].as_array().unwrap().iter().take(3.max(24 / a.shards as usize)).cloned());
                }
                for f in v["fails"].as_array().unwrap() {
                    let m = f["monitor"].as_str().unwrap().to_string();
                    fails.push((
                        format!("{m}/{}", f["key"].as_str().unwrap()),
                        m,
                        f["idx"].as_u64().unwrap(),
                        flavor.clone(),
                        f["msg"].as_str().unwrap().to_string(),
                        seed,
                    ));
                }
                if let Some(e) = v["error"].as_str() {
                    errors.push(format!("worker {s}: {e}"));
                }
                continue;
            }
            // the worker died or hung: find the case and decide
            let rec = std::fs::read(out.with_extension("journal")).unwrap_or_default();
            if rec.len() != 16 {
                errors.push(format!("worker {s} ended with {status} before its first case"));
                continue;
            }
            let mi = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize;
            let idx = u64::from_le_bytes(rec[8..].try_into().unwrap());
            let m = prop.monitors[mi].name;
            let err = std::fs::read_to_string(dir.join(format!("w{s}.err"))).unwrap_or_default();
            let sig = status.signal().unwrap_or(0);
            // alone, with 60 s of CPU time and no other load
            let again = Command::new("sh")
                .args(["-c", "ulimit -t 60; ulimit -c 0; exec \"$@\"", "sh"])
                .arg(&bin)
                .args(["case", prop.id, m, &seed.to_string(), &idx.to_string(), if a.thorough { "thorough" } else { "quick" }])
                .output()
                .unwrap();
            let text = String::from_utf8_lossy(&again.stderr).to_string();
            let tail = clip(if text.trim().is_empty() { &err } else { &text }, 1500);
            match (again.status.code(), again.status.signal()) {
                (Some(1), _) => {
                    fails.push((format!("{m}/crash"), m.into(), idx, flavor, String::from_utf8_lossy(&again.stdout).to_string(), seed))
                }
                (_, Some(24 | 9)) if again.status.signal() == Some(24) || stuck => fails.push((
                    format!("{m}/hang"),
                    m.into(),
                    idx,
                    flavor,
                    format!("the case does not finish within 60 s of CPU time alone (signal {:?})", again.status.signal()),
                    seed,
                )),
                (_, Some(x)) if x != 9 => {
                    fails.push((format!("{m}/crash"), m.into(), idx, flavor, format!("the process died with signal {x}: {tail}"), seed))
                }
                _ => {
                    if !stuck && [4, 5, 6, 7, 8, 11].contains(&sig) {
                        fails.push((
                            format!("{m}/crash"),
                            m.into(),
                            idx,
                            flavor,
                            format!("a worker died with signal {sig} (not reproduced by the single case): {tail}"),
                            seed,
                        ));
                    } else {
                        errors.push(format!(
                            "worker {s} ended with {status}{} in {m} case {idx}; alone: {}; {}",
                            if stuck { " (watchdog)" } else { "" },
                            again.status,
                            clip(&err, 600)
                        ));
                    }
                }
            }
        }
        let enough = prop.must.iter().all(|(k, n)| counts.get(*k).copied().unwrap_or(0) >= *n);
        if enough || !fails.is_empty() || !errors.is_empty() {
            break;
        }
    }
    let mut extra_cov = serde_json::Map::new();
    for p in &a.extra {
        let v: Value = match std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => {
                errors.push(format!("missing result {}", p.display()));
                continue;
            }
        };
        let name = v["name"].as_str().unwrap_or("extra").to_string();
        evals += v["evals"].as_u64().unwrap_or(0);
        for (k, c) in v["counts"].as_object().cloned().unwrap_or_default() {
            *counts.entry(k).or_default() += c.as_u64().unwrap_or(0);
        }
        for f in v["fails"].as_array().cloned().unwrap_or_default() {
            let key = f["key"].as_str().unwrap_or("fail").to_string();
            fails.push((
                format!("{name}/{key}"),
                name.clone(),
                0,
                v["tool"].as_str().unwrap_or("tool").into(),
                f["msg"].as_str().unwrap_or("").into(),
                a.seed,
            ));
        }
        if let Some(e) = v["error"].as_str() {
            errors.push(format!("{name}: {e}"));
        }
        extra_cov.insert(name, v["coverage"].clone());
    }
    for (k, n) in prop.must {
        let have = counts.get(*k).copied().unwrap_or(0);
        if have < *n && fails.is_empty() && errors.is_empty() {
            errors.push(format!("observed only {have} of '{k}', need {n}"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    fails.sort_by(|x, y| (&x.0, x.2).cmp(&(&y.0, y.2)));
    fails.dedup_by(|x, y| x.0 == y.0);
    let kn = known(&a.findings, prop.id);
    let mut violations = 0;
    let mut known_hit: HashSet<&str> = HashSet::new();
    std::fs::create_dir_all(&a.replays).unwrap();
    for (sig, m, idx, flavor, msg, seed) in &fails {
        if let Some((s, d)) = kn.iter().find(|(s, _)| s == sig) {
            if known_hit.insert(s) {
                println!("KNOWN-FINDING: property={} {} {}", prop.id, s, d);
            }
            continue;
        }
        violations += 1;
        if violations > 12 {
            continue;
        }
        let name = format!("{}-{}-{}-{}.json", prop.id, m, seed, idx);
        let path = a.replays.join(&name);
        let v = json!({"property": prop.id, "monitor": m, "seed": seed, "idx": idx, "build": flavor,
            "tier": if a.thorough {"thorough"} else {"quick"}, "signature": sig, "message": msg});
        std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        println!("  {} [{}] case {}: {}", sig, flavor, idx, clip(msg, 700));
    }
    let wall = start.elapsed().as_secs_f64();
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "rule": prop.rule,
        "samples": samples,
        "observed": counts,
        "builds": a.bins.iter().map(|b| b.file_name().unwrap().to_string_lossy().to_string()).collect::<Vec<_>>(),
    });
    for (k, v) in extra_cov {
        cov[k] = v;
    }
    if !errors.is_empty() {
        cov["inconclusive"] = json!(errors);
    }
    let ev = json!({
        "property": prop.id,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": a.level,
        "coverage": cov,
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all(a.evidence.parent().unwrap()).unwrap();
    let mut f = std::fs::File::create(&a.evidence).unwrap();
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, {} violation(s)", prop.id, evals, distinct.len(), wall, violations);
    for e in &errors {
        println!("INCONCLUSIVE: {e}");
    }
    if violations > 0 {
        1
    } else if !errors.is_empty() {
        3
    } else {
        0
    }
}
