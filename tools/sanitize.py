#!/usr/bin/env python3
"""Run the monitors' workloads under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri.

usage: sanitize.py TIER SEED TARGET_DIR FEATURES OUT.json
The reports of the tools decide; what the monitors themselves say is left to their properties.
Writes a result for `monitor run C30 --extra`.
"""
import collections, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

TIER, SEED, TARGET, FEATURES, OUT = sys.argv[1:6]
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
THOROUGH = TIER == "thorough"
CORES = min(8, os.cpu_count() or 8)
PROPS = [f"C{i:02}" for i in range(1, 33) if i not in (27,)]
if "awkward" not in FEATURES and "shapes" not in FEATURES:
    PROPS.remove("C32")
FEAT = ",".join(f for f in [FEATURES, "sanitizer"] if f)

scratch = tempfile.mkdtemp(prefix="sanitize-")
fails, notes, errors = [], [], []
counts = collections.Counter()
coverage = {}


def sh(cmd, env=None, timeout=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out or os.devnull, "w") as f:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout"


def build(kind):
    log = os.path.join(scratch, f"build-{kind}.log")
    if kind == "miri":
        env = {"MIRIFLAGS": MIRIFLAGS}
        rc = sh(["cargo", "+nightly", "miri", "setup"], env, 600, log)
        if rc == 0:
            rc = sh(miri_cmd(["list"]), env, 800, log)
    else:
        flags = f"-Zsanitizer={kind}" + (" -Zsanitizer-memory-track-origins" if kind == "memory" else "")
        rc = sh(
            ["cargo", "+nightly", "build", "--release", "-Zbuild-std", "--target", TRIPLE, "--features", FEAT, "--offline", "--target-dir", f"{TARGET}/{kind}"],
            {"RUSTFLAGS": flags, "CARGO_PROFILE_RELEASE_DEBUG": "line-tables-only"},
            800,
            log,
        )
    if rc != 0:
        tail = open(log, errors="replace").read()[-1500:]
        errors.append(f"the {kind} build failed ({rc}): {tail}")
        return False
    return True


MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"


def miri_cmd(args):
    return ["cargo", "+nightly", "miri", "run", "--release", "--features", FEAT, "--offline", "--target-dir", f"{TARGET}/miri", "--"] + args


def frames(block):
    """function and file of each frame, innermost first; the crate of the function where no file is known"""
    out = []
    for line in block.splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)", line)
        if not m:
            continue
        f = re.search(r" (/\S+?):\d+", m[1])
        if f:
            out.append((m[1][: f.start()], f[1]))
            continue
        name = re.match(r"[<&(\[ ]*(?:mut |dyn )?([a-z0-9_]+)::", m[1])
        if name and name[1] in ("core", "alloc", "std"):
            out.append((m[1], "/rustlib/" + name[1]))
        elif name:
            out.append((m[1], "/" + name[1].replace("_", "-") + "-/?"))
    return out


def is_std(path):
    return "/rustlib/" in path


def own(path):
    return path.split("/src/index.crates.io-")[-1]


def tsan_reports(text):
    """(key, text) of the reports that do not stem from the work-stealing deque's own validated volatile slots"""
    for rep in text.split("==================\n"):
        if "WARNING: ThreadSanitizer" not in rep:
            continue
        kind = rep.split("WARNING: ThreadSanitizer: ")[1].split(" (pid")[0]
        accesses = re.findall(r"^  (?:Previous |Atomic |Read |Write |atomic |read |write )[^\n]*? by [^\n]*?:\n((?:    #.*\n)+)", rep, re.M)
        tops = []
        for b in accesses:
            tops.append(next((own(p) for _, p in frames(b) if not is_std(p)), "?"))
        if kind == "data race" and tops and all(re.search(r"/crossbeam-(deque|epoch|utils)-|/rayon-core-", t) for t in tops):
            counts["thread: reports inside the work-stealing deque (known, by design)"] += 1
            continue
        yield f"{kind}:{'|'.join(sorted(set(t.split('/')[-1] for t in tops)))}".replace(" ", "_"), rep


def reports(kind, text):
    if kind == "thread":
        yield from tsan_reports(text)
        return
    for m in re.finditer(r"(ERROR: AddressSanitizer|WARNING: MemorySanitizer): ([^\n]*)", text):
        what = m.group(2)
        rep = text[m.start() : m.start() + 6000]
        if re.match(r"(stack-overflow|requested allocation|allocation-size|out of memory|calloc-overflow|attempting to (?!double|free))", what):
            notes.append(f"{kind}: {what[:200]}")
            continue
        top = next((own(p) for _, p in frames(rep) if not is_std(p)), "?")
        yield f"{what.split()[0]}:{top.split('/')[-1]}", rep


def worker(kind, prop, shard, shards, ms, seed):
    tag = f"{kind}-{prop}-{shard}"
    out = os.path.join(scratch, tag + ".json")
    log = os.path.join(scratch, tag + ".log")
    common = f"log_path={log}:exitcode=77:allocator_may_return_null=1"
    env = {
        "ASAN_OPTIONS": common + ":detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0",
        "MSAN_OPTIONS": common,
        "TSAN_OPTIONS": common + ":halt_on_error=0:history_size=4",
        "RUST_BACKTRACE": "0",
    }
    exe = f"{TARGET}/{kind}/{TRIPLE}/release/monitor"
    rc = sh([exe, "worker", prop, str(shard), str(shards), str(ms), out, str(seed), TIER], env, ms / 1000 * 4 + 240, os.path.join(scratch, tag + ".err"))
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    text = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(log + "*")))
    found = list(reports(kind, text))
    return kind, prop, shard, seed, rc, res, found, text


def miri(shard, ms, seed):
    out = os.path.join(scratch, f"miri-{shard}.json")
    err = os.path.join(scratch, f"miri-{shard}.err")
    rc = sh(miri_cmd(["worker", "C30", str(shard), str(CORES), str(ms), out, str(seed), TIER, "--only", "tiny"]), {"MIRIFLAGS": MIRIFLAGS, "MONITOR_NO_HARVEST": "1"}, ms / 1000 * 4 + 300, err)
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    text = open(err, errors="replace").read()
    found = []
    for m in re.finditer(r"^error: (Undefined Behavior|data race|Data race|unsupported|memory leaked)[^\n]*", text, re.M):
        if "unsupported" in m.group(0):
            notes.append(f"miri: {m.group(0)[:200]}")
            continue
        loc = re.search(r"--> (\S+?):\d+", text[m.start() :])
        found.append((f"miri:{os.path.basename(loc.group(1)) if loc else '?'}", text[m.start() : m.start() + 4000]))
    return "miri", "C30", shard, seed, rc, res, found, text


def main():
    start = time.time()
    kinds = ["address", "memory", "thread", "miri"]
    with ThreadPoolExecutor(4) as ex:
        ok = dict(zip(kinds, ex.map(build, kinds)))
    built = time.time()
    plan = []
    seed = int(SEED)
    ms = 20000 if THOROUGH else 1500
    for kind in ("address", "memory"):
        if ok[kind]:
            for p in PROPS:
                n = 4 if p == "C30" else 1
                for s in range(n):
                    plan.append(lambda kind=kind, p=p, s=s, n=n: worker(kind, p, s, n, ms, seed))
    with ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(lambda f: f(), plan))
    # threads need the cores for themselves
    if ok["thread"]:
        tms = 60000 if THOROUGH else 8000
        tplan = [lambda p=p, s=s: worker("thread", p, s, 4, tms, seed) for p, k in (("C29", 3), ("C24", 1), ("C30", 1)) for s in range(k)]
        with ThreadPoolExecutor(5) as ex:
            results += list(ex.map(lambda f: f(), tplan))
    if ok["miri"]:
        mms = 240000 if THOROUGH else 40000
        with ThreadPoolExecutor(CORES) as ex:
            results += list(ex.map(lambda s: miri(s, mms, seed), range(CORES)))
    evals = 0
    per = collections.defaultdict(collections.Counter)
    for kind, prop, shard, sd, rc, res, found, text in results:
        seen = set()
        for key, rep in found:
            if key not in seen:
                seen.add(key)
                fails.append({"key": f"{kind}:{key}", "msg": f"workload of {prop}, shard {shard}, seed {sd}: {rep}"})
        if res:
            evals += res["evals"]
            per[kind][prop] += res["evals"]
            counts[f"{kind}: cases"] += res["evals"]
            if res.get("fails"):
                notes.append(f"{kind}: {prop}: other properties' monitors reported {[f['key'] for f in res['fails']][:4]}")
            if res.get("error"):
                notes.append(f"{kind}: {prop}: {res['error']}")
        elif not found:
            if rc in (-11, -7):
                fails.append({"key": f"{kind}:crash:{prop}", "msg": f"workload of {prop}, shard {shard}, seed {sd} died with signal {-rc}: {text[-2000:]}"})
            else:
                notes.append(f"{kind}: {prop} shard {shard} ended with {rc}: {text[-300:]}")
    for k in kinds:
        if ok[k] and not per[k] and not fails:
            errors.append(f"{k}: no case was executed; {notes[-2:]}")
        coverage[k] = {"cases by workload": dict(per[k])}
    coverage["notes"] = notes[:40]
    coverage["build_s"] = round(built - start, 1)
    coverage["run_s"] = round(time.time() - built, 1)
    json.dump(
        {
            "name": "sanitizers",
            "tool": "asan/msan/tsan/miri",
            "evals": evals,
            "counts": dict(counts),
            "fails": fails,
            "error": "; ".join(errors) or None,
            "coverage": coverage,
        },
        open(OUT, "w"),
        indent=1,
    )
    shutil.rmtree(scratch, ignore_errors=True)


main()
