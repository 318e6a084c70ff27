#!/usr/bin/env python3
"""Runs one property's check:  check.py C01 quick|thorough      (VERIF_SEED, default 1)
   replays a reported failure: check.py replay FILE [-v]
   builds everything:          check.py setup

Exit 0: the property held on everything simulated.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the check
itself failed (build error, harness error)."""
import ctypes, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
STRIDE = 8

# runs per quick check: about twenty to thirty seconds of simulation on eight cores
QUICK = {"C01": 800000, "C02": 1600000, "C03": 2400000, "C04": 1600000, "C05": 400000, "C06": 600000,
         "C07": 1200000, "C08": 800000, "C09": 120000, "C10": 800000, "C11": 800000, "C12": 1600000}
THOROUGH_SECS = 600
FINE = {"C09"}  # their odd-numbered runs switch threads at single loads and stores
# configurations: cargo profile, directory it builds into, features of the library under test
CONFIGS = {"dev": ("dev", "debug", "width"), "rel": ("rel", "rel", "width"), "opt": ("opt", "opt", "width"), "bytes": ("dev", "debug", "bytes"), "core": ("dev", "debug", "core")}
MORE = {"C05": ["bytes"], "C10": ["core"]}  # also simulated without some of the library's default features

REAL = ["rowcol (all of /repo/src, compiled from the working tree)",
        "typenum, nodrop, num, approx, unicode-width", "core/alloc/std, real OS threads (released one at a time)"]
STUB = ["element type with planned failures and ownership ledger (Tok)", "caller closures and comparators", "source iterators",
        "fmt sinks", "global allocator (records, refuses on plan)", "thread scheduler (baton, switch list in the plan)"]

def env():
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    if os.path.isdir("/root/.cargo/bin"):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass

class Check(Exception):
    pass

def build(feature, profiles):
    """One target directory per (profile, feature): nothing is shared, so builds run side by side."""
    alone = threading.Lock()
    def one(pr):
        tgt = os.path.join(TARGET, pr)
        cmd = ["cargo", "build", "--offline", "-q", "--no-default-features", "--features", feature + "," + CONFIGS[pr][2], "--profile", CONFIGS[pr][0]]
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(tgt, feature)
        r = subprocess.run(cmd, cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and "signal" in r.stdout:
            with alone:  # the compiler was killed: memory is short, so one after the other
                r = subprocess.run(cmd, cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and CONFIGS[pr][2] != "width":
            return None  # not what users get by default; run_check says so
        if r.returncode != 0:
            raise Check("building the simulator against /repo failed (%s)\n%s" % (pr, "\n".join(l for l in r.stdout.splitlines() if not l.startswith("warning"))[-4000:]))
        return os.path.join(tgt, feature, CONFIGS[pr][1], "rcsim")
    with ThreadPoolExecutor(len(profiles)) as ex:
        return {p: b for p, b in zip(profiles, ex.map(one, profiles)) if b}

TRIPLE = "x86_64-unknown-linux-gnu"

def build_fine(feature):
    """The same simulator with rustc's thread-sanitizer instrumentation and a runtime of our own
    (sim/fine/rt.c): every load and store becomes a point where threads may be switched.
    None where this toolchain cannot do that; those runs then switch at callbacks only."""
    tgt = os.path.join(TARGET, "fine")
    os.makedirs(tgt, exist_ok=True)
    e = env()
    try:
        rt = os.path.join(tgt, "rt.%d.o" % os.getpid())
        if subprocess.run(["gcc", "-O2", "-c", os.path.join(SIM, "fine", "rt.c"), "-o", rt], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            return None
        obj = os.path.join(tgt, "rt.o")
        if os.path.exists(obj) and open(obj, "rb").read() == open(rt, "rb").read():
            os.unlink(rt)
        else:
            os.replace(rt, obj)
    except OSError:
        return None
    e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTFLAGS"] = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg rcfine -Clink-arg=" + obj
    e["CARGO_TARGET_DIR"] = os.path.join(tgt, feature)
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--no-default-features", "--features", feature + ",width", "--target", TRIPLE], cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = os.path.join(tgt, feature, TRIPLE, "debug", "rcsim")
    if r.returncode != 0 or not os.path.exists(b):
        return None
    # it must run here, too
    return b if call(b, ["props"]).returncode == 0 else None

def build_all(prop, profiles):
    """The binaries to use; properties about threads also get the fine-grained one if it can be built."""
    if prop not in FINE:
        return build(prop, profiles)
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(build_fine, prop)
        bins = build(prop, profiles)
        if f.result():
            bins["fine"] = f.result()
    return bins

def call(binary, args, timeout=None):
    return subprocess.run([binary] + [str(a) for a in args], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=no_aslr, timeout=timeout)

# ------------------------------------------------------------------ replays

DEADLOCK = "every caller thread waits for a lock that another one holds"

def replay(binary, text, verbose=False):
    """Runs a plan (or range) in a fresh process: (class, message, output) or None if it does not fail."""
    if text.startswith("rcsim-range"):
        kv = dict(l.split(None, 1) for l in text.splitlines() if " " in l)
        with tempfile.TemporaryDirectory() as d:
            f, s, c = int(kv["first"]), int(kv["stride"]), int(kv["count"])
            r = call(binary, ["work", kv["prop"], kv["seed"], f, s, c, 3600, d])
            w = read_worker(d, r.returncode)
            return w["found"][1:] + ("",) if w["found"] else None
    fd, path = tempfile.mkstemp(suffix=".plan")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        r = call(binary, ["run", path])
    finally:
        os.unlink(path)
    if r.returncode in (0, 1):
        for l in r.stdout.splitlines():
            if l.startswith("VIOL "):
                _, c, m = (l.split(" ", 2) + [""])[:3]
                return (c, m, r.stdout)
        return None
    if r.returncode == 77:
        return ("hang", "no progress for 20 s", r.stdout)
    if r.returncode == 78:
        return ("deadlock", DEADLOCK, r.stdout)
    if r.returncode < 0:
        return ("crash", "killed by " + signame(-r.returncode), r.stdout)
    return ("harness", "exit %d" % r.returncode, r.stdout)

def signame(n):
    try:
        return signal.Signals(n).name
    except ValueError:
        return "signal %d" % n

def read_worker(d, rc):
    out = {"stats": {}, "ops": {}, "found": None, "rc": rc, "dir": d}
    p = os.path.join(d, "out")
    if rc == 0 and os.path.exists(p):
        for l in open(p):
            w = l.rstrip("\n").split(" ")
            if w[0] == "stat":
                out["stats"][w[1]] = int(w[2])
            elif w[0] == "op":
                out["ops"][w[1]] = int(w[2])
            elif w[0] == "found":
                out["found"] = (int(w[1]), w[2], " ".join(w[3:]))
            else:
                out[w[0]] = int(w[1])
    else:
        idx = 0
        try:
            idx = struct.unpack("<Q", open(os.path.join(d, "cur"), "rb").read(8))[0]
        except Exception:
            pass
        if rc == 77:
            out["found"] = (idx, "hang", "no progress for 20 s")
        elif rc == 78:
            out["found"] = (idx, "deadlock", DEADLOCK)
        elif rc < 0:
            out["found"] = (idx, "crash", "killed by " + signame(-rc))
        else:
            out["found"] = (idx, "harness", "worker exit %d" % rc)
    return out

# ----------------------------------------------------------------- shrinking

class Plan:
    def __init__(self, text):
        self.head, self.steps, self.sw, self.hot = [], [], [], []
        for l in text.splitlines():
            (self.steps if l.startswith("step ") else self.sw if l.startswith("sw ") else self.hot if l.startswith("hot ") else self.head).append(l)
        self.head = [l for l in self.head if not l.startswith(("#", "expect", "profile", "note"))]
    def text(self):
        return "\n".join(self.head + self.steps + self.sw + self.hot) + "\n"
    def copy(self):
        return Plan(self.text())

def shrink(binary, text, cls, seconds=60, tries=400):
    end = time.time() + seconds
    left = [tries]
    def same(t):
        if left[0] <= 0 or time.time() > end:
            return False
        left[0] -= 1
        r = replay(binary, t)
        return r is not None and r[0] == cls
    best = Plan(text)
    def attempt(p):
        nonlocal best
        if same(p.text()):
            best = p
            return True
        return False
    if cls == "hang":
        left[0] = 12  # every attempt costs the watchdog's patience
    for _ in range(3):
        before = best.text()
        for attr in ("hot", "sw", "steps"):
            n = len(getattr(best, attr))
            size = n
            while size >= 1:
                i = 0
                while i < len(getattr(best, attr)):
                    p = best.copy()
                    l = getattr(p, attr)
                    if len(l) == size and attr == "steps":
                        i += size
                        continue
                    del l[i:i + size]
                    if not attempt(p):
                        i += size
                size //= 2
        # plainer circumstances
        for l in [l for l in best.head if l.startswith("ctx ")]:
            p = best.copy()
            p.head.remove(l)
            attempt(p)
        # fewer failures, simpler placements
        for i in range(len(best.steps)):
            j = 0
            while True:
                w = best.steps[i].split(" ")
                fs = [k for k, x in enumerate(w) if x.startswith("!")]
                if j >= len(fs):
                    break
                p = best.copy()
                q = list(w)
                del q[fs[j]]
                p.steps[i] = " ".join(q)
                if attempt(p):
                    continue
                if "~" in w[fs[j]]:
                    for at in (0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20):
                        p = best.copy()
                        q = list(w)
                        q[fs[j]] = w[fs[j]].split("~")[0] + "@%d" % at
                        p.steps[i] = " ".join(q)
                        if attempt(p):
                            break
                j += 1
        # smaller numbers
        def numbers(lines, i, first):
            w = lines(best)[i].split(" ")
            for k in range(first, len(w)):
                if w[k].startswith("!") or not re.fullmatch(r"-?\d+", w[k]):
                    continue
                v = int(w[k])
                for c in (0, 1, 2, 3, v // 1000, v // 2, v - 1):
                    if abs(c) < abs(v) and v != c and (c >= 0 or v < 0):
                        p = best.copy()
                        q = lines(best)[i].split(" ")
                        q[k] = str(c)
                        lines(p)[i] = " ".join(q)
                        if attempt(p):
                            break
        hi = [i for i, l in enumerate(best.head) if l.startswith("shape")]
        for i in hi:
            numbers(lambda p: p.head, i, 1)
        for i in range(len(best.steps)):
            numbers(lambda p: p.steps, i, 3)
        if best.text() == before:
            break
    return best.text()

# --------------------------------------------------------------------- known

def known(prop):
    """Open findings: lines 'open: property=<id> match=<regex> <what>'.  Fixed ones suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

# ---------------------------------------------------------------------- main

def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    profiles = (["dev", "rel"] if tier == "quick" else ["dev", "rel", "opt"]) + MORE.get(prop, [])
    bins = build_all(prop, profiles)
    if prop in FINE and "fine" not in bins:
        print("note: this toolchain cannot build the fine-grained simulator; all runs switch at callbacks only")
    for p in [p for p in profiles if p not in bins]:
        print("note: the library does not build in configuration %s; not simulated" % p)
        profiles.remove(p)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="rcsim-")
    try:
        return explore(prop, tier, seed, bins, profiles, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def explore(prop, tier, seed, bins, profiles, work, t0, tb):
    secs = 150 if tier == "quick" else THOROUGH_SECS
    per = QUICK[prop] // STRIDE if tier == "quick" else 10 ** 9
    findings = known(prop)
    seen_known = {}
    prof = lambda w: "fine" if "fine" in bins and w % 2 == 1 else profiles[(w // 2 if "fine" in bins else w) % len(profiles)]
    stuck = []
    def job(w):
        """One worker: indices w, w+8, ... until its share is done or something fails."""
        parts, start, end = [], w, time.time() + secs
        while True:
            d = os.path.join(work, "w%d.%d" % (w, len(parts)))
            os.mkdir(d)
            rest = per - (start - w) // STRIDE
            r = call(bins[prof(w)], ["work", prop, seed, start, STRIDE, max(rest, 0), max(1, int(end - time.time())), d])
            res = read_worker(d, r.returncode)
            res["w"] = w
            parts.append(res)
            if not res["found"]:
                return parts
            idx, cls, msg = res["found"]
            if res["rc"] == 77 and prof(w) == "fine":
                # switched out while it held a lock another thread then waited for: the simulated
                # scheduler, which releases one thread at a time, is stuck, not the code
                stuck.append(idx)
                res["found"] = None
                if len(stuck) > 3:
                    return parts
                start = idx + STRIDE
                continue
            hit = next((k for k in findings if k[0].search(cls + " " + msg)), None)
            if hit is None:
                return parts
            seen_known[hit[1]] = seen_known.get(hit[1], 0) + 1
            start = idx + STRIDE
    ts = time.time()
    with ThreadPoolExecutor(STRIDE) as ex:
        results = [p for ps in ex.map(job, range(STRIDE)) for p in ps]
    wall_sim = time.time() - ts
    for what, n in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, n))
    bad = sorted((r["found"] + (r["w"],) for r in results if r["found"] and not any(k[0].search(r["found"][1] + " " + r["found"][2]) for k in findings)))
    # every index is repeated in another process at another position: same event log, or the simulator is broken
    mism, again = determinism(prop, seed, bins, prof, results, work) if not bad else (0, 0)
    report = None
    if bad:
        report = attribute(prop, seed, bins, prof, bad)
    write_evidence(prop, tier, seed, results, wall_sim, tb, t0, profiles + (["fine"] if "fine" in bins else []), stuck, mism, again, report, seen_known)
    if report:
        path, cls, msg = report
        if cls == "harness":
            raise Check("harness error: %s (%s)" % (msg, path))
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if mism:
        print("warning: %d of %d repeated runs did not repeat exactly" % (mism, again))
    runs = sum(r.get("runs", 0) for r in results)
    print("ok: %d simulated runs, %.1f s simulating, %.1f s building" % (runs, wall_sim, tb))
    return 0

def determinism(prop, seed, bins, prof, results, work):
    mism = again = 0
    for w in range(2):
        src = next((r for r in results if r["w"] == w and r["rc"] == 0), None)
        if src is None:
            continue
        d = os.path.join(work, "again%d" % w)
        os.mkdir(d)
        # a different starting point and stride, so each run has another history behind it
        call(bins[prof(w)], ["work", prop, seed, w + STRIDE * 3, STRIDE * 2, 120, 60, d])
        a = dict(l.split() for l in open(os.path.join(src["dir"], "hashes")))
        try:
            b = dict(l.split() for l in open(os.path.join(d, "hashes")))
        except OSError:
            mism += 1
            continue
        for k in b:
            if k in a:
                again += 1
                mism += a[k] != b[k]
    return mism, again

def attribute(prop, seed, bins, prof, bad):
    os.makedirs(REPLAYS, exist_ok=True)
    for idx, cls, msg, w in bad[:6]:
        b = bins[prof(w)]
        text = call(b, ["gen", prop, seed, idx]).stdout
        r = replay(b, text)
        if r is None:
            continue
        small = shrink(b, text, r[0])
        r2 = replay(b, small) or r
        return save(prop, seed, idx, prof(w), small, r2)
    # only with its predecessors: replay the shortest run of indices that still fails
    idx, cls, msg, w = bad[0]
    b = bins[prof(w)]
    n = 1
    total = (idx - w) // STRIDE + 1
    for _ in range(40):
        n = min(n * 4, total)
        text = "rcsim-range 1\nprop %s\nseed %d\nfirst %d\nstride %d\ncount %d\n" % (prop, seed, idx - (n - 1) * STRIDE, STRIDE, n)
        r = replay(b, text)
        if r is not None:
            break
    if r is None:
        r = ("harness", "%s: %s (seen once, did not repeat)" % (cls, msg), "")
    return save(prop, seed, idx, prof(w), text, r)

def save(prop, seed, idx, profile, text, r):
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.plan" % (prop, seed, idx))
    with open(path, "w") as f:
        f.write(text)
        f.write("profile %s\nexpect %s %s\n" % (profile, r[0], r[1]))
        f.write("# found at seed %d, run %d; replay with: python3 %s replay %s\n" % (seed, idx, os.path.join(HERE, "check.py"), path))
        for l in r[2].splitlines():
            if l.startswith("LOG "):
                f.write("# trace: %s\n" % l[4:])
    return path, r[0], r[1]

def cmd_replay(path, verbose):
    text = open(path).read()
    kv = dict((l.split(None, 1) + [""])[:2] for l in text.splitlines() if l and not l.startswith(("#", "step", "sw")))
    prop, pr = kv["prop"].strip(), kv.get("profile", "dev").strip()
    b = build_fine(prop) if pr == "fine" else build(prop, [pr]).get(pr)
    if b is None:
        raise Check("the simulator cannot be built in configuration %s here" % pr)
    body = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n"
    r = replay(b, body)
    if r is None:
        print("does not fail")
        return 0
    if verbose:
        print(r[2])
    print("%s: %s" % (r[0], r[1]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

def union(results, name):
    s = set()
    for r in results:
        p = os.path.join(r["dir"], name)
        if os.path.exists(p):
            d = open(p, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    return s

RULE = ("One index of one seed is one plan: kind of scenario, dimensions, operations with arguments, failures with their "
        "placements, thread schedule, allocator and sink behaviour, all drawn from a PRNG seeded with (seed, property, index). "
        "A run is non-trivial when a planned failure fired, a thread switch happened, an element lied, a request overstepped, an iterator was "
        "abandoned, a sink or the allocator refused; runs are distinct when the hash of their complete event log (every call back into "
        "caller code with thread and kind, every failure, every observed result) differs.")

def write_evidence(prop, tier, seed, results, wall_sim, tb, t0, profiles, stuck, mism, again, report, seen_known):
    os.makedirs(EVID, exist_ok=True)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    stats, ops = {}, {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
    samples = []
    for r in results:
        for i in range(3):
            p = os.path.join(r["dir"], "sample%d" % i)
            if os.path.exists(p) and len(samples) < 6:
                samples.append(open(p).read().splitlines())
    if not samples:
        samples = [[str(r["found"])] for r in results if r["found"]][:3]
    runs = tot("runs")
    hours = max(wall_sim, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": 1 if report else 0,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(union(results, "distinct_nt")), "rule": RULE, "samples": samples,
            "simulated_runs": runs, "nontrivial_runs": tot("nontrivial"), "distinct_event_histories": len(union(results, "distinct")),
            "distinct_measure": "64-bit hash over the whole event log of a run",
            "runs_per_hour": int(runs / hours), "seeds_per_hour": int(runs / hours),
            "seeds_note": "one base seed per check; every run draws its own 64-bit seed from (base seed, property, index)",
            "simulated_time": {"unit": "callbacks into caller code (the code under test has no clock: its only notion of progress is calling out)", "callbacks": tot("events"), "operations": tot("steps"), "thread_switches": tot("switches")},
            "faults_fired": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
            "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
            "operations": dict(sorted(ops.items())),
            "build_configurations": {p: {"dev": "debug assertions and overflow checks on", "rel": "both off", "opt": "both off, opt-level 2", "bytes": "as dev, the library without its unicode_width feature", "core": "as dev, the library without any of its features (no_std)", "fine": "as dev, every load and store instrumented as a switch point"}[p] for p in profiles},
            "determinism": {"runs_repeated_in_another_process": again, "diverged": mism},
            "wall_simulating_s": round(wall_sim, 2), "wall_building_s": round(tb, 2), "processes": STRIDE,
            "ran_real_code": REAL, "ran_a_stub": STUB,
            "violations_of_other_properties_seen": tot("others"),
            "known_findings_seen": seen_known,
            "fine_grained_schedules_abandoned": len(stuck),
        },
        "assumptions": ["sampling, not enumeration: a clean batch is evidence, not proof",
                        "caller threads interleave at calls into caller code" + (" and, in the runs of the fine build, at every load and store (sequentially consistent)" if "fine" in profiles else "; in one order only between those"),
                        "no element code panics while another panic is unwinding (that aborts the process by language rule)"],
    }
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))

def main(a):
    if a[:1] == ["setup"]:
        for p in sorted(QUICK):
            build_all(p, ["dev", "rel"] + MORE.get(p, []))
        return 0
    if a[:1] == ["replay"]:
        return cmd_replay(a[1], "-v" in a)
    if len(a) == 2 and a[0] in QUICK and a[1] in ("quick", "thorough"):
        return run_check(a[0], a[1])
    print(__doc__)
    return 2

if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Check as e:
        print("ERROR: %s" % e)
        sys.exit(2)
