#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, drives the workloads in
several processes, watches them, and turns what the monitors saw into a verdict and an evidence file.

  check.py C05                     tier and seed from VERIF_TIER and VERIF_SEED
  check.py C05 --replay FILE       runs the one case a replay file names
  check.py --setup                 builds everything the checks use

Exit 0: held on everything observed. 1: violated, with a VIOLATION line. 2: no verdict."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
HARNESS = os.path.join(ROOT, "harness")
ENV = dict(os.environ, PATH=os.environ.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RAYON_NUM_THREADS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
HOST = "x86_64-unknown-linux-gnu"
STALL = 20            # seconds without any progress of any thread
CASE_CPU = 200        # CPU seconds within one case
MEMORY = 12 << 30     # address space of one process

# ------------------------------------------------------------------------------------------ what is run
# cases per run: (checked build, optimised build), for the quick and the thorough tier;
# stats that must not be zero for the run to count
P = {
    "C01": ((120000, 90000), (1600000, 1200000), ["indices enumerated", "broadcast lookups", "too short lookups refused", "out of range lookups refused", "tensors from nested lists", "tensors from a single value"]),
    "C02": ((900000, 600000), (8000000, 6000000), ["special float cases", "very large operands", "compatible shapes recognised", "incompatible shapes recognised", "operands combined with themselves"]),
    "C03": ((750000, 450000), (6000000, 4000000), ["special float cases", "operands combined with themselves"]),
    "C04": ((600000, 480000), (6000000, 5000000), ["copies with gradients", "backward passes through products with views"]),
    "C05": ((46000, 35000), (500000, 400000), ["times itself", "batched", "special float cases", "float products"]),
    "C06": ((112000, 84000), (1000000, 800000), ["elements summed", "products summed", "special float cases", "operands combined with themselves"]),
    "C07": ((180000, 140000), (2000000, 1500000), ["long chains", "ladders", "kinks", "gradients among special floats", "gradients of batched products"]),
    "C08": ((115000, 90000), (1200000, 1000000), ["history steps", "refused operations", "long series of updates", "tensors of the history added to gradients"]),
    "C09": ((20000, 16000), (250000, 200000), ["linearizable histories", "contributions conserved", "simultaneous rounds", "concurrent pairs of operations"]),
    "C10": ((18000, 14000), (200000, 160000), ["products compared", "gradients compared", "gradients with long extents", "switches between threads"]),
    "C11": ((20000, 14000), (120000, 80000), ["faults fired", "panics surfaced", "integer overflows surfaced", "rounds with a failing thread", "panics with a payload that is no text"]),
    "C12": ((65000, 48000), (500000, 400000), ["steps compared", "refused steps", "steps after a backward pass", "models with a tensor in two places", "steps with extreme values"]),
    "C13": ((50000, 38000), (600000, 500000), ["outputs compared", "parameter replacements", "gradients through the parameter list", "models with a tensor in two places", "inputs equal to a parameter", "outputs of special floats compared"]),
    "C14": ((6000, 5000), (60000, 50000), ["iterations compared", "iterations with counted operations", "iterations with measured memory", "accumulations with measured memory", "iterations with gradients computed from their tensor"]),
    "C16": ((1440000, 900000), (10000000, 8000000), ["comparisons", "empty views", "operands with one storage"]),
    "C17": ((40000, 30000), (600000, 500000), ["data that does not fill a huge shape"]),
    "C18": ((5500, 4000), (90000, 70000), ["answers to repeated requests", "refused requests in between", "panics in between", "answers compared while others were asked for", "asked on a new thread", "asked on a worker of a pool"]),
    "C19": ((18000, 20000), (200000, 250000), ["requests measured", "backward passes measured", "backward passes through reused results", "gradients of many elements measured", "long chains", "steps measured", "tensors handled", "windows of large tensors measured"]),
}
RULE = {
    "C01": "a case constructs a tensor (element type, constructor, shape drawn at random; labelled elements) and looks up in-range, surplus, short and out-of-range indices; non-trivial: more than one element; distinct by type, constructor, shape and data",
    "C02": "a case draws an element type, a shape, a broadcast partner, data and a form of the operator; non-trivial: more than one element; distinct by all of these",
    "C03": "a case draws an element type, an operation, an operand kind, a shape and data; non-trivial: more than one element; distinct by all of these",
    "C04": "a case draws a base tensor and a chain of slices and reshapes, and compares every observer of the view with a copy; non-trivial: more than one element; distinct by type, shape, ranges and data",
    "C05": "a case draws an element type, operand kinds, sizes and data and compares every entry with a triple loop; non-trivial: all; distinct by all of these",
    "C06": "a case draws an element type, operand kinds, a shape and data; non-trivial: more than one element; distinct by all of these",
    "C07": "a case draws a random expression graph (profile, shapes, operations, sharing, leaves), runs it and one backward pass, and compares every tensor's gradient with reverse-mode accumulation in topological order on plain arrays; non-trivial: all; distinct by graph and data",
    "C08": "a case is a random history of operations, backward passes, clears, clones, copies and refused calls, with the gradient and value of every tensor compared with a model; non-trivial: all; distinct by history text",
    "C09": "a case is a concurrent history recorded at the call boundary and checked for linearizability, or a set of concurrent contributions whose exact total is known; non-trivial: at least two operations overlapped, or all for totals; distinct by plan and data",
    "C10": "a case runs products, gradients or random programs in a drawn calling context (thread, pools of 1 to 12, nested pools, scopes, joins, many threads) with delays injected into the element arithmetic; non-trivial: all; distinct by case and by the observed order of threads",
    "C11": "a case counts the arithmetic operations of a call and repeats it with a panic injected at every one of them when few, else at the first, the last and a random choice; non-trivial: all; distinct by call",
    "C12": "a case builds a random model, sets gradients directly or by a backward pass, takes one to four SGD steps and compares all parameters, old tensors and gradients; non-trivial: all; distinct by model, data and step sizes",
    "C13": "a case builds a random network, compares its output on a matrix or batch with plain arrays, replaces parameters and compares again; non-trivial: all; distinct by network, data and input shape",
    "C14": "a case trains a random model and compares the parameters after every iteration with a reference, or counts arithmetic operations or live bytes per iteration; non-trivial: all; distinct by model and data",
    "C15": "a case repeats one workload under the live-byte monitor, or runs one under Miri, ThreadSanitizer or AddressSanitizer; non-trivial: as in the property the workload comes from; distinct by workload and data",
    "C16": "a case compares two tensors reached in drawn ways (equal, one element changed, other shape, elements swapped, special floats); non-trivial: more than one element; distinct by operands",
    "C18": "a case draws up to a dozen requests with known answers (several share shapes and differ in data) and makes them many times in random order, place and company; non-trivial: all; distinct by the requests",
    "C19": "a case makes requests of one drawn kind (one operation, a network, a random or diamond-shaped graph, a long chain, a gradient of many elements, optimizer steps) and measures arithmetic operations, peak memory and bytes allocated; non-trivial: all; distinct by request and data",
    "C17": "a case makes several ill-formed requests of one drawn kind near the boundary of well-formed ones; non-trivial: all; distinct by the requests",
}
LEVEL = {p: "exploration" for p in RULE}
LEVEL["C11"] = "fault_enumeration"

def say(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------------------------------ builds
class NoVerdict(Exception):
    pass

def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

BUILDS = {
    "dev": dict(cmd=["cargo", "build"], dir="", bin="debug/harness"),
    "rel": dict(cmd=["cargo", "build", "--release"], dir="", bin="release/harness"),
    "asan": dict(cmd=["cargo", "+nightly", "build", "--target", HOST], dir="asan", flags="-Zsanitizer=address", bin=HOST + "/debug/harness"),
    "tsan": dict(cmd=["cargo", "+nightly", "build", "-Zbuild-std", "--target", HOST], dir="tsan", flags="-Zsanitizer=thread", bin=HOST + "/debug/harness"),
    "miri": dict(cmd=["cargo", "+nightly", "miri", "run"], dir="mir", tail=["--", "C15U", "cases=0"], bin=None),
}
MIRI_ENV = {"MIRI_SYSROOT": os.path.join(TARGET, "miri-sysroot")}

def build(kind, feature, log):
    """Starts a build."""
    b = BUILDS[kind]
    tdir = os.path.join(TARGET, b["dir"]) if b["dir"] else TARGET
    os.makedirs(tdir, exist_ok=True)
    env = dict(ENV)
    if b.get("flags"):
        env["RUSTFLAGS"] = b["flags"]
    # never trust time stamps alone: forget the library's build when its sources differ from those last built
    stamp = os.path.join(tdir, ".tree-" + kind)
    want = tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        clean = ["cargo"] + (["+nightly"] if "+nightly" in b["cmd"] else []) + ["clean", "--offline", "-p", "rust_light", "--target-dir", tdir]
        if kind == "rel":
            clean.append("--release")
        if kind in ("asan", "tsan", "miri"):
            clean += ["--target", HOST]
        if kind == "miri":
            clean[clean.index("--target-dir") + 1] = os.path.join(tdir, "miri")
        subprocess.run(clean, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(stamp):
        os.remove(stamp)
    cmd = list(b["cmd"])
    if kind == "miri":
        env.update(MIRI_ENV)
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
    cmd += ["--offline", "--target-dir", tdir, "--no-default-features", "--features", feature + (",few" if feature == "c15" else "")] + b.get("tail", [])
    if kind == "miri":
        cmd = ["sh", "-c", "cargo +nightly miri setup && exec \"$@\"", "sh"] + cmd
    return subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=open(log, "a"), stderr=subprocess.STDOUT, start_new_session=True), stamp, want, tdir

def build_all(kinds, feature, work):
    """Builds in parallel; returns kind -> binary (copied, so that other checks may build over it)."""
    os.makedirs(TARGET, exist_ok=True)
    out = {}
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        # dev and rel share a target directory and would wait for each other's lock only briefly
        jobs = []
        for k in kinds:
            log = os.path.join(work, "build-" + k + ".log")
            open(log, "w").close()
            jobs.append((k, log, build(k, feature, log)))
        for k, log, (p, stamp, want, tdir) in jobs:
            if p.wait() != 0:
                for _, _, (q, *_) in jobs:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                        q.wait()
                text = open(log, errors="replace").read()
                raise NoVerdict("building %s failed:\n%s" % (k, text[-3000:]))
            open(stamp, "w").write(want)
            if BUILDS[k]["bin"]:
                dst = os.path.join(work, "harness-" + k)
                shutil.copy2(os.path.join(tdir, BUILDS[k]["bin"]), dst)
                out[k] = dst
            else:
                out[k] = None
        say("built %s for %s in %.0f s" % (", ".join(kinds), feature, time.time() - t))
    return out

# ------------------------------------------------------------------------------------------ processes
class Proc:
    """One harness process under watch."""
    def __init__(self, tag, cmd, env, out, shard, hard, kind, cwd=None, limit=True):
        self.tag, self.out, self.shard, self.hard, self.kind = tag, out, shard, hard, kind
        self.cmd = cmd
        self.log = os.path.join(out, "log-%s" % tag)
        def pre():
            os.setsid()
            if limit:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.start = time.time()
        self.p = subprocess.Popen(cmd, env=env, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, preexec_fn=pre, cwd=cwd)
        self.sig, self.quiet, self.case_no, self.case_cpu = None, 0, None, 0.0
        self.verdict = None      # None, "violation", "lost"
        self.text = ""
        self.ended = None
    def case(self):
        try:
            return int(open(os.path.join(self.out, "cur-%s" % self.shard)).read().split()[0])
        except (OSError, ValueError, IndexError):
            return None
    def evals(self):
        try:
            return int(open(os.path.join(self.out, "cur-%s" % self.shard)).read().split()[1])
        except (OSError, ValueError, IndexError):
            return 0
    def threads(self):
        """(every thread asleep?, cpu ticks and context switches of all threads)"""
        asleep, sig, cpu = True, [], 0
        base = "/proc/%d/task" % self.p.pid
        try:
            for t in sorted(os.listdir(base)):
                s = open("%s/%s/stat" % (base, t)).read()
                f = s[s.rindex(")") + 2:].split()
                asleep &= f[0] == "S"
                cpu += int(f[11]) + int(f[12])
                sw = re.findall(r"ctxt_switches:\s*(\d+)", open("%s/%s/status" % (base, t)).read())
                sig.append((t, f[11], f[12], tuple(sw)))
        except (OSError, ValueError, IndexError):
            return None
        return asleep, tuple(sig), cpu / os.sysconf("SC_CLK_TCK")
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
    def watch(self):
        """Called about once a second; true when the process is done with."""
        rc = self.p.poll()
        if rc is not None:
            self.ended = time.time()
            self.finish(rc)
            return True
        if self.kind in ("dev", "rel"):
            t = self.threads()
            if t:
                asleep, sig, cpu = t
                self.quiet = self.quiet + 1 if asleep and sig == self.sig else 0
                self.sig = sig
                c = self.case()
                if c != self.case_no:
                    self.case_no, self.case_cpu = c, cpu
                if self.quiet >= STALL:
                    stacks = self.stacks()
                    self.kill()
                    self.verdict, self.text = "violation", "the workload never returns: all threads of the process wait (%d s without any thread running)\n%s" % (self.quiet, stacks)
                    self.ended = time.time()
                    return True
                if cpu - self.case_cpu > CASE_CPU:
                    self.kill()
                    self.verdict, self.text = "violation", "the workload does not end: more than %d CPU seconds in one case" % CASE_CPU
                    self.ended = time.time()
                    return True
        if time.time() - self.start > self.hard:
            self.kill()
            self.verdict = "cut"
            self.ended = time.time()
            return True
        return False
    def stacks(self):
        lines = []
        try:
            for t in sorted(os.listdir("/proc/%d/task" % self.p.pid)):
                lines.append("  thread %s waits in %s" % (t, open("/proc/%d/task/%s/wchan" % (self.p.pid, t)).read() or "?"))
        except OSError:
            pass
        return "\n".join(lines)
    def finish(self, rc):
        if self.kind not in ("dev", "rel"):
            self.rc = rc
            return
        if rc in (0, 1) and os.path.exists(os.path.join(self.out, "done-%s" % self.shard)):
            return
        tail = open(self.log, errors="replace").read()[-2000:]
        if "memory allocation of" in tail:
            self.verdict, self.text = "violation", "the workload needs more than %d GB of memory\n%s" % (MEMORY >> 30, tail)
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            self.verdict, self.text = "violation", "the process died of %s\n%s" % (signal.Signals(-rc).name, tail)
        else:
            self.verdict, self.text = "lost", "process %s ended with %s\n%s" % (self.tag, rc, tail)

def run_procs(waiting, slots, stop_on_violation=True):
    """waiting: functions that start a Proc."""
    live, done = [], []
    waiting = list(waiting)
    try:
        while waiting or live:
            while waiting and len(live) < slots:
                live.append(waiting.pop(0)())
            time.sleep(1.0 if len(waiting) == 0 else 0.25)
            now = time.time()
            for p in list(live):
                # the stall counter counts seconds
                if now - getattr(p, "last", 0) < 0.95 and p.p.poll() is None:
                    continue
                p.last = now
                if p.watch():
                    live.remove(p)
                    done.append(p)
            if stop_on_violation and any(p.verdict == "violation" or glob.glob(os.path.join(p.out, "viol-%s-*" % p.shard)) for p in done):
                waiting = []
                for p in live:
                    p.kill()
                    p.verdict = p.verdict or "stopped"
                    done.append(p)
                live = []
    finally:
        for p in live:
            p.kill()
    return done

# ------------------------------------------------------------------------------------------ native runs
def native(prop, bins, work, counts, seconds, violations, cov):
    """Checked (dev) and optimised builds side by side, with different seeds and worker counts."""
    starts = []
    shards = [("dev", i, 5, w) for i, w in enumerate((8, 2, 1, 3, 5))] + [("rel", i, 3, w) for i, w in enumerate((4, 1, 7))]
    for kind, i, n, workers in shards:
        cases = counts[0] if kind == "dev" else counts[1]
        if not cases or kind not in bins:
            continue
        out = os.path.join(work, kind)
        os.makedirs(out, exist_ok=True)
        seed = SEED * 2 + (kind == "rel")
        cmd = [bins[kind], prop, "seed=%d" % seed, "shard=%d" % i, "shards=%d" % n, "cases=%d" % cases, "out=" + out, "thorough=%d" % THOROUGH, "seconds=%d" % seconds]
        env = dict(ENV, RAYON_NUM_THREADS=str(workers))
        starts.append(lambda tag="%s-%d" % (kind, i), cmd=cmd, env=env, out=out, i=i, kind=kind: Proc(tag, cmd, env, out, i, seconds + 420, kind))
    done = run_procs(starts, len(starts))
    distinct = set()
    for p in done:
        meta = dict(build=p.kind, seed=int(p.cmd[2].split("=")[1]), workers=dict(zip([(k, i) for k, i, _, _ in shards], [w for *_, w in shards]))[(p.kind, p.shard)], prop=p.cmd[1], thorough=THOROUGH)
        f = os.path.join(p.out, "done-%s" % p.shard)
        if os.path.exists(f):
            d = json.load(open(f))
            cov["evaluations"] += d["evaluations"]
            cov["stopped_by_time"] = cov.get("stopped_by_time", False) or d["timed_out"]
            for k, v in d["stats"].items():
                s = cov.setdefault("observed", {})
                s[k] = max(s.get(k, 0), v) if k.startswith("max ") else s.get(k, 0) + v
            for x in d["samples"]:
                if len(cov["samples"]) < 6 and x not in cov["samples"]:
                    cov["samples"].append(x[:600])
            h = open(os.path.join(p.out, "hash-%s" % p.shard), "rb").read()
            distinct.update((p.kind == "rel", x[0]) for x in struct.iter_unpack("<Q", h))
        else:
            cov["evaluations"] += p.evals()
        for v in sorted(glob.glob(os.path.join(p.out, "viol-%s-*" % p.shard))):
            text = open(v).read()
            case, text = text.split("\n", 1)
            violations.append(dict(meta, case=int(case), text=text))
        if p.verdict == "violation":
            violations.append(dict(meta, case=p.case(), text=p.text))
        elif p.verdict in ("lost", "cut"):
            raise NoVerdict(p.text or "process %s had to be ended after %d s" % (p.tag, p.hard)) if not violations else NoVerdictLater()
    cov["distinct_nontrivial"] += len(distinct)
    cov["processes"] = cov.get("processes", 0) + len(done)

class NoVerdictLater(Exception):
    pass

# ------------------------------------------------------------------------------------------ sanitizers
def miri_blocks(text):
    """Error reports of Miri, each up to the next blank-line separated summary."""
    out = []
    for m in re.finditer(r"^error: (.*?)(?=^error: |\Z)", text, re.M | re.S):
        b = m.group(0)
        if not b.startswith("error: aborting"):
            out.append(b)
    return out

DEP = re.compile(r"/registry/src/[^/]+/(rayon|crossbeam)")

def judge_miri(text):
    """(violations, notes): undefined behaviour and data races count. Reports of the experimental aliasing
    model that are located inside the thread-pool crates do not: they fire without the library's doing."""
    bad, notes = [], []
    for b in miri_blocks(text):
        head = b.split("\n", 2)
        at = head[1] if len(head) > 1 else ""
        if "Undefined Behavior" in head[0]:
            if "Tree Borrows" in b and DEP.search(at):
                notes.append("aliasing report inside the thread pool")
            else:
                bad.append(b)
        else:
            notes.append(head[0][:120])
    return bad, notes

def tsan_blocks(text):
    return re.findall(r"^WARNING: ThreadSanitizer:.*?^SUMMARY: ThreadSanitizer.*?$", text, re.M | re.S) + \
        re.findall(r"^==\d+==ERROR: ThreadSanitizer:.*?^SUMMARY: ThreadSanitizer.*?$", text, re.M | re.S)

def judge_tsan(text):
    bad, notes = [], []
    for b in tsan_blocks(text):
        # The owner of an access: the innermost frame in the library, the harness or a crate (not the
        # standard library or the allocator). The pool's memory reclamation uses fences, which this tool
        # does not understand, so a race counts only when none of its accesses is made by the pool itself.
        owners = []
        for st in re.split(r"\n\s*\n", b):
            if not re.search(r"^\s+(Atomic |Previous |)\w*\s*(read|write) of size", st, re.M | re.I):
                continue
            for fr in re.findall(r"^\s+#\d+ .*$", st, re.M):
                if re.search(r"(%s|/registry/src|%s/src)/" % (REPO, HARNESS), fr) and not re.search(r"/src/mem\.rs|__rust_(de|re|)alloc", fr):
                    owners.append(fr)
                    break
        if "data race" in b and (len(owners) < 2 or any(DEP.search(t) for t in owners)):
            notes.append("race report of the thread pool")
        else:
            bad.append(b)
    return bad, notes

def sanitizers(bins, work, violations, cov):
    plan = []
    per = 55 if not THOROUGH else 600
    miri_n = 13 if not THOROUGH else 32
    obs = cov.setdefault("observed", {})
    def miri(i):
        out = os.path.join(work, "miri")
        os.makedirs(out, exist_ok=True)
        # most runs: no aliasing model, so that nothing inside the pool cuts a run short; the others with it
        trees = i % 3 == 2
        flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-seed=%d " % (SEED * 1000 + i)
        flags += "-Zmiri-tree-borrows" if trees else "-Zmiri-disable-stacked-borrows"
        flags += ["", " -Zmiri-preemption-rate=0.1", " -Zmiri-preemption-rate=0"][i % 3]
        env = dict(ENV, MIRIFLAGS=flags, RAYON_NUM_THREADS=str(1 + i % 3), **MIRI_ENV)
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "mir"), "--no-default-features", "--features", "c15,few", "--",
               "C15U", "seed=%d" % SEED, "small=1", "shard=%d" % i, "shards=%d" % miri_n, "cases=100000000", "out=" + out, "seconds=%d" % per]
        return Proc("miri-%d" % i, cmd, env, out, i, per + 45, "miri", cwd=HARNESS, limit=False)
    def compiled(kind, i, n):
        out = os.path.join(work, kind)
        os.makedirs(out, exist_ok=True)
        env = dict(ENV, RAYON_NUM_THREADS=str([4, 2, 8, 3][i % 4]))
        log = os.path.join(out, "san-%d" % i)
        if kind == "tsan":
            env["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=0 history_size=4 log_path=%s" % log
        else:
            env["ASAN_OPTIONS"] = "detect_leaks=0 halt_on_error=1 exitcode=99 log_path=%s" % log
        cmd = [bins[kind], "C15U", "seed=%d" % (SEED + 7), "shard=%d" % i, "shards=%d" % n, "cases=100000000", "out=" + out, "seconds=%d" % (per - 20), "small=%d" % (i % 2)]
        return Proc("%s-%d" % (kind, i), cmd, env, out, i, per + 120, kind, limit=False)
    n = 3 if not THOROUGH else 8
    plan += [lambda i=i: miri(i) for i in range(miri_n)]
    for k in ("tsan", "asan"):
        plan += [lambda k=k, i=i: compiled(k, i, n) for i in range(n)]
    done = run_procs(plan, 10 if not THOROUGH else 9, stop_on_violation=False)
    distinct = set()
    finished = {"miri": 0, "tsan": 0, "asan": 0}
    for p in done:
        text = open(p.log, errors="replace").read()
        for f in glob.glob(os.path.join(p.out, "san-%s.*" % p.shard)):
            text += "\n" + open(f, errors="replace").read()
        name = {"miri": "Miri", "tsan": "ThreadSanitizer", "asan": "AddressSanitizer"}[p.kind]
        if p.kind == "miri":
            bad, notes = judge_miri(text)
        elif p.kind == "tsan":
            bad, notes = judge_tsan(text)
        else:
            m = re.search(r"^=+\d+=+ERROR: AddressSanitizer.*?(?=^=+\d+=+ABORTING|\Z)", text, re.M | re.S)
            bad, notes = ([m.group(0)] if m else []), []
        rc = p.p.returncode
        if not bad and p.verdict is None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP) and p.kind != "miri":
            bad = ["the process died of %s\n%s" % (signal.Signals(-rc).name, text[-2000:])]
        ev = p.evals()
        f = os.path.join(p.out, "done-%s" % p.shard)
        if os.path.exists(f):
            d = json.load(open(f))
            ev = d["evaluations"]
            for k, v in d["stats"].items():
                obs["%s: %s" % (name, k)] = obs.get("%s: %s" % (name, k), 0) + v
            for x in d["samples"][:1]:
                if len(cov["samples"]) < 9:
                    cov["samples"].append(("%s: " % name + x)[:600])
            h = open(os.path.join(p.out, "hash-%s" % p.shard), "rb").read()
            distinct.update((p.kind, x[0]) for x in struct.iter_unpack("<Q", h))
        cov["evaluations"] += ev
        finished[p.kind] += ev
        obs["%s: workloads run" % name] = obs.get("%s: workloads run" % name, 0) + ev
        obs["%s: processes" % name] = obs.get("%s: processes" % name, 0) + 1
        for x in notes:
            k = "%s: not counted: %s" % (name, x)
            obs[k] = obs.get(k, 0) + 1
        seen = set()
        for b in bad:
            key = re.sub(r"0x[0-9a-f]+|<\d+>|alloc\d+|pid=\d+|\d+", "", b)[:400]
            if key in seen:
                continue
            seen.add(key)
            violations.append(dict(build=p.kind, seed=SEED, case=p.case(), prop="C15U", thorough=THOROUGH, cmd=p.cmd,
                                   env={k: v for k, v in dict(RAYON_NUM_THREADS="").items()}, text="%s report:\n%s" % (name, b[:6000])))
    cov["distinct_nontrivial"] += len(distinct)
    for k, v in finished.items():
        if not v:
            raise NoVerdict("nothing ran under " + k) if not violations else NoVerdictLater()

# ------------------------------------------------------------------------------------------ known findings
def known(prop):
    """Open findings: lines "finding: property=<id> match=<regular expression> :: <what fails>"."""
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out

# ------------------------------------------------------------------------------------------ main
def check(prop):
    t0 = time.time()
    work = os.path.join(ROOT, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULE[prop], samples=[])
    violations = []
    try:
        seconds = 110 if not THOROUGH else 2400
        try:
            if prop == "C15":
                bins = build_all(["dev", "miri", "tsan", "asan"], "c15", work)
                native("C15", dict(dev=bins["dev"]), work, (220, 0) if not THOROUGH else (6000, 0), 60 if not THOROUGH else 1200, violations, cov)
                if not violations:
                    sanitizers(bins, work, violations, cov)
            else:
                bins = build_all(["dev", "rel"], prop.lower(), work)
                native(prop, bins, work, P[prop][1 if THOROUGH else 0], seconds, violations, cov)
        except NoVerdictLater:
            pass
        obs = cov.get("observed", {})
        if not violations:
            missing = [k for k in (P[prop][2] if prop in P else []) if not obs.get(k)]
            if missing or not cov["evaluations"]:
                raise NoVerdict("the monitors observed nothing of: %s" % ", ".join(missing or ["cases"]))
        hits, new = {}, []
        for v in violations:
            for rx, what in known(prop):
                if rx.search(v["text"]):
                    hits[what] = True
                    break
            else:
                new.append(v)
        for what in hits:
            say("KNOWN-FINDING: property=%s %s" % (prop, what))
        ev = dict(property=prop, tier=TIER, seed=SEED, level=LEVEL[prop], coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(new),
                  assumptions=["holds for the executions observed; the element arithmetic used as reference, the Rust toolchain and the thread-pool crates are trusted"])
        json.dump(ev, open(ev_path, "w"), indent=1)
        if new:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            v = new[0]
            path = os.path.join(ROOT, "replays", "%s-%s-%s-%s.txt" % (prop, v["build"], v["seed"], v["case"]))
            head = {k: v[k] for k in v if k != "text"}
            open(path, "w").write(json.dumps(head) + "\n" + v["text"] + "\nreplay with: python3 %s %s --replay %s\n" % (os.path.abspath(__file__), prop, path))
            for x in new[:3]:
                say(x["text"][:2500])
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        say("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(prop, path):
    head = json.loads(open(path).readline())
    work = os.path.join(ROOT, "run", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        kind = head["build"]
        if kind in ("dev", "rel"):
            bins = build_all([kind], prop.lower(), work)
            out = os.path.join(work, "out")
            os.makedirs(out)
            env = dict(ENV, RAYON_NUM_THREADS=str(head["workers"]))
            cmd = [bins[kind], head["prop"], "seed=%d" % head["seed"], "out=" + out, "only=%d" % head["case"], "thorough=%d" % head["thorough"]]
            done = run_procs([lambda: Proc("replay", cmd, env, out, 0, 600, kind)], 1)
            say(open(done[0].log, errors="replace").read(), done[0].text)
            bad = done[0].verdict == "violation" or done[0].p.returncode == 1
        else:
            bins = build_all([kind], "c15", work)
            say("sanitizer runs are repeated as a whole: ", " ".join(head["cmd"]))
            violations, cov = [], dict(evaluations=0, distinct_nontrivial=0, samples=[])
            bins = build_all(["dev", "miri", "tsan", "asan"], "c15", work)
            try:
                sanitizers(bins, work, violations, cov)
            except NoVerdictLater:
                pass
            for v in violations:
                say(v["text"])
            bad = bool(violations)
        if bad:
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def setup():
    work = os.path.join(ROOT, "run", "setup-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        build_all(["dev", "miri", "tsan", "asan"], "c15", work)
        build_all(["rel"], "c16", work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            return setup()
        if len(a) == 3 and a[1] == "--replay":
            return replay(a[0], a[2])
        if len(a) == 1 and a[0] in RULE:
            return check(a[0])
        say(__doc__)
        return 2
    except NoVerdict as e:
        say("no verdict: %s" % e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
