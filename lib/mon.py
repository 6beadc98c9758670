"""Shared parts of the checks: building from /repo's working tree, running, findings, verdict and evidence."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, time, glob
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
CORES = os.cpu_count() or 4


class Inconclusive(Exception):
    """The check could not decide (build failure, watchdog, missing tool): exit code 2."""


# ------------------------------------------------------------------ building
def _sources():
    out = []
    for top in ("reductionml-core", "reductionml-cli", "reductionml-python", "utils", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in ("target", "__pycache__", "node_modules")]
            out += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".py", ".pyi"))]
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _cargo(name, args, env=None, cwd=REPO, timeout=800, fresh=True):
    """cargo with its own target directory. Content, not time stamps, decides whether our crates are rebuilt."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "tree.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now and fresh:
        for d, ds, _ in os.walk(target):
            if d.endswith("incremental") or d.endswith("/deps"):
                ds[:] = []
            elif os.path.basename(d) == ".fingerprint":
                for x in list(ds):
                    if x.startswith(("reductionml", "vmon", "reml")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
            elif d.count(os.sep) - target.count(os.sep) > 3:
                ds[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    log = os.path.join(target, "build.log")
    with open(log, "wb") as f:
        p = subprocess.Popen(["cargo"] + args + ["--offline", "--target-dir", target], cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise Inconclusive(f"building {name} took more than {timeout} s")
    if rc != 0:
        raise Inconclusive(f"building {name} failed:\n" + open(log, errors="replace").read()[-3000:])
    with open(stamp, "w") as f:
        f.write(now)
    return target


HARNESS = os.path.join(VERIF, "harness")
NODEBUG = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}
CLI_ENV = {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_INCREMENTAL": "false"}


def vmon(profile="dbg"):
    if profile == "dbg":
        return os.path.join(_cargo("dbg", ["build"], cwd=HARNESS), "debug", "vmon")
    return os.path.join(_cargo("rel", ["build", "--profile", "nodebug"], cwd=HARNESS), "nodebug", "vmon")


def cli(profile="dbg"):
    env = dict(CLI_ENV)
    if profile != "dbg":
        env.update(NODEBUG)
    t = _cargo("cli-" + profile, ["build", "-p", "reductionml-cli"], env=env)
    return os.path.join(t, "debug", "reml")


def parallel(*fs):
    """Run the builders side by side, results in order."""
    with ThreadPoolExecutor(len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
        return [r.result() for r in rs]


def jitter_lib(syscall_only=False):
    """The schedule perturbation library (drivers/jitter.c)."""
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "jitter-sys.so" if syscall_only else "jitter.so")
    src = os.path.join(VERIF, "drivers", "jitter.c")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl", "-lpthread"] + (["-DSYSCALL_ONLY"] if syscall_only else []), capture_output=True, text=True)
    if p.returncode:
        raise Inconclusive("jitter.c: " + p.stderr)
    return so


NIGHTLY_TARGET = "x86_64-unknown-linux-gnu"


def tsan():
    """(vmon, reml) built with ThreadSanitizer, the standard library included."""
    env = {**CLI_ENV, "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUSTFLAGS": "-Zsanitizer=thread"}
    a = ["+nightly", "build", "-Zbuild-std", "--target", NIGHTLY_TARGET]
    t = _cargo("tsan", a, env=env, cwd=HARNESS)
    _cargo("tsan", a + ["-p", "reductionml-cli"], env=env, fresh=False)
    d = os.path.join(t, NIGHTLY_TARGET, "debug")
    return os.path.join(d, "vmon"), os.path.join(d, "reml")


def asan():
    env = {**CLI_ENV, "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUSTFLAGS": "-Zsanitizer=address"}
    t = _cargo("asan", ["+nightly", "build", "--target", NIGHTLY_TARGET], env=env, cwd=HARNESS)
    return os.path.join(t, NIGHTLY_TARGET, "debug", "vmon")


class Miri:
    """cargo miri run for the harness or the command-line tool. Two dependencies hand references to the variadic syscall
    function, which Miri rejects before anything of interest happens; they are replaced by copies with the casts."""
    EDITS = {"parking_lot_core-0.9.10": ("src/thread_parker/linux.rs", [("                &self.futex,", "                (&self.futex as *const AtomicI32) as *mut u32,"),
                                         ("            self.futex,\n", "            self.futex as *mut u32,\n"), ("                1,\n", "                1u32,\n"), ("            1,\n", "            1u32,\n")]),
             "atomic-wait-1.1.0": ("src/linux.rs", [("            a,\n", "            (a as *const AtomicU32) as *mut u32,\n"), ("            ptr,\n", "            ptr as *mut u32,\n"),
                                   ("1i32,", "1u32,"), ("i32::MAX,", "i32::MAX as u32,")])}

    def __init__(self, what):
        self.what, self.dir = what, os.path.join(BUILD, "miri-" + what)
        self.cwd = HARNESS if what == "vmon" else REPO
        self.flags = []
        os.makedirs(self.dir, exist_ok=True)
        for name, (file, edits) in self.EDITS.items():
            src = glob.glob(os.path.expanduser(f"~/.cargo/registry/src/*/{name}"))
            if not src or (what == "vmon" and name.startswith("atomic-wait")):
                continue
            to = os.path.join(self.dir, name)
            shutil.rmtree(to, ignore_errors=True)
            shutil.copytree(src[0], to)
            p = os.path.join(to, file)
            s = open(p).read()
            for a, b in edits:
                s = s.replace(a, b)
            with open(p, "w") as f:
                f.write(s)
            self.flags += ["--config", f'patch.crates-io.{name.rsplit("-", 1)[0]}.path="{to}"']
        lock = os.path.join(self.dir, "Cargo.lock")
        shutil.copy(os.path.join(self.cwd, "Cargo.lock"), lock)
        self.flags += ["--config", f'resolver.lockfile-path="{lock}"']
        if what == "cli":
            self.flags += ["-p", "reductionml-cli"]
        self.env = {"XDG_CACHE_HOME": os.path.join(BUILD, "cache"), "CARGO_TARGET_DIR": os.path.join(self.dir, "target"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}

    def build(self):
        """Builds by running the program with arguments that do nothing."""
        stamp = os.path.join(self.dir, "tree")
        now = tree_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            shutil.rmtree(os.path.join(self.dir, "target"), ignore_errors=True)
        e = {**os.environ, **self.env, "MIRIFLAGS": "-Zmiri-disable-isolation"}
        e.pop("RUSTFLAGS", None)
        p = subprocess.run(self.cmd(["list"] if self.what == "vmon" else ["--version"]), cwd=self.cwd, env=e, capture_output=True, text=True, timeout=800)
        if p.returncode:
            raise Inconclusive(f"miri {self.what}: " + p.stderr[-1500:])
        with open(stamp, "w") as f:
            f.write(now)
        return self

    def cmd(self, args):
        return ["cargo", "+nightly", "miri", "run", "--offline", *self.flags, "--", *args]

    def run(self, args, flags="", limit=200):
        """None when the time is over, else the finished process."""
        e = {**os.environ, **self.env, "MIRIFLAGS": "-Zmiri-disable-isolation " + flags}
        e.pop("RUSTFLAGS", None)
        p = subprocess.Popen(self.cmd(args), cwd=self.cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None
        return Ran(p.returncode, out, err, None, 0)


# ------------------------------------------------------------------ running
def _threads(pid):
    states, cpu = [], 0
    for t in glob.glob(f"/proc/{pid}/task/*/stat"):
        try:
            s = open(t).read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        states.append(s[0])
        cpu += int(s[11]) + int(s[12])
    return states, cpu


class Ran:
    def __init__(self, rc, out, err, hang, secs):
        self.rc, self.out, self.err, self.hang, self.secs = rc, out, err, hang, secs

    def end(self):
        if self.hang:
            return "hang"
        return f"exit {self.rc}" if self.rc >= 0 else f"signal {signal.Signals(-self.rc).name}"

    def panicked(self):
        return b"panicked at" in self.err or self.rc == 101


def run(cmd, env=None, cwd=None, stdin=None, quiet_secs=12, watchdog=240, cpu_limit=120, feeders=(), mem=8 << 30):
    """Run a program. A hang is a state, not a deadline: every thread asleep and no CPU used during `quiet_secs` of
    samples while none of our feeder threads moves a byte or makes a planned pause, or `cpu_limit` CPU seconds used on inputs
    that need milliseconds. The wall-clock watchdog decides nothing (inconclusive)."""
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()

    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    import tempfile
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdin=stdin or subprocess.DEVNULL, stdout=fo, stderr=fe, env=e, cwd=cwd, preexec_fn=lim)
        hang = None
        last_cpu, since, samples = -1, time.time(), 0
        pause = 0.002
        while True:
            try:
                p.wait(pause)
                break
            except subprocess.TimeoutExpired:
                pass
            pause = min(pause * 1.5, 0.3)
            states, cpu = _threads(p.pid)
            busy = any(f.pausing for f in feeders)
            cpu, used = (cpu, sum(f.moved for f in feeders)), cpu
            if cpu != last_cpu or busy or not states or any(s not in "S" for s in states):
                last_cpu, since, samples = cpu, time.time(), 0
            else:
                samples += 1
            if time.time() - since > quiet_secs and samples > 20:
                hang = f"all {len(states)} threads asleep, no CPU used for {quiet_secs} s"
            elif used / 100.0 > cpu_limit:
                hang = f"still running after {used / 100.0:.0f} s of CPU time"
            if hang:
                p.kill()
                p.wait()
                break
            if time.time() - t0 > watchdog:
                p.kill()
                p.wait()
                raise Inconclusive(f"watchdog: {' '.join(map(str, cmd))} still running after {watchdog} s")
        fo.seek(0)
        fe.seek(0)
        return Ran(p.returncode, fo.read(), fe.read(), hang, time.time() - t0)


# ------------------------------------------------------------------ verdict and evidence
def known_findings():
    """finding: property=<id> sig=<JSON string> | <what fails>   and   fixed: property=<id> <commit> <what failed>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("finding: "):
            head, what = line[len("finding: "):].rstrip("\n").split(" | ", 1)
            prop, sig = head.split(" sig=", 1)
            out[(prop.strip()[len("property="):], json.loads(sig))] = what
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(f"{seed}/{pid}")
        self.fails, self.evals, self.distinct, self.extra_distinct = [], 0, set(), 0
        self.stats, self.samples, self.rules, self.assumptions = Counter(), [], [], []
        self.parts = []
        self.scratch = os.path.join(BUILD, f"scratch-{pid}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def fail(self, sig, msg, **replay):
        self.fails.append({"sig": sig, "msg": str(msg)[:6000], **replay})
        if sum(f["sig"] == sig for f in self.fails) <= 3:
            self.log("FAIL", sig, str(msg)[:400])

    def ev(self, n=1):
        self.evals += n

    def seen(self, *key):
        self.distinct.add(hashlib.sha256(repr(key).encode()).digest()[:8])

    def stat(self, k, n=1):
        self.stats[k] += n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def rule(self, s):
        self.rules.append(s)

    def keep(self, name, path):
        """Copy an input file to replays/ so that the violation can be reproduced."""
        d = os.path.join(REPLAYS, self.pid)
        os.makedirs(d, exist_ok=True)
        to = os.path.join(d, name)
        if os.path.isdir(path):
            shutil.copytree(path, to, dirs_exist_ok=True, ignore=lambda d, names: [n for n in names if not os.path.isdir(os.path.join(d, n)) and not os.path.isfile(os.path.join(d, n))])
        else:
            shutil.copy(path, to)
        return to

    def finish(self, level="exploration"):
        known = known_findings()
        hit, new = {}, []
        for f in self.fails:
            if (self.pid, f["sig"]) in known:
                hit[f["sig"]] = f
            else:
                new.append(f)
        for sig in hit:
            print(f"KNOWN-FINDING: property={self.pid} {known[(self.pid, sig)]}")
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct) + self.extra_distinct,
            "rule": " ".join(self.rules),
            "samples": self.samples[:8],
            "observed": dict(sorted(self.stats.items())),
            "parts": self.parts,
            "known_findings_observed": sorted(hit),
            "exhaustive": False,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            p = os.path.join(REPLAYS, f"{self.pid}-seed{self.seed}-{self.tier}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "tree": tree_hash(), "violations": new[:40]}, f, indent=1)
            for s in sorted({f["sig"] for f in new})[:8]:
                print(f"  {s}: {next(f['msg'] for f in new if f['sig'] == s)[:500]}")
            print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        if self.evals == 0 or not (self.distinct or self.extra_distinct):
            print(f"{self.pid}: nothing was observed", file=sys.stderr)
            return 2
        print(f"{self.pid}: held on {self.evals} evaluations ({cov['distinct_nontrivial']} distinct), {ev['wall_s']} s, seed {self.seed}, {self.tier}")
        return 0


# ------------------------------------------------------------------ the in-process part
def vmon_part(c, rule, secs=None):
    bins = parallel(lambda: vmon("dbg"), lambda: vmon("rel"))
    c.rule(rule)
    for prof, exe in zip(("dbg", "rel"), bins):
        seed = c.seed if prof == "dbg" else (c.seed * 2654435761 + 97) % (1 << 31)
        out = os.path.join(c.scratch, f"vmon-{prof}.json")
        err = os.path.join(c.scratch, f"vmon-{prof}.err")
        cmd = [exe, c.pid, "--seed", str(seed), "--tier", c.tier, "--out", out]
        if secs:
            cmd += ["--secs", str(secs)]
        with open(err, "wb") as fe:
            def lim():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=fe, preexec_fn=lim)
            try:
                rc = p.wait(420 if c.tier == "thorough" else 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Inconclusive(f"vmon {c.pid} ({prof}) did not finish in time")
        tail = open(err, errors="replace").read()[-2500:]
        if rc < 0:
            sig = signal.Signals(-rc).name
            if sig in ("SIGKILL", "SIGTERM"):
                raise Inconclusive(f"vmon {c.pid} was ended by {sig}")
            import re
            big = re.search(r"memory allocation of (\d+) bytes failed", tail)
            if big and int(big.group(1)) < 8 << 30:
                raise Inconclusive(f"vmon {c.pid} ran out of memory: {tail[-300:]}")
            c.fail(f"crash:{sig}", f"the process running the library died: {tail}", replay=" ".join(cmd))
            continue
        if rc != 0 or not os.path.exists(out):
            raise Inconclusive(f"vmon {c.pid} ({prof}) ended with {rc}: {tail}")
        d = json.load(open(out))
        for f in d["fails"]:
            c.fail(f["sig"], f["msg"], replay=f"{exe} {c.pid} --seed {seed} --tier {c.tier} --case {f['case']}", profile=prof)
        c.ev(d["evaluations"])
        c.extra_distinct += d["distinct"]
        for s in d["samples"][:3]:
            c.sample(str(s)[:1200])
        for k, v in d["stats"].items():
            c.stat(k, v)
        c.parts.append({"part": "in-process monitor", "profile": "debug assertions on" if prof == "dbg" else "as released", "seed": seed,
                        "cases": d["cases"], "planned": d["planned"], "evaluations": d["evaluations"], "distinct": d["distinct"], "seconds": round(d["seconds"], 2)})


def gen(c, exe, name, count, lo=1, hi=60, kind=None, seed=None):
    """Generated cases: list of (directory, meta)."""
    d = os.path.join(c.scratch, name)
    cmd = [exe, "gen", "--seed", str(c.seed if seed is None else seed), "--count", str(count), "--dir", d, "--min", str(lo), "--max", str(hi)]
    if kind:
        cmd += ["--kind", kind]
    r = run(cmd)
    if r.rc != 0:
        raise Inconclusive(f"vmon gen: {r.end()} {r.err[-800:]!r}")
    out = []
    for n in range(count):
        p = os.path.join(d, f"case{n}")
        m = json.load(open(os.path.join(p, "meta.json")))
        out.append((p, m))
    return out
