"""C30, whole processes: memory and CPU time of training against the length of the data; reading waits for training."""
import fcntl, json, os, resource, signal, subprocess
from lib.mon import *
from drivers.clilib import *
from drivers.c28 import package, PY

SCALAR = {"typename": "Coin", "config": {}}
CBADF = {"typename": "CbAdf", "config": {"cbType": "mtr", "regressor": {"typename": "Coin", "config": {}}}}


def measured(c, k, cmd, env=None, limit=60):
    """Runs to the end: (exit status or None when the CPU limit ended it, peak KB, CPU seconds, stderr)."""
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    # The peak the kernel reports starts with that of the forking process, hence a small one in between.
    rep = os.path.join(c.scratch, f"time-{k}")
    p = subprocess.Popen(["/usr/bin/time", "-o", rep, "-f", "%x %M %U %S"] + cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         env={**os.environ, **(env or {})}, preexec_fn=lim, start_new_session=True)
    try:
        _, err = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Inconclusive(f"watchdog: {cmd}")
    rc, kb, user, sys_ = open(rep).read().split("\n")[-2].split()
    cpu = float(user) + float(sys_)
    over = cpu > limit - 3
    return (None if over else p.returncode), int(kb), cpu, err


class Data:
    """Examples alike, with names that never come back (or always do)."""
    def __init__(self, r, fmt, cb):
        self.fmt, self.cb, self.actions = fmt, cb, r.randint(2, 5)
        self.new = r.choice([("ns",), ("ns", "f"), ("f",), ("f", "v"), ("v",), ()])
        self.nss, self.fs = r.randint(1, 3), r.randint(2, 5)
        self.text = f"{fmt}, names that never come back: {'/'.join(self.new) or 'none'}, {self.nss} namespaces of {self.fs} features" + (f", {self.actions} actions" if cb else "")

    def part(self, k, w):
        n = lambda what, s: f"{s}{k:08d}" if what in self.new else s
        return [(n("ns", f"n{i}{w}"), [(n("f", f"f{j}"), n("v", "v") if j == 0 else (k * 7 + j) % 10 / 10) for j in range(self.fs)]) for i in range(self.nss)]

    def line(self, k):
        lab = (k % self.actions, (k % 7) / 7, 0.25 + (k % 3) / 4)
        if self.fmt == "vw":
            txt = lambda p: " ".join("|" + n + " " + " ".join(f"{a}={v}" if isinstance(v, str) else f"{a}:{v}" for a, v in f) for n, f in p)
            if not self.cb:
                return f"{k % 5} {txt(self.part(k, ''))}\n"
            return "shared " + txt(self.part(k, "s")) + "\n" + "".join(
                (f"{a}:{lab[1]}:{lab[2]} " if a == lab[0] else "") + txt(self.part(k, "")) + "\n" for a in range(self.actions)) + "\n"
        obj = lambda p: {n: dict(f) for n, f in p}
        if self.fmt == "json":
            if not self.cb:
                return json.dumps({"label": k % 5, "features": obj(self.part(k, ""))}) + "\n"
            return json.dumps({"label": {"action": lab[0], "cost": lab[1], "probability": lab[2]}, "shared": obj(self.part(k, "s")),
                               "actions": [obj(self.part(k, "")) for _ in range(self.actions)]}) + "\n"
        return json.dumps({"_label_cost": lab[1], "_label_probability": lab[2], "_label_Action": lab[0] + 1, "_labelIndex": lab[0], "a": list(range(1, self.actions + 1)),
                           "c": {**obj(self.part(k, "s")), "_multi": [obj(self.part(k, "")) for _ in range(self.actions)]}, "p": [1.0 / self.actions] * self.actions}) + "\n"


def growth(c, k, exes, py):
    r = random.Random(f"{c.seed}/{k}")
    cb = r.random() < 0.5
    python = py is not None and k % 5 == 4
    fmt = r.choice(["vw", "json", "dsjson"] if cb else ["vw", "json"])
    d = Data(r, fmt, cb)
    n = 10000 if c.thorough else 5000
    cfg = os.path.join(c.scratch, f"c{k}.json")
    with open(cfg, "w") as f:
        json.dump({"globalConfig": {"numBits": 10, "interactions": r.choice([[], [["Default", "Default"]]])}, "entryReduction": CBADF if cb else SCALAR}, f)
    threads, queue = r.choice([0, 0, 1, 2, 4, 8]), r.choice([1, 16, 64])
    quiet, preds = r.random() < 0.3, r.random() < 0.4
    exe = r.choice(exes)
    got = []
    for times in (1, 8):
        f = os.path.join(c.scratch, f"d{k}-{times}")
        with open(f, "w") as o:
            o.writelines(d.line(i) for i in range(n * times))
        if python:
            cmd = [PY, os.path.join(VERIF, "drivers", "manyplay.py"), cfg, fmt, f]
            what = f"Python, {d.text}"
            env = {"PYTHONPATH": py, "PYTHONDONTWRITEBYTECODE": "1"}
        else:
            cmd = [exe] + (["--quiet"] if quiet else []) + ["train", "-d", f, "--data-format", FMT[fmt], "-c", cfg, "-o", f + ".model", "--num-parse-threads", str(threads),
                                                           "--queue-size", str(queue)] + (["-p", f + ".p"] if preds else [])
            what = f"{d.text}, threads {threads}, queue {queue}, quiet {quiet}, predictions {preds}"
            env = {}
        x = measured(c, k, cmd, env)
        size = os.path.getsize(f)
        for q in (f, f + ".model", f + ".p"):
            if os.path.exists(q):
                os.remove(q)
        c.ev()
        c.seen(what, times)
        if x[0] is None:
            if times == 1:
                return c.fail("time-grows", f"{what}: {n} examples are not trained on in {x[2]:.0f} s of CPU time")
            return c.fail("time-grows", f"{what}: {n} examples take {got[0][2]:.2f} s of CPU time, {n * 8} more than {x[2]:.0f} s")
        if x[0] != 0:
            return c.fail("run-failed", f"{what}: exit {x[0]} {x[3][-400:]!r}")
        got.append(x + (size,))
    a, b = got
    # All of the data (and more, in memory) or a fixed part of it would have to be kept for this.
    allowed = 1500 + a[1] * 0.1
    c.stat("KB more for eight times the data, sum", b[1] - a[1])
    c.stat("KB of data, sum", b[4] // 1024)
    c.stat("pairs of runs", 1)
    c.sample(f"{what}: {n} examples {a[1]} KB, {a[2]:.2f} s; {8 * n} examples {b[1]} KB, {b[2]:.2f} s; {b[4] // 1024} KB of data")
    if b[1] - a[1] > allowed:
        return c.fail("memory-grows", f"{what}: peak {a[1]} KB for {n} examples, {b[1]} KB for {8 * n} ({b[4] // 1024} KB of data)")
    if b[2] > 24 * a[2] + 3:
        return c.fail("time-grows", f"{what}: {a[2]:.2f} s of CPU time for {n} examples, {b[2]:.2f} s for {8 * n}")


def waiting(c, k, exe):
    """Nobody takes the predictions: how much data does the tool take?"""
    r = random.Random(f"{c.seed}/w{k}")
    d = Data(r, r.choice(["vw", "json", "dsjson"]), True)
    d.actions = 8
    base = os.path.join(c.scratch, f"w{k}")
    cfg, fin, fout = base + ".json", base + ".in", base + ".out"
    with open(cfg, "w") as f:
        json.dump({"globalConfig": {"numBits": 10}, "entryReduction": CBADF}, f)
    os.mkfifo(fin)
    os.mkfifo(fout)
    threads, queue = r.choice([0, 1, 4, 8]), r.choice([1, 8, 32])
    n = 6000
    lines = [d.line(i).encode() for i in range(n)]
    data = b"".join(lines)
    rd = os.open(fout, os.O_RDONLY | os.O_NONBLOCK)
    p = subprocess.Popen([exe, "--quiet", "train", "-d", fin, "--data-format", FMT[d.fmt], "-c", cfg, "-p", fout, "--num-parse-threads", str(threads), "--queue-size", str(queue)],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        wr = None
        t0 = time.time()
        while wr is None:
            try:
                wr = os.open(fin, os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                if time.time() - t0 > 60 or p.poll() is not None:
                    raise Inconclusive("the tool does not open its data")
                time.sleep(0.01)
        sent, still, cpu = 0, time.time(), -1
        while sent < len(data):
            try:
                q = os.write(wr, data[sent:sent + 65536])
                sent += q
                still = time.time()
            except BlockingIOError:
                time.sleep(0.02)
            except BrokenPipeError:
                return c.fail("run-failed", f"{d.text}: the tool ended after {sent} bytes")
            now = mon_threads(p.pid)
            if now != cpu:
                cpu, still = now, time.time()
            if time.time() - still > 2.5:
                break
        taken = sent - pipe_bytes(wr)
        c.ev()
        what = f"{d.text}, threads {threads}, queue {queue}"
        c.seen(what, "waiting")
        # What is in the predictions' pipe, and about it; then queues, threads and the input buffer.
        lines_out = os.read(rd, 1 << 20).count(b"\n")
        bound = int(lines_out * 1.4) + 4 * (queue + 1) + 2 * threads + 4 * 8192 // min(map(len, lines)) + 10
        took = 0
        at = 0
        for l in lines:
            at += len(l)
            if at > taken:
                break
            took += 1
        c.stat("examples taken while nothing was taken from the tool, sum", took)
        c.sample(f"waiting: {what}: {took} of {n} examples ({taken} of {len(data)} bytes) were taken, at most {bound} explained")
        if took > bound:
            c.fail("reading-does-not-wait", f"{what}: {took} of {n} examples were read while the predictions waited to be written, pipes and queues explain {bound}")
    finally:
        p.kill()
        p.wait()
        for fd in (rd, wr):
            if fd is not None:
                os.close(fd)


def mon_threads(pid):
    from lib.mon import _threads
    return _threads(pid)[1]


def pipe_bytes(fd):
    """Bytes still in the pipe."""
    import array, termios
    a = array.array("i", [0])
    fcntl.ioctl(fd, termios.FIONREAD, a)
    return a[0]


def main(c):
    c.rule("Whole processes: the tool (threads 0-8, queue 1-64, with and without predictions) and the Python package train on files of N and of 8N examples alike, with namespace, feature and value "
           "names that never come back, in each format; peak memory and CPU time of the two are compared. And the tool is given data while nobody takes its predictions: it may read ahead "
           "no more than queues, buffers and pipes hold. Distinct by (data, settings).")
    c.assumptions += ["peak memory is what the kernel reports for the process; up to 1.5 MB + 10 % of growth for eight times the data counts as noise of the allocator",
                      "time is CPU time, judged only beyond three times the proportional one"]
    dbg, rel, py = parallel(lambda: cli("dbg"), lambda: cli("rel"), lambda: package("rel"))
    end = time.time() + (300 if c.thorough else 90)

    def one(k):
        if time.time() > end:
            return c.stat("not reached in the time budget")
        if k % 4 == 3:
            waiting(c, k, rel if k % 8 == 3 else dbg)
        else:
            growth(c, k - k // 4, [dbg, rel], py)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, range(240 if c.thorough else 40)))
