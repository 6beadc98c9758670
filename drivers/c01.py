"""C01: parallel training equals sequential training and terminates."""
import os, random, shutil, time
from lib.mon import *
from drivers.clilib import *


def observe(d, tag, r):
    p, m = os.path.join(d, f"p-{tag}"), os.path.join(d, f"m-{tag}")
    return {"end": r.end(), "preds": read(p), "model": read(m), "rows": rows(r.out)}


def diff(a, b):
    for k in ("end", "preds", "model", "rows"):
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if k == "preds" and x is not None and y is not None:
                x, y = x.split(b"\n"), y.split(b"\n")
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return k, f"line {i}: {x[i:i + 1]} sequentially, {y[i:i + 1]} here ({len(x)} and {len(y)} lines)"
            return k, f"{str(x)[:300]} sequentially, {str(y)[:300]} here"
    return None


def main(c):
    c.rule("Case: a random stack and a random data file in one of the input formats, trained by the real binary with 0 parse threads (also compared "
           "with in-process training) and then with several thread counts, queue sizes, CPU affinities and injected schedule perturbations (preloaded "
           "library delaying random threads at allocations and futex operations; slow pipes for data and predictions; data, predictions or one thread standing still for seconds). Non-trivial: the parallel run "
           "read at least two examples; distinct by (configuration, data, settings, order of the futex events seen).")
    c.assumptions += ["the sequential run (0 parse threads) is the reference; it is itself compared with predict-then-learn calls of the library"]
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    jit = jitter_lib()
    big = gen(c, vm, "big", 6 if c.thorough else 2, 1500, 4000, seed=c.seed + 7)
    small = gen(c, vm, "small", 500 if c.thorough else 45, 1, 120)
    tiny = gen(c, vm, "tiny", 150 if c.thorough else 15, 1, 3, seed=c.seed + 13)
    # The machine decides nothing, but the time is used: stop adding cases after the budget.
    budget = 700 if c.thorough else 110
    orders = set()
    for k, (d, meta) in enumerate(big + tiny + small):
        if time.time() - c.t0 > budget:
            c.stat("cases not reached in the time budget")
            continue
        if "panic" in meta:
            c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
            continue
        fmt = c.rng.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"])
        exe = c.rng.choice([dbg, dbg, rel])
        metrics = (["ips"] if meta["kind"] == "Probs" else ["mse"] if meta["kind"] == "Scalar" else []) + ["parsed_features"]
        data, cfg = os.path.join(d, "data." + fmt), os.path.join(d, "config.json")
        progress = c.rng.choice(["*2", "+7", "+1" if meta["n"] < 200 else "+100"])
        base = dict(config=cfg, metrics=metrics, progress=progress)
        path = lambda t: dict(preds=os.path.join(d, "p-" + t), out=os.path.join(d, "m-" + t))
        r = train(exe, data, fmt, threads=0, **base, **path("seq"))
        seq = observe(d, "seq", r)
        c.ev()
        if r.rc != 0 or r.hang:
            c.fail("sequential-run-failed", f"{r.end()} {r.err[-600:]!r} {' '.join(r.cmd)}", case=c.keep(f"case-{k}", d))
            continue
        want = read(os.path.join(d, f"expect.{fmt}.preds"))
        if exe == dbg and seq["preds"] != want:
            c.fail("sequential-predictions", str(diff({**seq, "preds": want}, seq)), case=c.keep(f"case-{k}", d))
        if exe == dbg and seq["model"] != read(os.path.join(d, f"expect.{fmt}.model")):
            c.fail("sequential-model", f"the saved model is not the one in-process training gives: {' '.join(r.cmd)}", case=c.keep(f"case-{k}", d))
        for v in range(9 if c.thorough else 6):
            threads = c.rng.choice([1, 1, 2, 2, 3, 4, 8, 16, None])
            queue = c.rng.choice([0, 1, 1, 2, 3, 16, 512])
            env, out, feeders = {}, os.path.join(c.scratch, "jitter.out"), []
            cpus = c.rng.choice([None, None, "0", "0,1"])
            mode = c.rng.choice(["plain", "jitter", "jitter", "jitter", "jitter", "pipes"])
            args = {**base, **path("par")}
            for x in ("p-par", "m-par"):
                if os.path.exists(os.path.join(d, x)):
                    os.remove(os.path.join(d, x))
            dat, reader = data, None
            if mode == "jitter":
                env = {"LD_PRELOAD": jit, "JITTER_SEED": str(c.rng.randrange(1 << 30)), "JITTER_OUT": out,
                       "JITTER_RATE": str(c.rng.choice([30, 100, 400, 2000]) * (20 if meta["n"] > 1000 else 1)),
                       "JITTER_MAX_US": str(c.rng.choice([20, 200, 3000])), "JITTER_VICTIM": str(c.rng.choice([0, 0, 1, 2, 4, 8, 16, 24, 85, 170]))}
                if os.path.exists(out):
                    os.remove(out)
            elif mode == "pipes":
                dat = os.path.join(d, "fifo")
                args["preds"] = os.path.join(d, "fifo-p")
                for f in (dat, args["preds"]):
                    if os.path.exists(f):
                        os.remove(f)
                    os.mkfifo(f)
                w = SlowWriter(dat, read(data), random.Random(c.rng.random()))
                reader = SlowReader(args["preds"], random.Random(c.rng.random()))
                feeders = [w]
                w.start()
                reader.start()
            r = train(exe, dat, fmt, threads=threads, queue=queue, cpus=cpus, env=env, feeders=feeders + ([reader] if reader else []), **args)
            got = observe(d, "par", r)
            if reader:
                reader.stop = True
                reader.join(60)
                got["preds"] = reader.data
            c.ev()
            c.stat(f"runs {mode}")
            c.stat(f"runs with {threads if threads is not None else 'default'} parse threads")
            info = None
            if mode == "jitter" and not r.hang:
                try:
                    info = open(out).read().split()
                    c.stat("injected delays", int(info[1]))
                    c.stat("futex events", int(info[2]) + int(info[3]))
                    orders.add(info[5])
                except (OSError, IndexError):
                    c.stat("runs without a jitter record")
            if meta["n"] >= 2:
                c.seen(d, fmt, threads, queue, mode, cpus, info[5] if info else v)
            what = f"{fmt}, {meta['n']} examples, threads {threads}, queue {queue}, {mode}, cpus {cpus}, env {env}"
            if r.hang:
                c.fail("hang", f"{r.hang}: {what}", case=c.keep(f"case-{k}", d))
                break
            x = diff(seq, got)
            if x:
                c.fail("parallel-" + x[0], f"{x[1]}: {what} stderr {r.err[-400:]!r}", case=c.keep(f"case-{k}", d))
                break
            c.sample(what)
        if len(c.fails) > 12:
            break
        shutil.rmtree(d, ignore_errors=True)
    c.stats["distinct orders of futex events"] = len(orders)
    long(c, dbg)
    patience(c, dbg, vm, jit)
    faults(c, dbg, vm)


class Pausing(Feeder):
    """Writes pieces into a named pipe with a fixed pause before each."""
    def __init__(self, path, pieces):
        super().__init__()
        self.path, self.pieces = path, pieces

    def run(self):
        try:
            with open(self.path, "wb", buffering=0) as f:
                for secs, b in self.pieces:
                    self.pause(secs)
                    self.moved += f.write(b)
        except OSError:
            pass


class Late(Feeder):
    """Reads a named pipe, but not for a while after the first bytes."""
    def __init__(self, path, secs):
        super().__init__()
        self.path, self.secs, self.data = path, secs, b""

    def run(self):
        with open(self.path, "rb", buffering=0) as f:
            self.data = f.read(1)
            self.pause(self.secs)
            while b := f.read(65536):
                self.data += b
                self.moved += len(b)


class Waiting(Feeder):
    """Stands for a sleep inside of the program."""
    def __init__(self, secs):
        super().__init__()
        self.secs, self.pausing = secs, True

    def run(self):
        self.pause(self.secs)


def patience(c, exe, vm, jit):
    """Nothing may give up because another part is slow: the input pauses for seconds (before it begins, between
    examples, within a line, before it ends), the reader of the predictions does, or one thread stops at some point."""
    todo = []
    n = 64 if c.thorough else 26
    for k, (d, meta) in enumerate(gen(c, vm, "patience", n, 30, 200, seed=c.seed + 51)):
        if "panic" in meta:
            continue
        fmt = c.rng.choice(["vw", "json"])
        mode = c.rng.choice(["data", "data", "thread", "thread", "predictions"])
        longest = c.rng.choice([2, 5, 20, 65]) if c.thorough else c.rng.choice([1.3, 2.5, 6, 12])
        threads = c.rng.choice([0, 1, 2, 4, 8])
        if k < 4:
            # Time limits that look generous
            mode, longest, threads = ["data", "thread", "thread", "predictions"][k], 33, c.rng.choice([1, 2, 4])
        todo.append((d, fmt, threads, c.rng.choice([1, 3, 512]), mode, longest, c.rng.random(), k))

    def one(t):
        d, fmt, threads, queue, mode, secs, x, k = t
        rng = random.Random(x)
        data, cfg = os.path.join(d, "data." + fmt), os.path.join(d, "config.json")
        p = lambda s: os.path.join(d, s)
        if mode == "predictions":
            # more than the buffers on the way hold
            text = read(data).rstrip(b"\n") + (b"\n\n" if fmt == "vw" else b"\n")
            data = p("data-long")
            with open(data, "wb") as f:
                f.write(text * (1000000 // len(text) + 1))
        r0 = train(exe, data, fmt, config=cfg, preds=p("p-seq"), out=p("m-seq"), threads=0, quiet_secs=30, watchdog=240)
        seq = {**observe(d, "seq", r0), "rows": None}
        dat, preds, feeders, env, reader = data, p("p-par"), [], {}, None
        if mode == "data":
            dat = p("slow")
            os.mkfifo(dat)
            b = read(data)
            cuts = sorted(rng.sample(range(len(b)), 1 if secs > 20 else 2) + ([] if secs > 20 else [rng.choice([0, len(b)])]))
            pieces, last = [], 0
            for cut in cuts + [len(b)]:
                pieces.append((secs if last else secs * rng.choice([0, 1]), b[last:cut]))
                last = cut
            feeders = [Pausing(dat, pieces)]
        elif mode == "thread":
            out = p("jitter")
            env = {"LD_PRELOAD": jit, "JITTER_OUT": out, "JITTER_STALL": f"{rng.randrange(1, threads + 3)}:{int(2 ** (rng.random() * 12))}:{int(secs * 1e6)}"}
            feeders = [Waiting(secs + 1)]
        else:
            preds = p("slow-p")
            os.mkfifo(preds)
            reader = Late(preds, secs)
            feeders = [reader]
        for f in feeders:
            f.start()
        r = train(exe, dat, fmt, config=cfg, preds=preds, out=p("m-par"), threads=threads, queue=queue, env=env, feeders=feeders, watchdog=180 + 3 * secs)
        got = {**observe(d, "par", r), "rows": None}
        if reader:
            if r.rc != 0 and reader.is_alive():
                return t, r, "end", f"{r.end()} {r.err[-300:]!r}", None
            reader.join(120)
            got["preds"] = reader.data
        stalls = None
        if mode == "thread":
            try:
                stalls = int(open(p("jitter")).read().split()[6])
            except (OSError, IndexError):
                stalls = 0
        x = diff(seq, got)
        return t, r, x and x[0], x and x[1], stalls

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for t, r, what, text, stalls in ex.map(one, todo):
            d, fmt, threads, queue, mode, secs, _, k = t
            c.ev()
            c.stat(f"runs in which {mode} stood still for seconds" if stalls is None else "runs in which a thread stood still for seconds" if stalls else "runs in which no thread reached the point to stand still at")
            c.seen("patience", k, mode, secs)
            desc = f"{fmt}, threads {threads}, queue {queue}, {mode} waits {secs} s"
            if r.hang:
                c.fail("hang", f"{r.hang}: {desc}", case=c.keep(f"patience-{k}", d))
            elif what:
                c.fail("parallel-" + what, f"{text}: {desc} stderr {r.err[-300:]!r}", case=c.keep(f"patience-{k}", d))


def long(c, exe):
    """More examples than fit into 16 bits."""
    d = os.path.join(c.scratch, "long")
    os.makedirs(d)
    p = lambda s: os.path.join(d, s)
    with open(p("config.json"), "w") as f:
        f.write('{"globalConfig": {"numBits": 6}, "entryReduction": {"typename": "Coin"}}')
    for fmt in ("vw", "json"):
        with open(p("data." + fmt), "w") as f:
            for k in range(300000 if c.thorough else 70000):
                y, a, v = c.rng.randrange(-9, 10), c.rng.randrange(40), c.rng.randrange(1, 9) / 4
                f.write(f"{y} |n a{a}:{v}\n\n" if fmt == "vw" else f'{{"label": {{"value": {y}}}, "features": {{"n": {{"a{a}": {v}}}}}}}\n')
        base = dict(config=p("config.json"), metrics=["mse", "parsed_features"], progress="*2", watchdog=300)
        r = train(exe, p("data." + fmt), fmt, threads=0, preds=p("p-seq"), out=p("m-seq"), **base)
        seq = observe(d, "seq", r)
        if r.rc != 0:
            c.fail("sequential-run-failed", f"{r.end()} {r.err[-600:]!r}")
            continue
        for threads, queue in [(c.rng.choice([1, 2, 3]), 512), (c.rng.choice([4, 8]), c.rng.choice([1, 20]))]:
            r = train(exe, p("data." + fmt), fmt, threads=threads, queue=queue, preds=p("p-par"), out=p("m-par"), **base)
            c.ev()
            c.stat("long files")
            c.seen("long", fmt, threads, queue)
            x = r.hang and ("hang", r.hang) or diff(seq, observe(d, "par", r))
            if x:
                c.fail(x[0] if r.hang else "parallel-" + x[0], f"{x[1]}: {fmt}, 70000 or more examples, threads {threads}, queue {queue} stderr {r.err[-300:]!r}")
    shutil.rmtree(d)


def faults(c, exe, vm):
    """Predictions that cannot be stored must not be lost silently: the run has to fail."""
    for (d, meta) in gen(c, vm, "faults", 3, 3, 40, seed=c.seed + 31):
        for threads in (0, 2):
            m = os.path.join(d, "m-full")
            r = train(exe, os.path.join(d, "data.vw"), "vw", config=os.path.join(d, "config.json"), preds="/dev/full", out=m, threads=threads)
            c.ev()
            c.stat("runs with a full device for the predictions")
            if r.hang:
                c.fail("hang", f"predictions to a full device, threads {threads}: {r.hang}")
            elif r.rc == 0:
                c.fail("predictions-lost", f"predictions to a full device, threads {threads}: exit 0 although nothing was written")
