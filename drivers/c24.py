"""C24, command line: bad input at any position makes training fail, in bounded time, without an output model."""
import os, shutil
from lib.mon import *
from drivers.clilib import *


def bad_example(r, fmt, cb):
    """(what, bytes) of an example that training must reject."""
    if fmt == "vw":
        if not cb:
            return r.choice([("label is not a number", b"abc |a x:1"), ("missing label", b"|a x:1"), ("missing label", b" | x"), ("weight is not a number", b"1 x2y |a x"),
                             ("namespace value is not a number", b"1 |a:zz x:1"), ("invalid UTF-8", b"1 |a \xff\xfe:1"), ("label is not a number", b"1:2:3 |a x"), ("no namespaces and no label", b"x y z")])
        return r.choice([("cost is not a number", b"0:1.0:zz |a x:1\n|b y"), ("missing label", b"|a x:1\n|b y:2"), ("missing label", b"shared |s z\n|a x\n|b y"), ("label has two parts", b"0:1.0 |a x\n|b y"),
                         ("invalid UTF-8", b"0:1:0.5 |a \xc3\x28\n|b y"), ("probability missing", b"0:1: |a x\n|b y"), ("namespace value is not a number", b"0:1:0.5 |a:x y\n| z")])
    if fmt == "json":
        common = [("not JSON", b"{"), ("not JSON", b"{\"label\":}"), ("not an object", b"[1,2]"), ("a number", b"17"), ("null", b"null"), ("invalid UTF-8", b"{\"label\":{\"value\":1},\"features\":{\"a\":{\"\xff\":1}}}"),
                  ("trailing characters", b"{} {}"), ("no members", b"{}"), ("text", b"not json at all")]
        if not cb:
            return r.choice(common + [("missing label", b'{"features":{"a":{"x":1}}}'), ("label value is text", b'{"label":{"value":"x"},"features":{"a":{"x":1}}}'), ("missing features", b'{"label":{"value":1}}'),
                                      ("cut off", b'{"label":{"value":1},"features":{"a":{"x"')])
        return r.choice(common + [("missing label", b'{"shared":{"s":{"z":1}},"actions":[{"a":{"x":1}}]}'), ("missing actions", b'{"label":{"action":0,"cost":1,"probability":0.5}}'),
                                  ("cost is text", b'{"label":{"action":0,"cost":"1","probability":0.5},"actions":[{"a":{"x":1}}]}'), ("cut off", b'{"label":{"action":0,"cost":1,"prob')])
    return r.choice([("not JSON", b"{"), ("missing label", b'{"c":{"_multi":[{"a":{"x":1}},{"a":{"y":1}}]}}'), ("cost without index", b'{"_label_cost":1,"_label_probability":0.5,"c":{"_multi":[{"a":{"x":1}}]}}'),
                     ("missing context", b'{"_label_cost":1,"_label_probability":0.5,"_labelIndex":0}'), ("not an object", b"3"), ("invalid UTF-8", b'{"_label_cost":1,"_label_probability":0.5,"_labelIndex":0,"c":{"_multi":[{"\xff":{"x":1}}]}}'),
                     ("cut off", b'{"_label_cost":1,"_label_probability":0.5,"_labelIndex":0,"c":{"_multi":[{"a"'), ("cost is text", b'{"_label_cost":"z","_label_probability":0.5,"_labelIndex":0,"c":{"_multi":[{"a":{"x":1}}]}}')])


def main(c):
    c.rule("Command line: one bad example (or bytes that are not text) at a random position of a valid file, with random thread counts, queue sizes, affinities, schedule perturbation and slow pipes; "
           "bad configurations, models, options, missing and unreadable files. Judged: exit status is a failure without a panic, no output model appears, a model that was there stays, "
           "the run ends, predictions of the examples before the bad one are those of the valid run. Distinct by (kind of badness, position, threads, queue).")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    jit = jitter_lib()
    cases = gen(c, vm, "gen", 3000 if c.thorough else 400, 1, 50) + gen(c, vm, "long", 20 if c.thorough else 4, 700, 1500, seed=c.seed + 3)
    end = time.time() + (330 if c.thorough else 75)

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/{k}")
        if time.time() > end:
            return c.stat("cases not reached in the time budget")
        if "panic" in meta:
            return c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
        say = lambda sig, m: c.fail("cli:" + sig, m, case=c.keep(f"case-{k}", d))
        P = lambda x: os.path.join(d, x)
        n = meta["n"]

        def judge(x, what, preds_before=None, fmt=None, exe=None, kept=None):
            c.ev()
            if x.hang:
                say("hang", f"{what}: {x.hang}")
            elif x.rc < 0:
                say("crash", f"{what}: {x.end()} {x.err[-400:]!r}")
            elif x.panicked():
                say("panic", f"{what}: {x.end()} {x.err[-600:]!r}")
            elif x.rc == 0:
                say("accepted", f"{what}: exit 0")
            elif kept is None and os.path.exists(P("m-bad")):
                say("half-made-model", f"{what}: exit {x.rc} but an output model was written")
            elif kept is not None and read(P("m-bad")) != kept:
                say("model-overwritten", f"{what}: exit {x.rc} but the model that was there changed")
            elif preds_before is not None:
                got = (read(P("p-bad")) or b"")
                want = b"".join(read(P(f"expect.{fmt}.preds")).splitlines(True)[:preds_before])
                if got != want and exe == dbg or len(got.splitlines()) != preds_before:
                    say("earlier-examples", f"{what}: {len(got.splitlines())} predictions, {preds_before} examples precede the bad one; {got[-200:]!r} instead of {want[-200:]!r}")
            for f in ("m-bad", "p-bad"):
                if os.path.exists(P(f)):
                    os.remove(P(f))

        for v in range(6):
            fmt, exe = r.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"]), r.choice([dbg, rel])
            texts = [t.encode() for t in meta[fmt]]
            pos = r.choice([0, n, r.randrange(n + 1), r.randrange(n + 1), max(0, n - 1)])
            what, b = bad_example(r, fmt, meta["cb"])
            more = r.random() < 0.3
            seq = texts[:pos] + [b] + ([bad_example(r, fmt, meta["cb"])[1]] if more else []) + texts[pos:]
            data = (b"\n\n" if meta["cb"] and fmt == "vw" else b"\n").join(seq) + (b"\n" if r.random() < 0.8 else b"")
            with open(P("bad"), "wb") as f:
                f.write(data)
            threads, queue = r.choice([0, 0, 1, 2, 3, 8, 16]), r.choice([0, 1, 2, 16, 512])
            kept = b"an older model" if r.random() < 0.3 else None
            if kept:
                with open(P("m-bad"), "wb") as f:
                    f.write(kept)
            src, feeders, env, mode = P("bad"), [], {}, r.choice(["plain", "plain", "jitter", "pipe"])
            if mode == "jitter":
                env = {"LD_PRELOAD": jit, "JITTER_SEED": str(r.randrange(1 << 30)), "JITTER_RATE": str(r.choice([30, 400, 4000])), "JITTER_MAX_US": str(r.choice([20, 200, 3000])), "JITTER_VICTIM": str(r.choice([0, 1, 2, 85, 170]))}
            elif mode == "pipe":
                src = P(f"fifo{v}")
                os.mkfifo(src)
                feeders = [SlowWriter(src, data, random.Random(r.random()))]
                feeders[0].start()
            with_p = r.random() < 0.7
            x = train(exe, src, fmt, config=P("config.json"), preds=P("p-bad") if with_p else None, out=P("m-bad"), threads=threads, queue=queue, quiet=r.random() < 0.5, env=env, feeders=feeders,
                      cpus=r.choice([None, None, None, "0"]))
            c.stat(f"bad examples: {fmt}, {what}")
            c.seen(fmt, what, pos, n, threads, queue, mode)
            nf = len(c.fails)
            judge(x, f"{fmt}, {what} ({b[:60]!r}) as example {pos} of {n}, threads {threads}, queue {queue}, {mode}", pos if with_p else None, fmt, exe, kept)
            if len(c.fails) > nf:
                return
        # Everything else that can be wrong.
        fmt, exe = r.choice(["vw", "json"]), r.choice([dbg, rel])
        data, cfg, threads = P("data." + fmt), P("config.json"), r.choice([0, 2, 8])
        good = read(cfg)
        model = read(P(f"expect.{fmt}.model"))
        which = r.choice(["truncated config", "unknown setting", "no such config", "no such data", "data is a directory", "truncated model", "foreign model", "random model", "wrong format", "no such model",
                          "predictions to a missing directory", "binary data", "config is a directory", "unknown reduction", "empty config", "model to a missing directory"])
        kw = dict(config=cfg, preds=P("p-bad"), out=P("m-bad"), threads=threads)
        bad = P("thing")
        if which in ("truncated config", "unknown setting", "unknown reduction", "empty config"):
            j = json.loads(good)
            if which == "unknown setting":
                j["globalConfig"]["nope"] = 1
            if which == "unknown reduction":
                j["entryReduction"]["typename"] = "Nope"
            b = json.dumps(j).encode()
            b = b[:r.randrange(len(b))] if which == "truncated config" else b"" if which == "empty config" else b
            with open(bad, "wb") as f:
                f.write(b)
            kw["config"] = bad
        elif which in ("no such config", "config is a directory"):
            kw["config"] = P("missing") if which == "no such config" else d
        elif which in ("no such data", "data is a directory"):
            data = P("missing") if which == "no such data" else d
        elif which in ("truncated model", "foreign model", "random model", "no such model"):
            b = {"truncated model": model[:r.randrange(len(model))], "foreign model": r.choice([good, read(data), b"\x7fELF" + bytes(100), b"{}"]), "random model": r.randbytes(r.randrange(200)), "no such model": b""}[which]
            if which != "no such model":
                with open(bad, "wb") as f:
                    f.write(b)
            kw.pop("config")
            kw["model"] = bad if which != "no such model" else P("missing")
        elif which == "wrong format":
            other = "json" if fmt == "vw" else "vw"
            data = P("data." + other)
        elif which == "binary data":
            with open(bad, "wb") as f:
                f.write(bytes(range(128, 256)) * r.choice([1, 1000]) + b"\n")
            data = bad
        elif which == "predictions to a missing directory":
            kw["preds"] = P("no/such/p")
        elif which == "model to a missing directory":
            kw["out"] = P("no/such/m")
        x = train(exe, data, fmt, **kw)
        c.stat(f"bad runs: {which}")
        c.seen(which, k)
        judge(x, f"{which}: {' '.join(x.cmd)}")
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, range(len(cases))))
