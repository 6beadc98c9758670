"""C22: training in stages through saved files equals training in one go."""
import os, shutil
from lib.mon import *
from drivers.clilib import *


def joined(meta, fmt, a, b):
    sep = "\n\n" if meta["cb"] and fmt == "vw" else "\n"
    return (sep.join(meta[fmt][a:b]) + "\n").encode()


def main(c):
    c.rule("Case: a random stack and data file in one format, trained once by the real binary and again in 2 to 5 stages cut at random example boundaries, "
           "each stage in its own process starting from the file the previous one saved: the binary model, the model after export-model and import-model, "
           "or a mix of formats per stage, with random thread counts. Judged: predictions (concatenated) and the final model byte for byte, against the "
           "single run and against in-process training; the same run repeated in a fresh process. Non-trivial: both sides of a cut have examples. "
           "Distinct by (configuration, cuts, way of each stage).")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    cases = gen(c, vm, "gen", 5000 if c.thorough else 600, 2, 80)
    cases += gen(c, vm, "long", 60 if c.thorough else 8, 400, 1200, seed=c.seed + 5)
    budget = 700 if c.thorough else 130

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/{k}")
        if time.time() - c.t0 > budget:
            return c.stat("cases not reached in the time budget")
        if "panic" in meta:
            return c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
        fmts = ["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"]
        fmt, exe, n = r.choice(fmts), r.choice([dbg, rel]), meta["n"]
        cfg = os.path.join(d, "config.json")
        P = lambda x: os.path.join(d, x)
        say = lambda sig, m: c.fail(sig, m, case=c.keep(f"case-{k}", d))
        base = train(exe, P("data." + fmt), fmt, config=cfg, preds=P("p"), out=P("m"), threads=r.choice([0, 1, 4]))
        c.ev()
        if base.rc != 0 or base.hang:
            return say("run-failed", f"{base.end()} {base.err[-500:]!r} {' '.join(base.cmd)}")
        want_p, want_m = read(P("p")), read(P("m"))
        again = train(exe, P("data." + fmt), fmt, config=cfg, preds=P("p2"), out=P("m2"), threads=r.choice([0, 1, 4]))
        c.ev()
        c.stat("repeated runs")
        if again.end() != base.end() or read(P("p2")) != want_p or read(P("m2")) != want_m:
            return say("rerun-differs", f"the same training in a fresh process: predictions equal {read(P('p2')) == want_p}, model equal {read(P('m2')) == want_m}, {again.end()}")
        if exe == dbg and want_p != read(P(f"expect.{fmt}.preds")):
            return say("not-like-in-process", "predictions of the command-line run differ from predict-then-learn calls in process")
        if exe == dbg and want_m != read(P(f"expect.{fmt}.model")):
            return say("not-like-in-process", "the model of the command-line run differs from predict-then-learn calls in process")
        for v in range(3):
            cuts = sorted({r.randrange(0, n + 1) for _ in range(r.randrange(1, 5))} | ({1} if r.random() < 0.2 else set()) | ({n - 1} if r.random() < 0.2 else set()))
            mixed = r.random() < 0.25
            preds, src, way = b"", None, []
            for s, (a, b) in enumerate(zip([0] + cuts, cuts + [n])):
                f = r.choice(fmts) if mixed else fmt
                with open(P("stage"), "wb") as fh:
                    fh.write(joined(meta, f, a, b) if b > a else b"")
                args = dict(config=cfg) if src is None else dict(model=src)
                to = P(f"m-{v}-{s}")
                # A stage may overwrite the model it started from, as in a nightly job.
                if src is not None and r.random() < 0.3 and src.endswith(f"m-{v}-{s - 1}"):
                    to = src
                with_p = r.random() < 0.9
                x = train(exe, P("stage"), f, preds=P("sp") if with_p else None, out=to, threads=r.choice([0, 0, 1, 2, 8]), quiet=r.random() < 0.5, **args)
                c.ev()
                if x.rc != 0 or x.hang:
                    return say("stage-failed", f"stage {s} (examples {a} to {b} of {n}): {x.end()} {x.err[-500:]!r} {' '.join(x.cmd)}")
                if with_p:
                    got = read(P("sp"))
                    if got != b"".join(want_p.splitlines(True)[a:b]):
                        return say("stage-predictions", f"stage {s} (examples {a} to {b} of {n}, cuts {cuts}, {way}): {got[:300]!r} instead of {b''.join(want_p.splitlines(True)[a:b])[:300]!r}")
                src = to
                way.append(f)
                if s < len(cuts) and r.random() < 0.4:
                    e1 = export_model(exe, src, P("x.json"))
                    e2 = import_model(exe, P("x.json"), P(f"x-{v}-{s}"))
                    c.ev(2)
                    if e1.rc != 0 or e2.rc != 0:
                        return say("export-import-failed", f"after {b} examples: {e1.end()} {e1.err[-300:]!r} {e2.end()} {e2.err[-300:]!r}")
                    src = P(f"x-{v}-{s}")
                    way.append("json model")
                    c.stat("models exported and imported between stages")
            c.stat("stages", len(cuts) + 1)
            got = read(src)
            if got != want_m:
                return say("staged-model", f"cuts {cuts}, {way}: final model differs from the one-go model ({len(got or b'')} and {len(want_m)} bytes)")
            if any(0 < x < n for x in cuts):
                c.seen(k, cuts, way)
            c.sample(f"case {k}: {meta['kind']}, {n} examples, cuts {cuts}, {way}, model of {len(want_m)} bytes equal")
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(len(cases))))
