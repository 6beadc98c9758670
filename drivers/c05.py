"""C05, command line: the model does not depend on whether predictions are requested, written or measured."""
import os, shutil
from lib.mon import *
from drivers.clilib import *


def main(c):
    c.rule("Command line: the same file trained with every combination of predictions file, metrics, progress period and --quiet; the saved models are compared "
           "byte for byte and the predictions files with each other and with in-process predict-then-learn.")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    cases = gen(c, vm, "gen", 8000 if c.thorough else 1200, 1, 60)
    end = time.time() + (300 if c.thorough else 60)

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/{k}")
        if time.time() > end:
            return c.stat("cases not reached in the time budget")
        if "panic" in meta:
            return c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
        P = lambda x: os.path.join(d, x)
        fmt, exe = r.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"]), r.choice([dbg, rel])
        ms = ["parsed_features"] + {"Scalar": ["mse"], "Probs": ["ips"]}.get(meta["kind"], [])
        model = None
        for p in (False, True):
            for q in (False, True):
                m = r.choice([None, ms, ms[:1], ms[::-1]])
                g = r.choice([None, "*2", "+1", "+3", "7", "*1.5"])
                t = r.choice([0, 1, 4])
                x = train(exe, P("data." + fmt), fmt, config=P("config.json"), preds=P("p") if p else None, out=P("m"), metrics=m, progress=g, quiet=q, threads=t)
                c.ev()
                what = f"predictions {p}, metrics {m}, progress {g}, quiet {q}, threads {t}"
                if x.rc != 0 or x.hang:
                    return c.fail("cli:run-failed", f"{x.end()} {x.err[-500:]!r} {' '.join(x.cmd)}", case=c.keep(f"case-{k}", d))
                got = read(P("m"))
                if model is None:
                    model = got
                    if exe == dbg and got != read(P(f"expect.{fmt}.model")):
                        return c.fail("cli:model", f"the model differs from the one of predict-then-learn calls in process: {what}", case=c.keep(f"case-{k}", d))
                elif got != model:
                    return c.fail("cli:model-depends-on-output", f"{what}: the model differs from the one of the run without predictions", case=c.keep(f"case-{k}", d))
                if p and exe == dbg and read(P("p")) != read(P(f"expect.{fmt}.preds")):
                    return c.fail("cli:predictions", f"{what}: predictions differ from predict calls in process", case=c.keep(f"case-{k}", d))
                os.remove(P("m"))
                c.stat("command-line runs")
                c.seen(k, p, q, m, g)
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, range(len(cases))))
