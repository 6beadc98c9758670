"""C21, command line: every progress row against the definitions, recomputed from the labels and the predictions file."""
import os, shutil
from lib.mon import *
from drivers.clilib import *

TITLE = {"mse": "MeanSquaredError", "ips": "Estimated reward (IPS)", "parsed_features": "Parsed features", "example": "Example #"}


def main(c):
    c.rule("Command line: training with metrics and several progress periods, with and without a predictions file, in order and with parse threads; every row of the progress table "
           "is recomputed from the generated labels, feature counts and the predictions file. Non-trivial rows: at least one example. Distinct by (configuration, period, row).")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    cases = gen(c, vm, "gen", 3000 if c.thorough else 350, 1, 90) + gen(c, vm, "long", 30 if c.thorough else 5, 500, 1500, seed=c.seed + 3)
    end = time.time() + (300 if c.thorough else 70)

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/{k}")
        if time.time() > end:
            return c.stat("cases not reached in the time budget")
        if "panic" in meta:
            return c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
        say = lambda sig, m: c.fail("cli:" + sig, m, case=c.keep(f"case-{k}", d))
        P = lambda x: os.path.join(d, x)
        fmt, exe, n = r.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"]), r.choice([dbg, rel]), meta["n"]
        main_metric = {"Scalar": "mse", "Probs": "ips"}.get(meta["kind"])
        x = train(exe, P("data." + fmt), fmt, config=P("config.json"), preds=P("p"), threads=0)
        c.ev()
        if x.rc != 0 or x.hang:
            return say("run-failed", f"{x.end()} {x.err[-400:]!r}")
        preds = [json.loads(l) for l in read(P("p")).splitlines()]
        if len(preds) != n:
            return say("predictions-count", f"{len(preds)} predictions for {n} examples")
        # Definitions, in f64.
        tot, mag, cum = 0.0, 0.0, []
        for y, p in zip(meta["labels"], preds):
            if main_metric == "mse":
                q = p["prediction"] if isinstance(p, dict) else p
                v = (y[0] - q) ** 2
            elif main_metric == "ips":
                prob = next(b for a, b in (p if isinstance(p, list) else p["value"]) if a == y[0])
                v = -y[1] * prob / y[2]
            else:
                v = 0.0
            tot += v
            mag += abs(v)
            cum.append((tot, mag))
        feats = [0]
        for q in meta["counts"]:
            feats.append(feats[-1] + q)
        for v in range(4):
            ms = [m for m in (main_metric, "parsed_features") if m]
            if r.random() < 0.3:
                r.shuffle(ms)
            if r.random() < 0.15:
                ms = ms[:1]
            period = r.choice([None, "*2", "+1", "+1" if n < 200 else "+50", "+7", "*1.5", "*10", "1000", "+3"])
            with_p = r.random() < 0.5
            threads = r.choice([0, 0, 1, 3, 8])
            x = train(exe, P("data." + fmt), fmt, config=P("config.json"), metrics=ms, progress=period, preds=P("p2") if with_p else None, threads=threads)
            c.ev()
            what = f"metrics {ms}, progress {period}, predictions file {with_p}, threads {threads}, {n} examples"
            if x.rc != 0 or x.hang:
                return say("run-failed", f"{what}: {x.end()} {x.err[-400:]!r}")
            if with_p and read(P("p2")) != read(P("p")):
                return say("predictions-depend-on-metrics", what)
            titles, rs = rows(x.out)
            if not rs:
                return say("no-rows", f"{what}: {x.out[-300:]!r}")
            if len(titles) != len(ms) + 1 or any(len(q) != len(titles) for q in rs):
                return say("columns", f"{what}: titles {titles}, rows {rs[:3]}")
            last = -1
            for i, row in enumerate(rs):
                at = int(row[0])
                final = i == len(rs) - 1
                if not (last < at < n or final and at == n - 1):
                    return say("example-counter", f"{what}: row {row} after row {last}")
                if final and at != n - 1:
                    return say("final-row", f"{what}: last row {row}, {n} examples")
                last = at
                for m, cell in zip(ms, row[1:]):
                    if m == "parsed_features":
                        if int(float(cell)) != feats[at + 1]:
                            return say("parsed-features", f"{what}: row {row}: {feats[at + 1]} features were parsed until then")
                        continue
                    t, g = cum[at]
                    want, tol = t / (at + 1), 4e-6 * g / (at + 1) + 1e-9
                    c.stat(f"{m} values compared")
                    if not abs(float(cell) - want) <= tol and g < 1e30:
                        return say(m, f"{what}: row {row}: the definition gives {want}")
                c.seen(k, period, at)
            c.stat("progress rows", len(rs))
        # Unknown metrics and ones given twice.
        if r.random() < 0.2:
            x = train(exe, P("data." + fmt), fmt, config=P("config.json"), metrics=["nope"], out=P("m-bad"))
            c.ev()
            if x.rc == 0 or x.panicked() or os.path.exists(P("m-bad")):
                return say("unknown-metric", f"{x.end()} {x.err[-200:]!r}")
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, range(len(cases))))
