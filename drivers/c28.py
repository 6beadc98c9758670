"""C28: the Python package behaves exactly like the core library."""
import json, os, shutil
from lib.mon import *
from lib import mon

ENV = {"PYO3_PYTHON": "/usr/bin/python3.12", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_INCREMENTAL": "false"}
PY = "/opt/vp/pyenv/bin/python"


def package(profile):
    """The package laid out as maturin would, built from the working tree; returns its directory."""
    env = dict(ENV, **(NODEBUG if profile == "rel" else {}))
    t = mon._cargo("py-" + profile, ["build", "-p", "reductionml-python"], env=env)
    stage = os.path.join(t, "stage")
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "reductionml-python", "python", "reductionml"), os.path.join(stage, "reductionml"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    shutil.copy(os.path.join(t, "debug", "libreductionml.so"), os.path.join(stage, "reductionml", "_reductionml.so"))
    return stage


def main(c):
    c.rule("History: one to three workspaces with random configurations, and a random sequence of parse (text or dictionary, valid or damaged), predict, learn, "
           "predict_then_learn (with the example's own or another label), dropping of feature objects in any order, reuse, empty feature objects, saving and "
           "loading in both model formats (from its own or from the core's file), made by the core library with a separate container for every example. "
           "It is repeated through the Python package, where all feature objects share one pool and histories run one after another or interleaved in up to 8 threads. Judged: "
           "every prediction, label, error, type description and model. Non-trivial: at least one prediction or model compared. Distinct by history.")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: package("dbg"), lambda: package("rel"))
    total = 24000 if c.thorough else 4800
    per = 300
    play = os.path.join(VERIF, "drivers", "play.py")

    def one(k):
        if time.time() - c.t0 > (700 if c.thorough else 150):
            return c.stat("batches not reached in the time budget")
        r = random.Random(f"{c.seed}/{k}")
        f = os.path.join(c.scratch, f"h{k}.jsonl")
        long = r.random() < 0.15
        g = run([vm, "hist", "--seed", str(c.seed), "--first", str(k * per), "--count", str(per // 10 if long else per), "--file", f, "--min", "5", "--max", "600" if long else "60"])
        if g.rc != 0:
            raise Inconclusive(f"vmon hist: {g.end()} {g.err[-500:]!r}")
        lines = open(f).readlines()
        for l in lines:
            h = json.loads(l)
            if "panic" in h:
                c.fail(h["panic"], f"history {h['n']} in the core: {h['msg']}", case=c.keep(f"history-{h['n']}.json", f))
        n = r.choice([1, 1, 2, 4, 8])
        args = [PY, play, f, "--threads", str(n), "--switch", r.choice(["0.005", "0.000001"])] + (["--gc"] if r.random() < 0.5 else [])
        profile, stage = r.choice([("dbg", dbg), ("rel", rel)])
        x = run(args, env={"PYTHONPATH": stage, "PYTHONDONTWRITEBYTECODE": "1"}, cwd=c.scratch)
        if x.hang:
            return c.fail("hang", f"{x.hang}: {' '.join(args)}", case=c.keep(f"batch-{k}.jsonl", f))
        if x.rc < 0:
            return c.fail("crash", f"the interpreter died: {x.end()} {x.err[-800:]!r}", case=c.keep(f"batch-{k}.jsonl", f))
        if x.rc != 0:
            if b"ImportError" in x.err or b"AttributeError" in x.err:
                return c.fail("package", x.err[-1500:].decode(errors="replace"))
            raise Inconclusive(f"play.py: {x.end()} {x.err[-1500:]!r}")
        d = json.loads(x.out.splitlines()[-1])
        for b in d["bad"]:
            c.fail(f"python:{b['op']}", f"history {b['n']}, step {b['step']}: {b['what']}", case=c.keep(f"batch-{k}.jsonl", f), replay=" ".join(args), profile=profile)
        for a, v in d["stats"].items():
            c.stat(a, v)
        c.stat("batches with several threads", n > 1)
        c.ev(d["stats"].get("answers compared", 0) + d["stats"].get("models compared", 0))
        for l in lines:
            if any(f'"o":"{o}"' in l for o in ("pred", "ptl", "bin", "json")):
                c.seen(l)
        if lines:
            c.sample(f"batch {k}: {d['stats']}, {n} threads")
        os.remove(f)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(total // per)))
