"""C07, command line: export-model and import-model."""
import os, shutil
from lib.mon import *
from drivers.clilib import *


def same(a, b):
    """JSON numbers compared as f32."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or f32(float(a)) == f32(float(b))
    return a == b


def main(c):
    c.rule("Command line: a model trained by the real binary is exported, imported and both copies are trained on with new data; predictions and final models are "
           "compared byte for byte, the exported JSON with the export of the same training in process. Foreign, truncated and broken inputs make both commands fail "
           "without writing a model.")
    vm, dbg, rel = parallel(lambda: vmon("dbg"), lambda: cli("dbg"), lambda: cli("rel"))
    cases = gen(c, vm, "gen", 1500 if c.thorough else 250, 2, 50)
    end = time.time() + (300 if c.thorough else 60)

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/{k}")
        if time.time() > end:
            return c.stat("cases not reached in the time budget")
        if "panic" in meta:
            return c.fail(meta["panic"], f"training in process on valid data: {meta['msg']}", case=c.keep(f"case-{k}", d))
        say = lambda sig, m: c.fail("cli:" + sig, m, case=c.keep(f"case-{k}", d))
        P = lambda x: os.path.join(d, x)
        fmt, exe = r.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"]), r.choice([dbg, rel])
        x = train(exe, P("data." + fmt), fmt, config=P("config.json"), out=P("m"), threads=r.choice([0, 2]), quiet=True)
        e = export_model(exe, P("m"), P("j"), r.choice([(), ("--quiet",)]))
        i = import_model(exe, P("j"), P("m2"), r.choice([(), ("--quiet",)]))
        c.ev(3)
        for y in (x, e, i):
            if y.rc != 0 or y.hang:
                return say("command-failed", f"{y.end()} {y.err[-500:]!r}")
        c.stat("models through export-model and import-model")
        try:
            j = json.loads(read(P("j")))
        except ValueError as ex:
            return say("export-is-not-json", f"{ex}: {read(P('j'))[:300]!r}")
        if exe == dbg and not same(j, json.load(open(P(f"expect.{fmt}.model.json")))):
            return say("export-differs", "the exported JSON differs from the export of the same training in process")
        # Another spelling of the same JSON.
        with open(P("j3"), "w") as f:
            json.dump(j, f, indent=r.choice([None, 3]), sort_keys=r.random() < 0.5)
        i3 = import_model(exe, P("j3"), P("m3"))
        e2 = export_model(exe, P("m2"), P("j2"))
        c.ev(2)
        if i3.rc != 0 or e2.rc != 0:
            return say("command-failed", f"{i3.end()} {i3.err[-300:]!r} {e2.end()} {e2.err[-300:]!r}")
        if not same(j, json.loads(read(P("j2")))):
            return say("re-export-differs", "export, import, export gives another JSON")
        out = []
        for m in ("m", "m2", "m3"):
            y = train(exe, P("data." + fmt), fmt, model=P(m), preds=P("p-" + m), out=P("o-" + m), threads=r.choice([0, 2]), quiet=True)
            c.ev()
            if y.rc != 0 or y.hang:
                return say("training-failed", f"from {m}: {y.end()} {y.err[-500:]!r}")
            out.append((read(P("p-" + m)), read(P("o-" + m))))
        for n, o in zip(("the imported model", "the re-spelled imported model"), out[1:]):
            if o[0] != out[0][0]:
                return say("imported-predictions", f"{n} predicts differently while training on: {next((a, b) for a, b in zip(out[0][0].splitlines(), o[0].splitlines()) if a != b)}")
            if o[1] != out[0][1]:
                return say("imported-model", f"{n} learns differently")
        c.seen(k)
        # Broken inputs
        mb, jb = read(P("m")), read(P("j"))
        for what, cmd, blob in (("truncated model", "e", mb[:r.randrange(len(mb))]), ("truncated JSON", "i", jb.rstrip()[:-r.randrange(1, min(200, len(jb) - 2))]),
                                ("a model as JSON", "i", mb), ("JSON as a model", "e", jb), ("empty", r.choice("ei"), b"")):
            with open(P("bad"), "wb") as f:
                f.write(blob)
            if os.path.exists(P("mbad")):
                os.remove(P("mbad"))
            y = export_model(exe, P("bad"), P("jbad")) if cmd == "e" else import_model(exe, P("bad"), P("mbad"))
            c.ev()
            c.stat("broken inputs to export and import")
            if y.hang or y.panicked() or y.rc < 0:
                return say("bad-input-crash", f"{what}: {y.end()} {y.err[-300:]!r}")
            if y.rc == 0:
                if what.startswith("truncated"):
                    # Only what is missing at the end may be irrelevant padding: the result must then be the same model.
                    if cmd == "i" and not same(json.loads(jb), json.loads(blob) if valid(blob) else None):
                        return say("bad-input-accepted", f"{what}: exit 0")
                    if cmd == "e":
                        c.stat("truncated models accepted")
                else:
                    return say("bad-input-accepted", f"{what}: exit 0")
            elif os.path.exists(P("mbad")) and cmd == "i":
                return say("half-made-model", f"{what}: exit {y.rc} but a model was written")
        shutil.rmtree(d, ignore_errors=True)

    def valid(b):
        try:
            json.loads(b)
            return True
        except ValueError:
            return False

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, range(len(cases))))
