"""C20: the configuration schema against what is accepted."""
import copy, os
from lib.mon import *
from drivers.clilib import *

# Settings and their kinds, from the documentation of each reduction.
NUM, BOOL, STR, INT, NS, LINK, CB, LOSS = "number", "bool", "string", "integer", "namespace", "link", "cbType", "loss"
TABLE = {
    "Coin": dict(alpha=NUM, beta=NUM, l1Lambda=NUM, l2Lambda=NUM, linkFunction=LINK, lossFunction=LOSS),
    "Binary": dict(regressor="scalar"),
    "CbAdf": dict(cbType=CB, regressor="scalar"),
    "CbExploreAdfGreedy": dict(epsilon=NUM, cbAdf="scores"),
    "CbExploreAdfSoftmax": {"lambda": NUM, "uniformEpsilon": NUM, "cbAdf": "scores"},
    "CbExploreAdfSquareCb": dict(gammaScale=NUM, gammaExponent=NUM, uniformEpsilon=NUM, cbAdf="scores"),
    "Debug": dict(id=STR, indent=INT, features=BOOL, label=BOOL, prediction=BOOL, next=None),
    "ElementwiseInteraction": dict(keepOriginalFeatures=BOOL, one=NS, two=NS, regressor="scalar"),
}
MAKES = {"scalar": ["Coin", "Coin", "Coin", "ElementwiseInteraction", "Debug"], "scores": ["CbAdf", "CbAdf", "CbAdf", "Debug"],
         "probs": ["CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "Debug"], "binary": ["Binary", "Debug"]}
GLOBAL = dict(numBits=INT, hashSeed=INT, constantFeatureEnabled=BOOL, interactions="interactions")


def value(r, kind, depth, key=None):
    if kind == NUM:
        if key in ("epsilon", "uniformEpsilon"):
            return r.choice([0, 1, 0.0, 0.05, 0.5, 1.0, round(r.random(), 4)])
        return r.choice([0, 1, 2, 0.5, 1.0, 10.0, 1e-3, round(r.random() * 9, 3)])
    if kind == BOOL:
        return r.random() < 0.5
    if kind == STR:
        return r.choice(["", "a", "Debug", "über", "x y"])
    if kind == INT:
        return r.choice([0, 1, 2, 7]) if key != "numBits" else r.randrange(1, 12)
    if kind == NS:
        return r.choice(["Default", {"Name": r.choice(["a", "", "Default", "b c", "é"])}])
    if kind == LINK:
        return r.choice(["Identity", "Logistic"])
    if kind == CB:
        return r.choice(["ips", "mtr"])
    if kind == LOSS:
        if r.random() < 0.5:
            return {"Squared": {}}
        return {"Logistic": {k: v for k, v in (("min_label", r.choice([-1, 0, -2.5])), ("max_label", r.choice([1, 2.0]))) if r.random() < 0.6}}
    if kind == "interactions":
        return [[value(r, NS, 0) for _ in range(r.choice([2, 2, 3]))] for _ in range(r.randrange(3))]
    raise AssertionError(kind)


def tree(r, want, depth=0):
    name = r.choice(MAKES[want][:-1] if depth > 3 else MAKES[want])
    if depth > 3 and want == "scalar":
        name = "Coin"
    return node(r, name, want, depth)


def node(r, name, want, depth):
    cfg = {}
    for k, kind in TABLE[name].items():
        nested = kind in MAKES or k == "next"
        if k != "next" and r.random() < (0.3 if nested else 0.5):
            continue
        cfg[k] = tree(r, want if k == "next" else kind, depth + 1) if nested else value(r, kind, depth, k)
    t = {"typename": name}
    if cfg or r.random() < 0.6:
        t["config"] = cfg
    elif r.random() < 0.2:
        t["config"] = None
    return t


def whole(r):
    c = {"globalConfig": {k: value(r, kind, 0, k) for k, kind in GLOBAL.items() if r.random() < 0.5},
         "entryReduction": tree(r, r.choice(["scalar", "scalar", "scores", "probs", "probs", "binary"]))}
    if r.random() < 0.3:
        c["$schema"] = r.choice(["", "x", "./schemas/config/latest/schema.json"])
    return c


def places(c):
    """(what, holder, key, kind) of every setting and every object of a configuration."""
    sets, objs, reds = [], [(("top level"), c), ("globalConfig", c["globalConfig"])], []
    for k in c["globalConfig"]:
        sets.append((f"globalConfig.{k}", c["globalConfig"], k, GLOBAL[k]))
    for i, x in enumerate(c["globalConfig"].get("interactions", [])):
        for j in range(len(x)):
            sets.append((f"interactions[{i}][{j}]", x, j, NS))

    def go(t, path):
        name = t["typename"]
        reds.append((path, t))
        objs.append((path + "." + name + " beside typename", t))
        cfg = t.get("config")
        if cfg is None:
            return
        objs.append((path + "." + name + ".config", cfg))
        for k, kind in TABLE[name].items():
            if k not in cfg:
                continue
            if kind in MAKES or k == "next":
                sets.append((f"{path}.{name}.{k}", cfg, k, "reduction"))
                go(cfg[k], f"{path}.{k}")
            else:
                sets.append((f"{path}.{name}.{k}", cfg, k, kind))
                if kind == LOSS:
                    objs.append((f"{path}.{name}.{k}.{list(cfg[k])[0]}", list(cfg[k].values())[0]))
    go(c["entryReduction"], "entryReduction")
    return sets, objs, reds


WRONG = {NUM: ["1", True, None, [], {}], BOOL: [0, "true", None, []], STR: [1, None, True, {}], INT: ["3", 1.5, None, True, [], -1],
         NS: ["default", "a", 1, None, {"name": "a"}, {"Name": 1}, {"Name": "a", "x": 1}, {}], LINK: ["identity", 1, None, {}], CB: ["IPS", "dr", None, 1],
         LOSS: [{"squared": {}}, {"Hinge": {}}, {}, 1, None, {"Squared": {}, "Logistic": {}}, {"Logistic": {"min_label": "0"}}, {"Logistic": {"max_label": None}}, {"Squared": 1}],
         "interactions": [{}, "ab", [["Default", 1]], [{}], None, ["ab"]], "reduction": ["Coin", 1, None, {}, {"config": {}}]}
UNKNOWN = ["extra", "Alpha", "num_bits", "lambda_", "typeName", "Regressor", "cb_adf", "configs", "$schemas", " alpha", "epsilonn", "regressorConfig", "l1_lambda"]


def mutate(r, c):
    """(what is wrong, configuration) with exactly one thing wrong."""
    c = copy.deepcopy(c)
    sets, objs, reds = places(c)
    how = r.choice(["unknown setting", "unknown setting", "wrong type", "wrong type", "unknown reduction", "foreign setting"])
    if how == "unknown setting":
        what, o = r.choice(objs)
        o[r.choice(UNKNOWN)] = r.choice([1, None, "x", {}, True])
        return f"unknown setting at {what}", how, c
    if how == "foreign setting":
        # A setting of another reduction, with a value that would be right there.
        path, t = r.choice(reds)
        other = r.choice([n for n in TABLE if n != t["typename"]])
        ks = [k for k, kind in TABLE[other].items() if k not in TABLE[t["typename"]] and kind not in MAKES and k != "next"]
        if not ks:
            return None
        k = r.choice(ks)
        if t.get("config") is None:
            t["config"] = {}
        t["config"][k] = value(r, TABLE[other][k], 0, k)
        return f"setting {k} of {other} in {t['typename']} at {path}", how, c
    if how == "wrong type":
        if not sets:
            return None
        what, o, k, kind = r.choice(sets)
        v = r.choice(WRONG[kind])
        o[k] = v
        return f"{what} = {json.dumps(v)}", f"{how} {kind}", c
    path, t = r.choice(reds)
    t["typename"] = r.choice(["Unknown", "coin", "CBAdf", "", "Coin ", "CbExploreAdf", "any_reduction_config", t["typename"] + "s", t["typename"].upper()])
    return f"{path}.typename = {t['typename']!r}", how, c


def verdicts(c, vm, schema, confs, tag):
    f = os.path.join(c.scratch, f"confs-{tag}")
    with open(f, "w") as o:
        for x in confs:
            o.write(json.dumps(x) + "\n")
    v = run([vm, "check", f], watchdog=300, cpu_limit=250)
    s = run(["python3-vt", os.path.join(VERIF, "drivers", "validate.py"), schema, f], mem=0, watchdog=600, cpu_limit=1 << 20, quiet_secs=1 << 20)
    if v.rc != 0 or v.hang:
        raise Inconclusive(f"vmon check: {v.end()} {v.err[-400:]!r}")
    if s.rc != 0:
        raise Inconclusive(f"validate.py: {s.end()} {s.err[-400:]!r}")
    a, b = v.out.decode().split(), s.out.decode().split()
    if len(a) != len(confs) or len(b) != len(confs):
        raise Inconclusive("verdicts missing")
    return a, b


def main(c):
    c.rule("Case: random reduction trees with random subsets of settings (valid ones, and ones with exactly one unknown setting, setting of another reduction, unknown reduction or "
           "wrong type at a random nesting level), judged by the generated schema (an independent draft-07 validator) and by creating a model. Accepted by the system implies accepted by "
           "the schema; the broken ones must be rejected by the schema. Default configurations of every documented reduction pass the tool's checker and both schemas. Distinct by configuration.")
    c.assumptions += ["settings are written as JSON objects (the sequence form a decoder may also accept is not a documented configuration)",
                      "the published schema file compared is the one for the development version (latest)"]
    vm, exe = parallel(lambda: vmon("dbg"), lambda: cli("dbg"))
    g = run([exe, "gen-schema"])
    c.ev()
    if g.rc != 0 or g.hang:
        return c.fail("gen-schema-failed", f"{g.end()} {g.err[-400:]!r}")
    schema = os.path.join(c.scratch, "schema.json")
    with open(schema, "wb") as f:
        f.write(g.out)
    try:
        js = json.loads(g.out)
    except ValueError as e:
        return c.fail("schema-is-not-json", str(e))
    for extra in (["--quiet"],):
        g2 = run([exe, *extra, "gen-schema"])
        c.ev()
        if g2.out != g.out:
            c.fail("schema-unstable", "gen-schema prints another schema the second time")
    missing = [n for n in TABLE if n not in js.get("definitions", {})]
    if missing:
        c.fail("reduction-missing", f"the schema does not define {missing}")
    r = c.rng
    good = [whole(r) for _ in range(40000 if c.thorough else 2500)]
    a, b = verdicts(c, vm, schema, good, "good")
    for x, v, s in zip(good, a, b):
        c.ev()
        c.seen(json.dumps(x, sort_keys=True))
        c.stat(f"valid configurations: system {v}, schema {s}")
        if v == "panic":
            c.fail("panic", f"creating a model from {json.dumps(x)}")
        elif v == "ok" and s != "ok":
            c.fail("schema-rejects-accepted", json.dumps(x))
        elif v == "err":
            c.stat("configurations meant to be valid that the system rejects (judged by C19)")
        c.sample(x)
    bad = [m for m in (mutate(r, r.choice(good)) for _ in range(60000 if c.thorough else 5000)) if m]
    a, b = verdicts(c, vm, schema, [m[2] for m in bad], "bad")
    for (what, how, x), v, s in zip(bad, a, b):
        c.ev()
        c.seen(json.dumps(x, sort_keys=True))
        c.stat(f"{how}: system {v}, schema {s}")
        if v == "panic":
            c.fail("panic", f"{what}: {json.dumps(x)}")
        elif s == "ok":
            c.fail("schema-accepts-broken", f"{what}: {json.dumps(x)} (the system: {v})")
        elif v == "ok" and s != "ok":
            c.fail("schema-rejects-accepted", f"{what}: {json.dumps(x)}")
    # The tool's checker says the same, and so do its defaults.
    path = os.path.join(c.scratch, "one.json")
    for x, v in [(good[i], None) for i in r.sample(range(len(good)), 150)] + [(bad[i][2], a[i]) for i in r.sample(range(len(bad)), 150)]:
        with open(path, "w") as f:
            json.dump(x, f)
        k = run([exe, "config", "check", path])
        c.ev()
        c.stat("configurations given to the tool's checker")
        want = v or verdict_of(c, vm, x)
        if k.panicked() or k.rc < 0 or k.hang:
            c.fail("checker-crash", f"{k.end()} {k.err[-300:]!r}: {json.dumps(x)}")
        elif (k.rc == 0) != (want == "ok"):
            c.fail("checker-disagrees", f"config check: {k.end()}, creating a model: {want}: {json.dumps(x)}")
    latest = os.path.join(REPO, "schemas", "config", "latest", "schema.json")
    for name in TABLE:
        if name == "Debug":
            continue  # Its default for the wrapped reduction is a placeholder.
        for extra in ([], ["--latest"]):
            n = run([exe, "config", "new", name, *extra])
            c.ev()
            c.stat("default configurations")
            if n.rc != 0 or n.hang:
                c.fail("no-default", f"config new {name}: {n.end()} {n.err[-300:]!r}")
                continue
            with open(path, "wb") as f:
                f.write(n.out)
            k = run([exe, "config", "check", path])
            try:
                x = json.loads(n.out)
            except ValueError as e:
                c.fail("no-default", f"config new {name}: not JSON: {e}")
                continue
            vs = [verdicts(c, vm, s, [x], "default") for s in (schema, latest)]
            if k.rc != 0 or any(v != (["ok"], ["ok"]) for v in vs):
                c.fail("default-rejected", f"config new {name} {extra}: checker {k.end()}, (model, generated schema) {vs[0]}, (model, published schema) {vs[1]}")
            if x["entryReduction"]["typename"] != name or set(x["entryReduction"]["config"]) != set(TABLE[name]):
                c.fail("default-incomplete", f"config new {name}: {json.dumps(x['entryReduction'])}")
            where = x["$schema"].split("/main/")[-1]
            if not os.path.exists(os.path.join(REPO, where)):
                c.fail("default-schema-missing", f"config new {name} {extra} points to {where}, which is not published")
            if ("/latest/" in where) != bool(extra):
                c.fail("default-schema-other", f"config new {name} {extra} points to {where}")
    for bogus in ("coin", "Nope", ""):
        n = run([exe, "config", "new", bogus])
        c.ev()
        if n.rc == 0 or n.panicked():
            c.fail("default-of-unknown", f"config new {bogus!r}: {n.end()}")
        missing = [name for name in TABLE if name.encode() not in n.err + n.out]
        if missing:
            c.fail("default-of-unknown", f"config new {bogus!r} does not name {missing} as available: {n.err[-300:]!r}")
    # The published file accepts and rejects the same (compared by verdicts, not by text).
    some = r.sample(good, 300) + [m[2] for m in r.sample(bad, 300)]
    _, b1 = verdicts(c, vm, schema, some, "pub")
    _, b2 = verdicts(c, vm, latest, some, "pub")
    for x, p, q in zip(some, b1, b2):
        c.ev()
        c.stat("configurations judged by the published schema")
        if p != q:
            c.fail("published-schema-differs", f"generated {p}, published {q}: {json.dumps(x)}")


def verdict_of(c, vm, x):
    f = os.path.join(c.scratch, "v1")
    with open(f, "w") as o:
        o.write(json.dumps(x) + "\n")
    return run([vm, "check", f]).out.decode().strip()
