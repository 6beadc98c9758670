"""Repeats histories (vmon hist) through the Python package and compares every answer.
play.py FILE [--threads N] [--switch S] [--gc]: prints one JSON object per failing history and a summary line at the end."""
import gc, json, random, struct, sys, threading, warnings
import reductionml as reml

FMT = {"VwText": reml.FormatType.VwText, "Json": reml.FormatType.Json, "DsJson": reml.FormatType.DsJson}
ALIVE = {}


class Wrong(Exception):
    pass


def num(v):
    """The single precision number as bits."""
    return struct.unpack("I", struct.pack("f", float(v)))[0]


def same(a, b, exact):
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    a, b = float(a), float(b)
    return num(a) == num(b) or a == b or (not exact and abs(a - b) <= 2e-3 * (1 + abs(a)))


def pred(p):
    if isinstance(p, reml.ScalarPred):
        return ["ScalarPred", p.prediction, p.raw_prediction]
    if isinstance(p, reml.ActionScoresPred):
        return ["ActionScoresPred", [list(x) for x in p.value]]
    if isinstance(p, reml.ActionProbsPred):
        return ["ActionProbsPred", [list(x) for x in p.value]]
    return [type(p).__name__]


def label(l):
    if isinstance(l, reml.SimpleLabel):
        return ["SimpleLabel", l.value, l.weight]
    if isinstance(l, reml.CbLabel):
        return ["CbLabel", l.action, l.cost, l.probability]
    return [type(l).__name__]


def make_label(l, r):
    if l[0] == "SimpleLabel":
        if l[2] == 1.0 and r.random() < 0.5:
            return reml.SimpleLabel(l[1])
        return reml.SimpleLabel(l[1], weight=l[2]) if r.random() < 0.5 else reml.SimpleLabel(value=l[1], weight=l[2])
    return reml.CbLabel(l[1], l[2], l[3]) if r.random() < 0.5 else reml.CbLabel(action=l[1], cost=l[2], probability=l[3])


def name(v):
    return None if v is None else repr(v).split(".")[-1]


def types(w):
    t = w.entry_reduction_types
    return [name(t.input_label_type), name(t.output_label_type), name(t.input_prediction_type), name(t.output_prediction_type),
            name(t.input_features_type), name(t.output_features_type)]


def jsame(a, b):
    """Models as JSON: numbers to single precision."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jsame(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    return a == b or num(a) == num(b)


def play(h, stats, collect, shared_parsers):
    r = random.Random(h["n"])
    ws, xs, ls, parsers = {}, {}, {}, {}
    exact = not any(o.get("dict") for o in h["ops"])
    exact = exact and not any(o["o"] in ("bin", "json") and o["is"] is None for o in h["ops"])

    def want(op, got):
        stats["answers compared"] = stats.get("answers compared", 0) + 1
        if not same(op["is"], got, exact):
            raise Wrong(f"core: {str(op['is'])[:700]}, Python: {str(got)[:700]}")

    for k, op in enumerate(h["ops"]):
        o = op["o"]
        stats[o] = stats.get(o, 0) + 1
        try:
            if o == "new":
                ws[op["w"]] = reml.Workspace.create_from_config(op["cfg"])
                if types(ws[op["w"]]) != op["is"]:
                    raise Wrong(f"types {types(ws[op['w']])} instead of {op['is']}")
                # Parsers outlive the workspace that made them.
                if r.random() < 0.3:
                    parsers = {x: p for x, p in parsers.items() if x[0] != op["w"]}
            elif o == "parse":
                key = (op["w"], op["f"])
                if key not in parsers or r.random() < 0.2:
                    parsers[key] = ws[op["w"]].create_parser(FMT[op["f"]])
                text = json.loads(op["t"]) if op["dict"] else op["t"]
                before = json.dumps(text)
                try:
                    x, l = parsers[key].parse(text)
                except RuntimeError as e:
                    stats["errors"] = stats.get("errors", 0) + 1
                    if "err" not in op:
                        raise Wrong(f"error {e} for an example the core accepts")
                    if type(e) is not RuntimeError:
                        raise Wrong(f"{type(e)}")
                    continue
                if "err" in op:
                    raise Wrong(f"accepted although the core reports {op['err']}")
                if op["dict"]:
                    stats["dictionaries"] = stats.get("dictionaries", 0) + 1
                    if json.dumps(text) != before:
                        raise Wrong("the caller's dictionary was changed")
                if (l is None) != (op["is"] is None) or (l is not None and not same(op["is"], label(l), True)):
                    raise Wrong(f"label {l!r} instead of {op['is']}")
                stats["answers compared"] = stats.get("answers compared", 0) + 1
                if not isinstance(x, reml.CbAdfFeatures if types(ws[op["w"]])[4] == "SparseCbAdf" else reml.SparseFeatures):
                    raise Wrong(f"{type(x)}")
                if not op.get("drop"):
                    xs[op["x"]], ls[op["x"]] = x, l
                del x, l
            elif o == "empty":
                xs[op["x"]] = reml.SparseFeatures()
            elif o in ("pred", "learn", "ptl"):
                w, x = ws[op["w"]], xs[op["x"]]
                l = ls[op["x"]] if op["l"] == "own" else make_label(op["l"], r)
                before = label(l)
                if o == "pred":
                    want(op, pred(w.predict(x)))
                elif o == "learn":
                    if w.learn(x, l) is not None:
                        raise Wrong("learn returned something")
                else:
                    want(op, pred(w.predict_then_learn(x, l)))
                if label(l) != before:
                    raise Wrong(f"the label changed from {before} to {label(l)}")
                del x, l, w
            elif o == "drop":
                for i in op["xs"]:
                    xs.pop(i, None)
                    ls.pop(i, None)
                if collect and r.random() < 0.3:
                    gc.collect()
            elif o == "bin":
                m = ws[op["w"]].serialize()
                if op["is"] is not None:
                    stats["models compared"] = stats.get("models compared", 0) + 1
                    if bytes(m) != bytes(op["is"]):
                        raise Wrong(f"binary models differ ({len(m)} bytes, core {len(op['is'])})")
                if op["load"]:
                    src = op["is"] if op["theirs"] else m
                    ws[op["w"]] = reml.Workspace.create_from_model(r.choice([list, bytes, bytearray])(src))
            elif o == "reject":
                make = {"config": reml.Workspace.create_from_config, "json": reml.Workspace.create_from_json_model,
                        "model": lambda v: reml.Workspace.create_from_model(bytes(v))}[op["how"]]
                try:
                    make(op["v"])
                except Exception:
                    continue
                raise Wrong(f"{op['how']} accepted although the core reports {op['err']}")
            elif o == "json":
                m = ws[op["w"]].serialize_to_json()
                if op["is"] is not None:
                    stats["models compared"] = stats.get("models compared", 0) + 1
                    if not jsame(op["is"], m):
                        raise Wrong(f"JSON models differ: core {json.dumps(op['is'])[:600]}, Python {str(m)[:600]}")
                if op["load"]:
                    src = op["is"] if op["theirs"] else (json.loads(json.dumps(m)) if r.random() < 0.5 else m)
                    ws[op["w"]] = reml.Workspace.create_from_json_model(src)
        except Wrong as e:
            return k, op, str(e)
        except BaseException as e:
            return k, op, f"{type(e).__name__}: {e}"
    return None


def main():
    a = sys.argv[1:]
    opt = lambda k, d: type(d)(a[a.index(k) + 1]) if k in a else d
    sys.setswitchinterval(opt("--switch", 0.005))
    hs = [json.loads(l) for l in open(a[0])]
    n = opt("--threads", 1)
    stats, bad, lock = {}, [], threading.Lock()

    def work(t):
        mine = {}
        for h in hs[t::n]:
            if "ops" not in h:
                continue
            e = play(h, mine, "--gc" in a, None)
            mine["histories"] = mine.get("histories", 0) + 1
            if e:
                with lock:
                    bad.append({"n": h["n"], "step": e[0], "op": e[1]["o"], "what": e[2]})
        with lock:
            for k, v in mine.items():
                stats[k] = stats.get(k, 0) + v

    ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(json.dumps({"stats": stats, "bad": bad[:50], "bads": len(bad)}))


main()
