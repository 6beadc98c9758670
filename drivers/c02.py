"""C02: no data race, no undefined behaviour (ThreadSanitizer, AddressSanitizer, Miri)."""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from lib.mon import *
from drivers.clilib import *

OTHERS = ["C03", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C21", "C23", "C24", "C25", "C26", "C27", "C29"]
TSAN = "halt_on_error=0 exitcode=66 history_size=5 report_signal_unsafe=0 handle_segv=1"
ASAN = "detect_leaks=0 exitcode=67 abort_on_error=0 allocator_may_return_null=0 detect_stack_use_after_return=1"


def reports(text):
    """Sanitizer reports: (kind, first frames)."""
    out = []
    for m in re.finditer(r"(?:WARNING|ERROR): (ThreadSanitizer|AddressSanitizer): ([a-zA-Z- ]+)(.*?)(?=\n(?:=====|SUMMARY)|\Z)", text, re.S):
        frames = re.findall(r"#\d+ (\S.*)", m.group(3))
        ours = [f for f in frames if "/repo/" in f or "reductionml" in f][:3]
        out.append((m.group(1), m.group(2).strip(), " | ".join(ours or frames[:3]), m.group(0)[:3500]))
    return out


def miri_report(text):
    m = re.search(r"error: (Undefined Behavior: .*?)\n(.{0,3000})", text, re.S)
    if m:
        return "data-race" if "ata race" in m.group(1) else "undefined-behavior", m.group(0)
    m = re.search(r"error: (memory leaked|the evaluated program deadlocked|the evaluated program aborted|abnormal termination.*?)\n(.{0,2500})", text, re.S)
    if m and "leaked" not in m.group(1):
        return "miri-" + re.sub(r"\W+", "-", m.group(1))[:40], m.group(0)
    return None


def main(c):
    c.rule("Executions under ThreadSanitizer (standard library instrumented too): the real tool training with many parse threads, queue sizes, CPU affinities, futex-level "
           "perturbation and slow pipes; concurrent parsing with one parser and pool from many threads while another thread learns; all in-process monitors, eight cases at a time. "
           "Under AddressSanitizer: all in-process monitors. Under Miri (aliasing, weak memory, seeds varying the schedule): the tool and a sample of monitors. "
           "Distinct by case of the concurrent-parsing workload and by (data, settings, order of futex events) of the tool.")
    c.assumptions += ["races and undefined behaviour are seen only on executed accesses", "Miri runs use copies of two dependencies with explicit casts for the futex system call",
                      "leaks are not part of the property"]
    miri_cli, miri_lib = Miri("cli"), Miri("vmon")
    with ThreadPoolExecutor(5) as ex:
        ts, ads, vms = ex.submit(tsan), ex.submit(asan), ex.submit(lambda: vmon("dbg"))
        mc, ml = ex.submit(miri_cli.build), ex.submit(miri_lib.build)
        vm = vms.result()
        (tvm, tcli), avm = ts.result(), ads.result()
        miri_ok = []
        for x in (mc, ml):
            try:
                miri_ok.append(x.result())
            except (Inconclusive, subprocess.TimeoutExpired, OSError) as e:
                c.log("Miri not available:", str(e)[-600:])
                c.stat("Miri builds that failed")
    c.stats["seconds building"] = int(time.time() - c.t0)
    c.log("built")
    library(c, tvm, "tsan", TSAN)
    c.log("library under TSan")
    tool(c, tcli, vm)
    c.log("tool under TSan")
    library(c, avm, "asan", ASAN)
    c.log("library under ASan")
    if miri_cli in miri_ok and miri_lib in miri_ok:
        miri(c, miri_cli, miri_lib, vm)
    c.log("Miri")


def library(c, exe, tag, options):
    var = "TSAN_OPTIONS" if tag == "tsan" else "ASAN_OPTIONS"
    jobs = [("C02", 150 if c.thorough else 28)] + [(p, (10 if p in ("C03", "C24") else 5) if c.thorough else 2) for p in OTHERS]
    for pid, secs in jobs:
        out = os.path.join(c.scratch, f"{tag}-{pid}.json")
        cmd = [exe, pid, "--seed", str(c.seed), "--tier", "thorough", "--secs", str(secs), "--out", out]
        if tag == "asan" and pid == "C02":
            cmd[-3] = str(secs // 3)
        r = run(cmd, env={var: options}, mem=0, watchdog=secs + 200, cpu_limit=1 << 20, quiet_secs=60)
        text = r.err.decode("utf-8", "replace")
        bad = reports(text)
        for who, kind, where, full in bad[:5]:
            c.fail(f"{kind.replace(' ', '-')}", f"{who} in the in-process workload {pid}: {kind}: {where}\n{full}", replay=f"{var}='{options}' {' '.join(cmd)}")
        if r.hang:
            c.fail("hang", f"{tag} {pid}: {r.hang}", replay=" ".join(cmd))
            continue
        if not bad and (r.rc < 0 or not os.path.exists(out)):
            if r.rc in (-9, -15) or "memory allocation of" in text or "out of memory" in text:
                raise Inconclusive(f"{tag} {pid}: {r.end()} {text[-300:]}")
            c.fail(f"crash-{r.end().replace(' ', '-')}", f"{tag} {pid}: the process died: {text[-1500:]}", replay=" ".join(cmd))
            continue
        if not os.path.exists(out):
            continue
        d = json.load(open(out))
        c.ev(d["cases"])
        c.stat(f"{tag}: cases of in-process workloads", d["cases"])
        c.parts.append({"part": f"in-process workload {pid} under {tag}", "cases": d["cases"], "evaluations": d["evaluations"], "seconds": round(d["seconds"], 1)})
        if pid == "C02":
            c.extra_distinct += d["distinct"]
            for k, v in d["stats"].items():
                c.stat(f"{tag}: {k}", v)
            for s in d["samples"][:2]:
                c.sample(s[:800])
            # Values are judged where the workload is concurrent; elsewhere they are another check's.
            for f in d["fails"][:5]:
                c.fail(f["sig"], f["msg"], replay=" ".join(cmd[:6]) + f" --case {f['case']}")


def tool(c, exe, vm):
    jit = jitter_lib(syscall_only=True)
    cases = gen(c, vm, "tsan", 400 if c.thorough else 40, 2, 80) + gen(c, vm, "tsanlong", 8 if c.thorough else 2, 400, 900, seed=c.seed + 3)
    end = time.time() + (240 if c.thorough else 70)
    orders = set()

    def one(k):
        d, meta = cases[k]
        r = random.Random(f"{c.seed}/tool/{k}")
        if "panic" in meta or time.time() > end:
            return
        fmt = r.choice(["vw", "json", "dsjson"] if meta["cb"] else ["vw", "json"])
        P = lambda x: os.path.join(d, x)
        for v in range(4):
            threads, queue = r.choice([1, 2, 3, 4, 8, 16]), r.choice([0, 1, 2, 8, 512])
            ms = {"Scalar": ["mse"], "Probs": ["ips"]}.get(meta["kind"], []) + ["parsed_features"]
            env = {"TSAN_OPTIONS": TSAN}
            mode = r.choice(["plain", "jitter", "jitter", "pipe", "broken"])
            data, feeders, out = P("data." + fmt), [], P(f"j{v}")
            if mode == "jitter":
                env.update(LD_PRELOAD=jit, JITTER_SEED=str(r.randrange(1 << 30)), JITTER_RATE=str(r.choice([1, 4, 20])), JITTER_MAX_US=str(r.choice([20, 300, 2000])),
                           JITTER_VICTIM=str(r.choice([0, 1, 2, 8, 85, 170])), JITTER_OUT=out)
            elif mode == "pipe":
                data = P(f"fifo{v}")
                os.mkfifo(data)
                feeders = [SlowWriter(data, read(P("data." + fmt)), random.Random(r.random()))]
                feeders[0].start()
            elif mode == "broken":
                # The error paths end the threads early.
                lines = read(P("data." + fmt)).split(b"\n")
                lines.insert(r.randrange(len(lines)), b"{broken" if fmt != "vw" else b"not|a:x:label")
                data = P(f"broken{v}")
                with open(data, "wb") as f:
                    f.write(b"\n".join(lines))
            x = train(exe, data, fmt, config=P("config.json"), preds=P(f"p{v}") if r.random() < 0.5 else None, out=P(f"m{v}"), metrics=r.choice([None, ms]), threads=threads,
                      queue=queue, quiet=r.random() < 0.5, cpus=r.choice([None, None, "0", "0,1"]), env=env, feeders=feeders, mem=0, watchdog=400, quiet_secs=25)
            c.ev()
            c.stat(f"tsan: runs of the tool, {mode}")
            what = f"{fmt}, {meta['n']} examples, threads {threads}, queue {queue}, {mode}"
            bad = reports(x.err.decode("utf-8", "replace"))
            for who, kind, where, full in bad[:3]:
                c.fail(kind.replace(" ", "-"), f"{who} in the tool: {kind}: {where}\n{what}\n{full}", replay=f"TSAN_OPTIONS='{TSAN}' {' '.join(x.cmd)}", case=c.keep(f"tool-{k}", d) if len(c.fails) < 5 else None)
            if x.hang:
                c.fail("hang", f"{what}: {x.hang}")
            elif not bad and x.rc < 0 and x.rc not in (-9, -15):
                c.fail(f"crash-{x.end().replace(' ', '-')}", f"{what}: {x.err[-800:]!r}")
            o = None
            if mode == "jitter":
                try:
                    o = open(out).read().split()
                    orders.add(o[5])
                    c.stat("tsan: injected delays", int(o[1]))
                    c.stat("tsan: futex events", int(o[2]) + int(o[3]))
                except (OSError, IndexError):
                    pass
            c.seen("tool", k, v, threads, queue, mode, o and o[5])
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, range(len(cases))))
    c.stats["tsan: distinct orders of futex events"] = len(orders)


def miri(c, mcli, mlib, vm):
    start = time.time()
    limit = 260 if c.thorough else 110
    cases = gen(c, vm, "miri", 12, 4, 7, seed=c.seed + 9)
    r = random.Random(f"{c.seed}/miri")
    jobs = []
    for i in range(60 if c.thorough else 8):
        jobs.append(("lib", "C02", i))
    for p in OTHERS:
        for i in range(4 if c.thorough else 1):
            jobs.append(("lib", p, r.randrange(1000)))
    for i in range(24 if c.thorough else 4):
        jobs.append(("cli", cases[i % len(cases)], i))
    r.shuffle(jobs)
    # The tool and the concurrent workload first.
    jobs.sort(key=lambda j: 0 if j[0] == "cli" or j[1] == "C02" else 1)

    def one(j):
        left = limit - (time.time() - start)
        if left < 15:
            return c.stat("miri: jobs not reached in the time budget")
        seed = r.randrange(1 << 30)
        if j[0] == "lib":
            what = f"in-process workload {j[1]} case {j[2]}, Miri seed {seed}"
            x = mlib.run([j[1], "--seed", str(c.seed), "--case", str(j[2])], f"-Zmiri-seed={seed}", left)
        else:
            d, meta = j[1]
            if "panic" in meta:
                return
            fmt = r.choice(["vw", "json"] + (["dsjson"] if meta["cb"] else []))
            threads, queue = r.choice([1, 2, 3]), r.choice([0, 1, 4])
            what = f"the tool, {fmt}, threads {threads}, queue {queue}, Miri seed {seed}"
            x = mcli.run(["--quiet", "train", "-d", os.path.join(d, "data." + fmt), "--data-format", FMT[fmt], "-c", os.path.join(d, "config.json"), "-o", os.path.join(d, f"m{j[2]}"),
                          "--num-parse-threads", str(threads), "--queue-size", str(queue)], f"-Zmiri-seed={seed}", left)
        if x is None:
            return c.stat("miri: executions stopped by the time budget (nothing found until then)")
        text = x.err.decode("utf-8", "replace")
        c.ev()
        c.stat("miri: executions of the tool" if j[0] == "cli" else "miri: executions of in-process workloads")
        c.seen("miri", what)
        m = miri_report(text)
        if m:
            c.fail(m[0], f"Miri: {what}: {m[1]}", case=c.keep(f"miri-{j[2]}", j[1][0]) if j[0] == "cli" else None)
        elif "unsupported operation" in text:
            c.stat("miri: executions ended by an operation it does not support")

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
