"""Driving the real `reml` binary."""
import json, math, os, re, struct, threading, time
from lib.mon import run, Inconclusive

FMT = {"vw": "vw-text", "json": "json", "dsjson": "dsjson"}
ANSI = re.compile(rb"\x1b\[[0-9;]*[A-Za-z]")


def train(exe, data, fmt, config=None, model=None, preds=None, out=None, metrics=None, progress=None, threads=None,
          queue=None, quiet=False, env=None, cpus=None, feeders=(), **kw):
    cmd = [exe]
    if cpus:
        cmd = ["taskset", "-c", cpus] + cmd
    if quiet:
        cmd.append("--quiet")
    cmd += ["train", "-d", data, "--data-format", FMT[fmt]]
    cmd += ["-c", config] if config else ["-i", model]
    if preds:
        cmd += ["-p", preds]
    if out:
        cmd += ["-o", out]
    if metrics:
        cmd += ["-m", ",".join(metrics)]
    if progress:
        cmd += ["--progress", progress]
    if queue is not None:
        cmd += ["--queue-size", str(queue)]
    if threads is not None:
        cmd += ["--num-parse-threads", str(threads)]
    r = run(cmd, env=env, feeders=feeders, **kw)
    r.cmd = cmd
    return r


def rows(stdout):
    """(column titles, rows) of the last table printed."""
    t = ANSI.sub(b"", stdout).decode("utf-8", "replace")
    lines = [l for l in t.split("\n") if l.startswith("|") or l.startswith("+")]
    starts = [i for i, l in enumerate(lines) if l.startswith("+") and i + 1 < len(lines) and lines[i + 1].startswith("|")
              and i + 2 < len(lines) and lines[i + 2].startswith("+=")]
    if not starts:
        return None, []
    body = lines[starts[-1] + 1:]
    split = lambda l: re.split(r"\s{2,}", l.strip("|").strip())
    title = split(body[0])
    rs = []
    for l in body[2:]:
        if l.startswith("+"):
            break
        rs.append(split(l))
    return title, rs


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0] if math.isfinite(x) and abs(x) < 3.4e38 else x


class Feeder(threading.Thread):
    """`pausing` while it makes a long pause that is part of the plan, `moved` counts its bytes. A program that sleeps
    while the feeder is merely blocked (nobody opens, reads or writes the pipe) is not waiting for the feeder."""
    def __init__(self):
        super().__init__(daemon=True)
        self.pausing, self.moved = False, 0

    def pause(self, secs):
        self.pausing = True
        time.sleep(secs)
        self.pausing = False


class SlowWriter(Feeder):
    """Feeds a named pipe in random pieces with random pauses."""
    def __init__(self, path, data, rng, pauses=12, longest=0.02):
        super().__init__()
        self.path, self.data, self.r, self.pauses, self.longest = path, data, rng, pauses, longest

    def run(self):
        try:
            # Opening blocks until the program opens its end.
            fd = None
            for _ in range(12000):
                try:
                    fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                    break
                except OSError:
                    time.sleep(0.005)
            if fd is None:
                return
            os.set_blocking(fd, True)
            cuts = sorted(self.r.randrange(len(self.data) + 1) for _ in range(self.pauses))
            last = 0
            for c in cuts + [len(self.data)]:
                piece = self.data[last:c]
                last = c
                while piece:
                    n = os.write(fd, piece)
                    piece = piece[n:]
                    self.moved += n
                time.sleep(self.r.random() * self.longest)
            os.close(fd)
        except (BrokenPipeError, OSError):
            pass


class SlowReader(Feeder):
    """Drains a named pipe slowly, so that the program's writes block."""
    def __init__(self, path, rng):
        super().__init__()
        self.path, self.r, self.data, self.stop = path, rng, b"", False

    def run(self):
        fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
        opened = False
        while True:
            try:
                b = os.read(fd, self.r.choice([1, 64, 700, 4096]))
            except BlockingIOError:
                opened = True
                b = None
            if b:
                opened = True
                self.data += b
                self.moved += len(b)
            elif b == b"" and (opened or self.stop):
                break
            if self.r.random() < 0.2 or not b:
                if self.stop and not b:
                    break
                time.sleep(self.r.random() * 0.004)
        os.close(fd)


def export_model(exe, model, to, extra=()):
    """export-model prints JSON (to standard output); the text goes to `to`."""
    r = run([exe, *extra, "export-model", model])
    with open(to, "wb") as f:
        f.write(r.out)
    return r


def import_model(exe, src, to, extra=()):
    return run([exe, *extra, "import-model", src, "-o", to])
