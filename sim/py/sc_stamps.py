"""Timestamp files: readers (S01), conversion (S02), conversion under storage faults (S03), statistics (S04)."""
import inspect, io, os, random, re, runpy, struct, sys
from fractions import Fraction

import numpy as np
import tqdm

import seams
from engine import Scenario
from seams import call
from sc_epochs import RES, UNITS, exact, expected_time, gen_buf, gen_short, gen_times
import fpfind
from fpfind.lib import parse_timestamps as P

tqdm.tqdm.monitor_interval = 0
TOP = 1 << 54


def encode(fmt, legacy, words):
    """words: 64-bit event words"""
    if fmt == 1:
        return b"".join(struct.pack("<II", *((v >> 32, v & 0xFFFFFFFF) if legacy else (v & 0xFFFFFFFF, v >> 32))) for v in words)
    if fmt == 2:
        return "".join("%016x\n" % v for v in words).encode()
    return "".join("%08x\n%08x\n" % (v & 0xFFFFFFFF, v >> 32) for v in words).encode()


def decode(fmt, legacy, data):
    """Event words of a file, None if malformed."""
    try:
        if fmt == 1:
            if len(data) % 8:
                return None
            out = []
            for i in range(0, len(data), 8):
                a, b = struct.unpack_from("<II", data, i)
                out.append((a << 32 | b) if legacy else (b << 32 | a))
            return out
        lines = data.decode().split("\n")
        if lines.pop() != "":
            return None
        v = [int(x, 16) for x in lines]
        if fmt == 2:
            return v
        if len(v) % 2:
            return None
        return [v[i] | v[i + 1] << 32 for i in range(0, len(v), 2)]
    except ValueError:
        return None


EVENT_SIZE = [18, 8, 17]
READ = [P.read_a0, P.read_a1, P.read_a2]
SREAD = [P.sread_a0, P.sread_a1, P.sread_a2]
WRITE = [P.write_a0, P.write_a1, P.write_a2]
SWRITE = [P.swrite_a0, P.swrite_a1, P.swrite_a2]


class block_size:
    """Sets the default block size of the streaming readers, where they have one."""

    def __init__(self, n):
        self.n, self.saved = n, []

    def __enter__(self):
        if not self.n:
            return
        for f in SREAD:
            try:
                par = [p for p in inspect.signature(f).parameters.values() if p.default is not inspect.Parameter.empty]
                names = [p.name for p in par]
                i = names.index("buffer_size")
                d = list(f.__defaults__)
                if len(d) == len(par):
                    self.saved.append((f, f.__defaults__))
                    d[i] = self.n
                    f.__defaults__ = tuple(d)
            except (ValueError, TypeError, AttributeError):
                pass

    def __exit__(self, *a):
        for f, d in self.saved:
            f.__defaults__ = d


def gen_events(rng, n, junk=0.2):
    ts = gen_times(rng, n, TOP)
    j = rng.random() < junk
    return [[t, rng.choice([0, 1, 2, 4, 8, rng.randrange(16)]), rng.randrange(64) if j else 0] for t in ts]


def word(e):
    return (e[0] << 10) | (e[2] << 4) | e[1]


def gen_n(rng):
    return rng.choice([0, 1, 1, 2, 3, 4, 7, 12, 25, 60])


def gen_big(rng, plan, chance=0.0008):
    """Now and then a recording of several default-sized blocks; kept as (number, seed) in the plan."""
    plan["big"] = None
    if rng.random() < chance:
        plan["big"] = [100000 * rng.choice([1, 1, 2]) + rng.choice([-1, 0, 1, 2, rng.randrange(1, 50000)]), rng.randrange(1 << 30)]
        plan["events"] = []
        plan["short"], plan["buf"] = [], 8192
        if "filters" in plan:
            plan["filters"]["start"] = plan["filters"]["end"] = None
            plan["block"] = rng.choice([0, 0, 50000])
    elif rng.random() < 0.012:
        plan["big"] = [int(10 ** rng.uniform(2, 3.7)) if rng.random() < 0.7 else rng.choice([128, 256, 512, 1000, 1024, 4096, 8192 // 8, 8192 // 18, 8192 // 17]) + rng.choice([-1, 0, 1]), rng.randrange(1 << 30)]
        plan["events"] = []
        plan["short"] = [] if rng.random() < 0.7 else [0, 4096, rng.choice([1000, 513])]
        if "filters" in plan:
            plan["filters"]["start"] = plan["filters"]["end"] = None
            plan["block"] = rng.choice([0, 100, 128, 256, 1000, 999])
    return plan


def expand(plan):
    if plan.get("big"):
        n, seed = plan["big"]
        r = random.Random(seed)
        t, plan["events"] = r.randrange(1 << 50 if r.random() < 0.5 else TOP - 5000 * n), []
        for _ in range(n):
            t += r.randrange(1, 5000)
            plan["events"].append([t, r.choice([1, 1, 2, 4, 8, 0, 9]), 0])


def roll(rng, plan, chance=0.1):
    """The device counter rolls over inside the recording: no longer ascending, fine unless filtered by time."""
    ev = plan["events"]
    if len(ev) > 1 and rng.random() < chance:
        k = rng.randrange(1, len(ev))
        plan["events"] = ev[k:] + ev[:k]
        if "filters" in plan:
            plan["filters"]["start"] = plan["filters"]["end"] = None


def gen_filters(rng, ev):
    f = {"pattern": None, "mask": False, "invert": False, "start": None, "end": None}
    if rng.random() < 0.5:
        f["pattern"] = rng.choice([1, 2, 4, 8, 5, 10, 15, 0, rng.randrange(16)])
        f["mask"], f["invert"] = rng.random() < 0.6, rng.random() < 0.5
    if rng.random() < 0.5:
        for k in ("start", "end"):
            if rng.random() < 0.7:
                c = rng.choice([e[0] for e in ev] or [0]) / 256e9
                r = rng.random()
                f[k] = float(int(c) + rng.randrange(-1, 2)) if r < 0.4 else max(0.0, c + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 2)) if r < 0.9 else rng.choice([0.0, 80000.0])
                if r < 0.4 and ev and 0 < f[k] < 70000 and rng.random() < 0.5:  # one device unit beside the boundary
                    for _ in range(rng.choice([1, 2, 3])):
                        rng.choice(ev)[0] = int(f[k]) * 256 * 10 ** 9 + rng.choice([-1, 1, 1, -1, 0, 2])
                    ev.sort(key=lambda e: e[0])
    return f


def filters_ok(ev, f):
    for k in ("start", "end"):
        b = f[k]
        if b is None:
            continue
        if b < 0:
            return False
        x = Fraction(b) * 256 * 10 ** 9
        whole = b == int(b)
        for e in ev:
            d = abs(e[0] - x)
            if d <= x / 2 ** 51 and not whole:  # whole seconds are exact in every representation
                return False
    return True


def select(ev, f):
    out = []
    for t, p in ((e[0], e[1]) for e in ev):
        if f["pattern"] is not None:
            pat = f["pattern"]
            if not f["mask"]:
                if (p == pat) == f["invert"]:
                    continue
            elif not f["invert"]:
                if not p & pat:
                    continue
                p &= pat
            else:
                if p and not p & ~pat:
                    continue
                p &= ~pat
        x = Fraction(t, 256 * 10 ** 9)
        if f["start"] is not None and x < Fraction(f["start"]):
            continue
        if f["end"] is not None and x > Fraction(f["end"]):
            continue
        out.append((t, p))
    return out


def filter_args(f):
    a = []
    if f["pattern"] is not None:
        a += ["--pfilter-pattern", str(f["pattern"])]
        a += ["--pfilter-mask"] * f["mask"] + ["--pfilter-invert"] * f["invert"]
    for k in ("start", "end"):
        if f[k] is not None:
            a += [f"--tfilter-{k}", repr(f[k])]
    return a


def sorted_events(plan):
    ts = [e[0] for e in plan["events"]]
    if (plan.get("filters") or {"start": None, "end": None})["start"] is None and (plan.get("filters") or {"end": None})["end"] is None:
        ts = sorted(ts)
    return ts == sorted(ts) and all(len(e) == 3 and 0 <= e[0] < TOP and 0 <= e[1] < 16 for e in plan["events"])


def run_main(args, script=False):
    sys.argv = ["parse_timestamps"] + args
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    k, r = call(P.main) if not script else call(runpy.run_module, P.__name__, run_name="__main__")
    out = sys.stdout.getvalue()
    run_main.err = sys.stderr.getvalue()
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    if k == "exit" and r in (0, None):
        k = "ok"
    return k, r, out


def progress(plan):
    """Violation if progress is shown although it was not wanted."""
    m = re.search(r"\d+it \[|\d+/\d+ \[|\d%\|", run_main.err) if plan["quiet"] else None
    return [("not-quiet", f"progress indicator shown with -q: {run_main.err[m.start():][:60]!r}")] if m else []


class S01(Scenario):
    quick, thorough = 16000, 500000
    fixed_lists = ("short",)
    components = "real: read_a*, sread_a*, write_a*; simulated: file layer (short reads, block sizes), interleaving of several readers"

    def gen(self, rng):
        fmt = rng.randrange(3)
        plan = {"fmt": fmt, "legacy": fmt == 1 and rng.random() < 0.5, "events": gen_events(rng, gen_n(rng)), "writer": rng.choice(["none", "ints", "float128", "stream"]),
                "wres": rng.choice(["PS4", "NS1"]), "short": gen_short(rng), "buf": gen_buf(rng), "faults": [], "streams": [], "schedule": []}
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan["streams"].append({"block": rng.choice([1, 2, 3, 5, 8, 64, 100000]), "res": rng.choice(list(RES)), "frac": rng.random() < 0.5})
        plan["schedule"] = [rng.randrange(len(plan["streams"])) for _ in range(rng.randrange(0, 120))]
        plan["whole"] = [{"res": rng.choice(list(RES)), "frac": rng.random() < 0.5}]
        roll(rng, plan)
        gen_big(rng, plan, 0.0004)
        if plan["big"] and plan["big"][0] < 90000:
            for x in plan["streams"]:
                x["block"] = rng.choice([64, 100, 128, 512, 1000, 1024, 100000])
            if rng.random() < 0.5:
                plan["schedule"] = [i for _ in range(100) for i in range(len(plan["streams"]))]
        elif plan["big"]:
            plan["streams"] = plan["streams"][:1]
            plan["streams"][0]["block"] = rng.choice([99999, 100000, 65536])
            plan["schedule"] = [0] * 5
        return plan

    def valid(self, plan):
        return sorted_events(plan) and all(s < len(plan["streams"]) for s in plan["schedule"]) and all(s and s["block"] > 0 and s["res"] in RES for s in plan["streams"] + [dict(s or {}, block=1) for s in plan["whole"]])

    def check(self, got_t, got_p, ev, s, what, part):
        if len(got_t) != len(got_p):
            return f"{what}: {len(got_t)} timestamps but {len(got_p)} patterns"
        if len(got_t) > len(ev) or (not part and len(got_t) < len(ev)):
            return f"{what}: {len(got_t)} of {len(ev)} events"
        for i, (t, p) in enumerate(zip(got_t, got_p)):
            want = expected_time(ev[i][0], s["res"], s["frac"])
            if exact(t) != want or int(p) != ev[i][1]:
                return f"{what} event {i}: {t},{p}, expected {want},{ev[i][1]} ({s})"

    def run(self, plan, w):
        expand(plan)
        fmt, leg, ev = plan["fmt"], plan["legacy"], plan["events"]
        path = os.path.join(w.exec_dir, "events")
        w.shape(fmt, leg, plan["writer"], len(plan["streams"]))
        if plan["writer"] == "none":
            with seams._real_open(path, "wb") as f:
                f.write(encode(fmt, leg, [word(e) for e in ev]))
        else:
            ps = [e[1] for e in ev]
            if plan["writer"] == "ints":
                res = "PS4"
                ts = [e[0] for e in ev]
            else:
                res = plan["wres"]
                ts = np.array([e[0] for e in ev], dtype=np.float128) * UNITS[res] / 256
            if plan["writer"] == "stream":
                n = plan["streams"][0]["block"]
                blocks = [(ts[i:i + n], np.array(ps[i:i + n], dtype=np.uint32)) for i in range(0, len(ps), n)]
                k, r = call(SWRITE[fmt], path, iter(blocks), len(blocks), leg, RES[res], False)
            else:
                k, r = call(WRITE[fmt], path, ts, ps, leg, RES[res])
            if k != "ok":
                return [("write-failed", f"writing {len(ev)} events in format a{fmt} failed: {r!r}")]
            for t in w.top:
                t.close()
            with seams._real_open(path, "rb") as f:
                got = decode(fmt, leg, f.read())
            if got != [word([e[0], e[1], 0]) for e in ev]:
                return [("written-wrong", f"a{fmt} legacy={leg} writer ({plan['writer']}, {res}): file holds {got and got[:3]}... for {ev[:3]}...")]
        for s in plan["whole"]:
            k, r = call(READ[fmt], path, leg, RES[s["res"]], s["frac"])
            w.note(k)
            if k != "ok":
                return [("read-failed", f"read_a{fmt} failed on {len(ev)} events: {r!r}")]
            e = self.check(list(r[0]), list(r[1]), ev, s, f"read_a{fmt}", False)
            if e:
                return [("wrong-events", e)]
        live, acc, done = [], [], []
        for s in plan["streams"]:
            k, r = call(SREAD[fmt], path, leg, RES[s["res"]], s["frac"], s["block"])
            if k != "ok":
                return [("stream-failed", f"sread_a{fmt}: {r!r}")]
            live.append(iter(r[0]))
            acc.append(([], []))
            done.append(False)
        for i in plan["schedule"]:
            if done[i]:
                continue
            w.ev("next", str(i))
            k, r = call(next, live[i], None)
            if k != "ok":
                return [("stream-failed", f"sread_a{fmt} block of {plan['streams'][i]['block']}: {k} {r!r}")]
            if r is None:
                done[i] = True
                continue
            acc[i][0].extend(r[0])
            acc[i][1].extend(r[1])
        for i, s in enumerate(plan["streams"]):
            w.stats["streams_completed" if done[i] else "streams_abandoned"] += 1
            e = self.check(acc[i][0], acc[i][1], ev, s, f"sread_a{fmt}", not done[i])
            if e:
                return [("wrong-events", e)]
            w.note([str(x) for x in acc[i][0][:8]])
        return []


def conv_plan(rng):
    plan = {"A": rng.randrange(3), "a": rng.randrange(3), "X": rng.random() < 0.5, "x": rng.random() < 0.5, "inmemory": rng.random() < 0.3,
            "quiet": rng.random() < 0.9, "events": gen_events(rng, gen_n(rng)), "block": rng.choice([1, 2, 3, 4, 7, 16, 1000, 0]),
            "short": gen_short(rng), "buf": gen_buf(rng), "faults": [], "filters": {}}
    while True:
        plan["filters"] = gen_filters(rng, plan["events"]) if rng.random() < 0.6 else {"pattern": None, "mask": False, "invert": False, "start": None, "end": None}
        if filters_ok(plan["events"], plan["filters"]):
            return plan


def conv_args(plan):
    return (["-A%d" % plan["A"]] + ["-X"] * plan["X"] + ["-a%d" % plan["a"]] + ["-x"] * plan["x"] + ["-q"] * plan["quiet"] +
            ["--inmemory"] * plan["inmemory"] + filter_args(plan["filters"]))


class S02(Scenario):
    quick, thorough = 14000, 400000
    fixed_lists = ("short",)
    fixed_dicts = ("filters",)
    components = "real: parse_timestamps.main and everything below it; simulated: file layer (short reads/writes, block size, existing/identical output files)"

    def gen(self, rng):
        plan = conv_plan(rng)
        plan["old"] = rng.random() < 0.2
        plan["script"] = rng.random() < 0.03
        plan["same"] = rng.choice(["same", "dot", "symlink", "hardlink"]) if rng.random() < 0.04 else None
        roll(rng, plan)
        return gen_big(rng, plan)

    def valid(self, plan):
        return sorted_events(plan) and filters_ok(plan["events"], plan["filters"])

    def run(self, plan, w):
        expand(plan)
        inp, outp = os.path.join(w.exec_dir, "in.dat"), os.path.join(w.exec_dir, "out.dat")
        raw = encode(plan["A"], plan["X"], [word(e) for e in plan["events"]])
        with seams._real_open(inp, "wb") as f:
            f.write(raw)
        if plan["old"]:
            with seams._real_open(outp, "wb") as f:
                f.write(b"0123456789abcdef\n" * 300)
        same = plan["same"]
        if same:
            if os.path.exists(outp):
                os.unlink(outp)
            if same == "symlink":
                os.symlink(inp, outp)
            elif same == "hardlink":
                os.link(inp, outp)
            else:
                outp = inp if same == "same" else os.path.join(w.exec_dir, ".", "in.dat")
        w.shape(plan["A"], plan["X"], plan["a"], plan["x"], plan["inmemory"], bool(filter_args(plan["filters"])), same)
        with block_size(plan["block"]):
            k, r, _ = run_main(conv_args(plan) + [inp, outp], plan.get("script", False))
        for t in w.top:
            try:
                t.close()
            except Exception:
                pass
        w.note(k)
        with seams._real_open(inp, "rb") as f:
            now = f.read()
        if same:
            w.stats["output_is_input"] += 1
            if k != "ok":
                return [] if now == raw else [("input-modified", f"refused to convert {same} but destroyed the input")]
        elif now != raw:
            return [("input-modified", "the input file changed")]
        if k != "ok":
            return [("failed", f"conversion a{plan['A']}->a{plan['a']} {plan['filters']} failed: {k} {r!r}")]
        with seams._real_open(outp, "rb") as f:
            data = f.read()
        if progress(plan):
            return progress(plan)
        got = decode(plan["a"], plan["x"] if plan["a"] == 1 else False, data)
        want = [t << 10 | p for t, p in select(plan["events"], plan["filters"])]
        w.note(len(want))
        w.stats["events_converted"] += len(want)
        if got != want:
            key = "input-wiped" if same else "wrong-output"
            n = next((i for i, (a, b) in enumerate(zip(got or [], want)) if a != b), min(len(got or []), len(want)))
            return [(key, f"a{plan['A']}{'X' if plan['X'] else ''}->a{plan['a']}{'x' if plan['x'] else ''} inmemory={plan['inmemory']} block={plan['block']} "
                     f"{filter_args(plan['filters'])}: {len(got) if got is not None else 'malformed'} events written, {len(want)} expected, first difference at {n}")]
        return []


class S03(Scenario):
    quick, thorough = 16000, 500000
    fixed_lists = ("short",)
    fixed_dicts = ("filters",)
    components = "real: parse_timestamps.main and everything below it; simulated: file layer (EIO, ENOSPC, EDQUOT, short transfers, truncated input, process death)"

    def gen(self, rng):
        plan = conv_plan(rng)
        n = rng.choice([1, 2, 3, 7, 20, 60])
        plan["events"] = gen_events(rng, n)
        plan["filters"] = {"pattern": None, "mask": False, "invert": False, "start": None, "end": None}
        if rng.random() < 0.3:
            plan["filters"] = gen_filters(rng, plan["events"])
            if not filters_ok(plan["events"], plan["filters"]):
                plan["filters"]["start"] = plan["filters"]["end"] = None
        plan["old"] = rng.random() < 0.2
        plan["cut"] = 0
        plan["capacity"] = None
        r = rng.random()
        size = 17 * n
        nio = 2 + size // min(plan["buf"], size)
        if r < 0.2:
            plan["cut"] = rng.randrange(1, EVENT_SIZE[plan["A"]] * n)
        elif r < 0.45:
            plan["faults"] = [{"op": rng.choice(["read", "read", "open"]), "role": "in", "n": rng.randrange(1, min(2 * nio, 60)), "kind": "EIO"}]
        elif r < 0.65:
            plan["faults"] = [{"op": rng.choice(["write", "write", "open", "close"]), "role": "out", "n": rng.randrange(1, min(nio + 1, 40)),
                               "kind": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "sticky": rng.random() < 0.5}]
            if plan["faults"][0]["op"] != "write":
                plan["faults"][0]["n"] = 1
        elif r < 0.8:
            plan["capacity"] = rng.randrange(size)
        elif r < 0.97:
            plan["faults"] = [{"op": "any", "n": rng.randrange(1, min(3 * nio, 100)), "kind": "crash", "arg": rng.randrange(64)}]
        else:
            plan["faults"] = [{"op": "any", "n": rng.randrange(1, min(3 * nio, 100)), "kind": "interrupt"}]
        plan["grow"], plan["shrink"] = [], None
        if rng.random() < 0.1:  # the input is still being written, or is cut, while it is converted
            plan["faults"], plan["capacity"], plan["cut"] = [], None, 0
            total, unit = EVENT_SIZE[plan["A"]] * n, EVENT_SIZE[plan["A"]] if rng.random() < 0.5 else 1
            nread = 3 + total // min(plan["buf"], total)
            if rng.random() < 0.8:
                at, num = 0, rng.randrange(1, 2 * nread)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    at += unit * rng.randrange(1 + (total - at) // unit)
                    plan["grow"].append([num, at])
                    num += rng.randrange(1, 4)
            else:
                plan["shrink"] = [rng.randrange(1, 2 * nread), unit * rng.randrange(1 + total // unit)]
        plan["misuse"] = rng.choice(["nothing", "no-output", "no-input", "directory", "format", "input-format", "no-format"]) if rng.random() < 0.03 else None
        if plan["misuse"]:
            plan["faults"], plan["capacity"], plan["cut"] = [], None, 0
            plan["grow"], plan["shrink"] = [], None
        return plan

    def concurrent(self, plan, w, inp, outp, raw):
        """Another process appends to the input, or cuts it, during the conversion."""
        size = EVENT_SIZE[plan["A"]]
        marks = sorted(min(p, len(raw)) for _, p in plan["grow"]) + [len(raw)]
        w.faults = [{"op": "read", "role": "in", "n": n, "kind": "append", "arg": raw[a:b].hex()}
                    for (n, _), a, b in zip(sorted(plan["grow"]), marks, marks[1:])]
        if plan["shrink"]:
            w.faults = [{"op": "read", "role": "in", "n": plan["shrink"][0], "kind": "truncate", "arg": min(plan["shrink"][1], len(raw))}]
        start = raw[:marks[0]] if plan["grow"] else raw
        with seams._real_open(inp, "wb") as f:
            f.write(start)
        with block_size(plan["block"]):
            k, r, _ = run_main(conv_args(plan) + [inp, outp])
        w.finish()
        w.note(k, type(r).__name__)
        with seams._real_open(inp, "rb") as f:
            end = f.read()
        data = None
        if os.path.exists(outp):
            with seams._real_open(outp, "rb") as f:
                data = f.read()
            w.note(len(data))
        what = f"a{plan['A']}->a{plan['a']} inmemory={plan['inmemory']} block={plan['block']} input changed while it was read"
        if k in ("hang", "crash"):
            return [("hang", what)]
        if end != raw[:len(end)]:
            return [("input-modified", what)]
        whole = plan["grow"] and start and all(m % size == 0 for m in marks)  # a reader may be inside an event when the file is cut
        if k != "ok":
            w.stats["torn_concurrent"] += 1
            if whole:
                return [("failed", f"{what}: failed ({r!r}) although the file always held whole events")]
            want = encode(plan["a"], plan["x"], [t << 10 | p for t, p in select(plan["events"], plan["filters"])])
            return [] if data is None or want.startswith(data) or plan["old"] else [("not-a-prefix", what)]
        # the run saw the file at some length between the smallest and the largest it had
        least, most = min(len(start), len(end)) // size, (max(len(start), len(end)) + (plan["A"] != 1)) // size
        w.stats["converted_concurrent"] += 1
        for m in range(least, most + 1):
            if data == encode(plan["a"], plan["x"], [t << 10 | p for t, p in select(plan["events"][:m], plan["filters"])]):
                return []
        return [("wrong-output", f"{what}: the output is the conversion of no prefix with {least} to {most} events")]

    def misuse(self, plan, w, inp, outp, raw, old):
        m, args = plan["misuse"], conv_args(plan)
        w.stats["misuse_" + m] += 1
        if m == "no-input":
            os.unlink(inp)
        elif m == "directory":
            os.unlink(inp)
            os.mkdir(inp)
        args = {"nothing": [], "no-output": args + [inp], "format": args + ["-a7", inp, outp], "input-format": args + ["-A3", inp, outp],
                "no-format": [x for x in args if not x.startswith("-A")] + [inp, outp]}.get(m, args + [inp, outp])
        k, r, _ = run_main(args)
        w.finish()
        w.note(k)
        if k == "ok" or k == "hang":
            return [("misuse-accepted", f"'{m}': {k}, command line {args}")]
        if old is None and os.path.exists(outp) or old is not None and seams.slurp(outp) != old:
            return [("misuse-output", f"'{m}': refused, but the output file was created or changed")]
        if m not in ("no-input", "directory") and seams.slurp(inp) != raw:
            return [("input-modified", f"'{m}': the input file changed")]
        return []

    def valid(self, plan):
        return sorted_events(plan) and filters_ok(plan["events"], plan["filters"]) and plan["cut"] < EVENT_SIZE[plan["A"]] * max(len(plan["events"]), 1)

    def run(self, plan, w):
        inp, outp = os.path.join(w.exec_dir, "in.dat"), os.path.join(w.exec_dir, "out.dat")
        raw = encode(plan["A"], plan["X"], [word(e) for e in plan["events"]])
        ev, size = plan["events"], EVENT_SIZE[plan["A"]]
        if plan["cut"]:
            raw = raw[:plan["cut"]]
            # a text file that lacks only the newline of its last line is complete
            ev = ev[:(plan["cut"] + (plan["A"] != 1)) // size]
            if plan["cut"] % size and (plan["cut"] % size != size - 1 or plan["A"] == 1):
                w.hit("truncated_input")
        with seams._real_open(inp, "wb") as f:
            f.write(raw)
        old = b"0123456789abcdef\n" * 40 if plan["old"] else None
        if old:
            with seams._real_open(outp, "wb") as f:
                f.write(old)
        w.shape(plan["A"], plan["a"], plan["inmemory"], bool(plan["cut"]), plan.get("misuse"))
        if plan.get("misuse"):
            return self.misuse(plan, w, inp, outp, raw, old)
        if plan.get("grow") or plan.get("shrink"):
            return self.concurrent(plan, w, inp, outp, raw)
        with block_size(plan["block"]):
            k, r, _ = run_main(conv_args(plan) + [inp, outp])
        w.finish()
        w.note(k, type(r).__name__)
        hard = [x for x in w.delivered if not x.startswith("short")]
        if k == "hang":
            return [("hang", "conversion does not finish")]
        with seams._real_open(inp, "rb") as f:
            if f.read() != raw:
                return [("input-modified", f"the input file changed ({hard})")]
        if k == "ok" and hard:
            return [("success-after-fault", f"a{plan['A']}->a{plan['a']} inmemory={plan['inmemory']}: success reported although {hard}")]
        if k != "ok" and not hard:
            return [("failed", f"conversion failed without a fault: {k} {r!r}")]
        want = encode(plan["a"], plan["x"], [t << 10 | p for t, p in select(ev, plan["filters"])])
        if not os.path.exists(outp):
            return [] if hard else [("missing", "no output")]
        with seams._real_open(outp, "rb") as f:
            data = f.read()
        if plan["a"] != 1:
            data = data.lower()
        w.note(len(data))
        w.stats["failed_runs" if hard else "fault_not_reached"] += 1
        if not hard and data != want:
            return [("wrong-output", f"{len(data)} bytes written, {len(want)} expected")]
        if not want.startswith(data) and not (hard and old and data == old.lower()):
            n = next((i for i, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))
            return [("not-a-prefix", f"a{plan['A']}->a{plan['a']} inmemory={plan['inmemory']} after {hard}: output ({len(data)} bytes) is no prefix of the correct output ({len(want)} bytes), differs at byte {n}")]
        return []


LABELS = [("Total events", "total"), ("Channel 1", "c1"), ("Channel 2", "c2"), ("Channel 3", "c3"), ("Channel 4", "c4"),
          ("Multi-channel", "multi"), ("No channel", "none")]


class S04(Scenario):
    quick, thorough = 14000, 400000
    fixed_lists = ("short",)
    fixed_dicts = ("filters",)
    components = "real: parse_timestamps.main --print and everything below it; simulated: file layer (short reads, block size)"

    def gen(self, rng):
        plan = conv_plan(rng)
        if rng.random() < 0.15 and plan["events"]:  # all events at one instant
            plan["events"] = [[plan["events"][0][0]] + e[1:] for e in plan["events"]]
            plan["filters"]["start"] = plan["filters"]["end"] = None
        return gen_big(rng, plan)

    def valid(self, plan):
        ts = [e[0] for e in plan["events"]]
        return ts == sorted(ts) and S02.valid(self, plan)

    def run(self, plan, w):
        expand(plan)
        inp = os.path.join(w.exec_dir, "in.dat")
        with seams._real_open(inp, "wb") as f:
            f.write(encode(plan["A"], plan["X"], [word(e) for e in plan["events"]]))
        w.shape(plan["A"], plan["X"], plan["inmemory"], bool(filter_args(plan["filters"])), plan["block"])
        with block_size(plan["block"]):
            k, r, out = run_main(["-p"] + conv_args(plan) + [inp])
        sel = select(plan["events"], plan["filters"])
        w.note(k, len(sel))
        ctx = f"a{plan['A']} inmemory={plan['inmemory']} block={plan['block']} {filter_args(plan['filters'])}"
        if k != "ok":
            return [("no-report", f"{ctx}: no report for {len(sel)} selected events: {k} {r!r}")]
        w.stats["reports"] += 1
        if progress(plan):
            return progress(plan)
        m = re.search(r"size \(MB\)\s*:\s*(.*)$", out, re.M)
        if m and abs(float(m.group(1)) - os.path.getsize(inp) / 2 ** 20) > 0.00051:
            return [("wrong-size", f"{ctx}: file size {m.group(1)} MB reported for {os.path.getsize(inp)} bytes")]
        want = {"total": len(sel), "c1": sum(p & 1 != 0 for _, p in sel), "c2": sum(p & 2 != 0 for _, p in sel), "c3": sum(p & 4 != 0 for _, p in sel),
                "c4": sum(p & 8 != 0 for _, p in sel), "multi": sum(p not in (0, 1, 2, 4, 8) for _, p in sel), "none": sum(p == 0 for _, p in sel)}
        for label, key in LABELS if sel else LABELS[:1]:
            m = re.search(re.escape(label) + r"\s*:\s*(-?\d+)\s*$", out, re.M)
            if not m:
                return [("no-report", f"{ctx}: '{label}' missing from the report:\n{out}")]
            if int(m.group(1)) != want[key]:
                return [("wrong-count", f"{ctx}: {label} {m.group(1)}, true value {want[key]}")]
        if sel:
            m = re.search(r"patterns\s*:\s*\[(.*)\]", out)
            pats = [int(x) for x in re.findall(r"\d+", re.sub(r"u?int\d+|float\d+", "", m.group(1)))] if m else None
            if pats != sorted({p for _, p in sel}):
                return [("wrong-patterns", f"{ctx}: patterns {pats}, true {sorted({p for _, p in sel})}")]
            for label, t in (("start", sel[0][0]), ("end", sel[-1][0])):
                m = re.search(label + r"\s*:\s*(-?[\d.]+)\s*$", out, re.M)
                if not m or abs(Fraction(m.group(1)) - Fraction(t, 256 * 10 ** 9)) > Fraction(6, 10 ** 10):
                    return [("wrong-time", f"{ctx}: {label} {m and m.group(1)}, true {t / 256e9:.12f}")]
            m = re.search(r"Duration \(s\)\s*:\s*(-?[\d.]+)\s*$", out, re.M)
            if not m or abs(Fraction(m.group(1)) - Fraction(sel[-1][0] - sel[0][0], 256 * 10 ** 9)) > Fraction(6, 10 ** 10):
                return [("wrong-time", f"{ctx}: duration {m and m.group(1)}")]
            dur = Fraction(sel[-1][0] - sel[0][0], 256 * 10 ** 9)
            m = re.search(r"rate \(/s\)\s*:\s*(-?[\d.]+)\s*$", out, re.M)
            if dur > Fraction(1, 10000) and (not m or abs(int(m.group(1)) * dur / len(sel) - 1) > Fraction(1, 10 ** 6) + dur / len(sel)):
                return [("wrong-rate", f"{ctx}: event rate {m and m.group(1)}, true {float(len(sel) / dur)}")]
        return []
