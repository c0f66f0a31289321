"""Wall clock and epochs (T01), event generator (T02), first-run launcher (T03), detuned test files (T04)."""
import datetime, greenlet, importlib, importlib.util, io, os, random, runpy, secrets, select, shutil, signal, socket, stat, struct, subprocess, sys, tempfile, time
from fractions import Fraction

import seams
from engine import Scenario
from seams import call
import fpfind.lib.parse_epochs as PE
import fpfind.lib.generate_freqcd_testcase as G
import fpfind.lib.parse_timestamps as PT

EPOCH = Fraction(1 << 32, 8 * 10 ** 9)  # seconds
UTC = datetime.timezone.utc
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0845>-8:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-12>12", "<+14>-14",
         "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "SGT-8"]


def epoch_at(t):
    """Epoch containing instant t (seconds, exact)."""
    return int(Fraction(t) // EPOCH)


# ------------------------------------------------------------------ T01

class T01(Scenario):
    quick, thorough = 60000, 3000000
    det_runs = 400
    components = "real: date2epoch, epoch2date and the datetime module; simulated: wall clock (steps, jumps, advancing during calls) and time zone"

    def gen(self, rng):
        lo, hi = 31536000, 2208988800
        x = rng.random()
        if x < 0.4:
            start = rng.uniform(lo, hi)
        elif x < 0.8:  # next to the start of an epoch
            start = float(rng.randrange(int(lo / EPOCH), int(hi / EPOCH)) * EPOCH) + rng.choice([0, 2.5e-6, -2.5e-6, 1e-3, -1e-3, 0.25])
        else:  # next to a change of the clocks
            y = rng.randrange(1975, 2038)
            m, d = rng.choice([(3, 25), (3, 31), (10, 25), (10, 31), (11, 7), (4, 7), (9, 30)])
            start = datetime.datetime(y, m, d, tzinfo=UTC).timestamp() + rng.uniform(-2, 2) * 86400
        calls = []
        for _ in range(rng.randrange(2, 9)):
            x = rng.random()
            adv = rng.choice([0.0, 1e-6, 1e-3, 0.1, 0.5, 0.53687, 0.54, 3.0, rng.uniform(0, 4000)])
            if x < 0.15:
                adv = rng.choice([-1, 1]) * rng.choice([1.0, 3600.0, 86400.0 * 180])
            during = rng.choice([0.0, 0.0, 1e-7, 1e-4, 0.3])
            calls.append({"adv": adv, "during": during, "op": rng.choice(["now", "now", "now", "given", "aware", "start", "back"]),
                          "off": rng.choice([0, 60, -690, 840]), "e": rng.randrange(int(lo / EPOCH), int(hi / EPOCH))})
        return {"tz": rng.choice(ZONES), "start": start, "calls": calls}

    def valid(self, plan):
        return 1 <= plan["start"] < 2.3e9 and plan["tz"] in ZONES and all(-900 < c["off"] < 900 and 60000000 <= c["e"] < 1 << 32 and c["during"] >= 0 for c in plan["calls"])

    def run(self, plan, w):
        old = os.environ.get("TZ")
        os.environ["TZ"] = plan["tz"]
        time.tzset()
        try:
            return self.steps(plan, w)
        finally:
            if old is None:
                os.environ.pop("TZ")
            else:
                os.environ["TZ"] = old
            time.tzset()

    def steps(self, plan, w):
        now = [plan["start"], 0.0]

        def clock():
            now[0] += now[1]
            return now[0]
        w.clock = clock
        tol = Fraction(2, 10 ** 6)
        last = None  # (instant, epoch) of the previous reading of the current time
        w.shape(plan["tz"])
        for c in plan["calls"]:
            now[0] = min(max(now[0] + c["adv"], 31536000.0), 2.25e9)
            now[1] = c["during"]
            if c["adv"] < 0:
                last = None
                w.hit("clock_set_back")
            elif c["adv"] > 4000:
                w.hit("clock_jump_ahead")
            if c["during"]:
                w.hit("clock_advances_during_call")
            w.simtime += abs(c["adv"])
            t0 = now[0]
            op = c["op"]
            if op == "start":
                k, d = call(PE.epoch2date, f"{c['e']:08x}")
            elif op == "back":
                k, d = call(PE.epoch2date, f"{c['e']:08x}")
                if k == "ok":
                    k, d = call(PE.date2epoch, d)
            elif op == "now":
                k, d = call(PE.date2epoch)
            elif op == "given":
                when = datetime.datetime.fromtimestamp(t0)
                k, d = call(PE.date2epoch, when)
            else:
                when = datetime.datetime.fromtimestamp(t0, datetime.timezone(datetime.timedelta(minutes=c["off"])))
                k, d = call(PE.date2epoch, when)
            t1 = now[0]
            w.ev(op, k)
            w.note(str(d))
            if k != "ok":
                return [("raises", f"{op} at {t0!r} ({plan['tz']}): {k} {d!r}")]
            if op == "start":
                if not isinstance(d, datetime.datetime):
                    return [("type", f"epoch2date returns {d!r}")]
                u = d.astimezone(UTC) - datetime.datetime(1970, 1, 1, tzinfo=UTC)
                us = (u.days * 86400 + u.seconds) * 10 ** 6 + u.microseconds
                err = Fraction(us) - c["e"] * EPOCH * 10 ** 6
                if abs(err) > 1:
                    return [("epoch-start", f"epoch {c['e']:08x} is said to start {float(err):.3f} us off ({plan['tz']})")]
                continue
            try:
                got = int(d, 16)
            except (TypeError, ValueError):
                return [("type", f"{op} returns {d!r}")]
            if d != f"{got:08x}":
                return [("format", f"{op} returns {d!r}, not an epoch file name")]
            if op == "back":
                if abs(got - c["e"]) > 1:
                    return [("round-trip", f"epoch {c['e']:08x} comes back as {d} ({plan['tz']})")]
                continue
            lo, hi = epoch_at(Fraction(t0) - tol), epoch_at(Fraction(t1 if op == "now" else t0) + tol)
            if not lo <= got <= hi:
                return [("wrong-epoch", f"{op} at {t0!r}..{t1!r} ({plan['tz']}): epoch {d}, expected {lo:08x}..{hi:08x}")]
            if op == "now":
                if last and t0 >= last[0] and got < last[1]:
                    return [("decreases", f"epoch goes from {last[1]:08x} to {d} while the clock advances")]
                last = (t1, got)
            w.stats["epochs_checked"] += 1
        return []


# ------------------------------------------------------------------ T02

class Std(io.RawIOBase):
    """Standard stream under control of the plan."""

    def __init__(self, w, role, data=b"", chunks=()):
        super().__init__()
        self.w, self.role, self.data, self.chunks, self.pos, self.i = w, role, bytearray(data), list(chunks), 0, 0
        self.eofs = 0

    def readable(self): return self.role == "stdin"
    def writable(self): return self.role.startswith("stdout")

    def readinto(self, b):
        w = self.w
        f = w.step(self.role, "read")
        if f:
            w.raise_(f, self.role, "read")
        n = len(b)
        if self.chunks:
            n = min(n, self.chunks[self.i % len(self.chunks)])
            self.i += 1
        d = self.data[self.pos:self.pos + n]
        if n < len(b) and len(d) == n:
            w.hit("fragmented_stdin")
        if not d:
            self.eofs += 1
            if self.eofs > 200:
                raise seams.SimHang("reads standard input at its end again and again")
        self.pos += len(d)
        b[:len(d)] = d
        w.ev("read", self.role, len(b), len(d))
        return len(d)

    def write(self, b):
        w = self.w
        b = bytes(b)
        if w.dead:
            return len(b)
        f = w.step(self.role, "write")
        if f:
            w.raise_(f, self.role, "write")
        n = len(b)
        if self.chunks:
            n = max(1, min(n, self.chunks[self.i % len(self.chunks)]))
            self.i += 1
            if n < len(b):
                w.hit("short_write_to_stdout")
        self.data += b[:n]
        w.ev("write", self.role, len(b), n)
        return n


class Peer:
    """A second process running the same program in the same directory: a coroutine that takes turns with the
    first one at every operation, for as many operations as the plan says."""

    def __init__(self, w, turns, body):
        self.w, self.turns, self.i, self.left = w, turns, 0, turns[0]
        self.main = greenlet.getcurrent()
        self.saved = None
        self.done = self.started = self.first_done = False
        self.result = None
        self.child = greenlet.greenlet(self.work)
        self.body = body
        w.on_step = self.step

    def swap(self):
        cur = (sys.stdin, sys.stdout, sys.stderr, sys.argv, os.getpid)
        if self.saved:
            sys.stdin, sys.stdout, sys.stderr, sys.argv, os.getpid = self.saved
        self.saved = cur

    def work(self):
        self.result = self.body()
        self.done = True
        self.swap()

    def step(self):
        self.left -= 1
        if self.left > 0 or self.done or self.first_done:
            return
        self.i += 1
        self.left = self.turns[self.i % len(self.turns)]
        self.w.ev("turn", "second" if greenlet.getcurrent() is self.main else "first")
        self.w.hit("switched_process")
        self.swap()
        (self.child if greenlet.getcurrent() is self.main else self.main).switch()

    def finish(self):
        """The first process is over: let the second one finish."""
        self.first_done = True
        self.w.on_step = None
        if not self.done:
            self.swap()
            self.child.switch()


def event_words(legacy, events):
    out = b""
    for t, p in events:
        v = t << 10 | p
        out += struct.pack("<II", v >> 32, v & 0xFFFFFFFF) if legacy else struct.pack("<Q", v)
    return out


def gen_ts(rng):
    return rng.choice([lambda: rng.randrange(1 << 54), lambda: rng.randrange(1 << 20), lambda: (1 << rng.randrange(54)) - rng.randrange(2),
                       lambda: (1 << 54) - 1 - rng.randrange(3), lambda: rng.randrange(1 << 22) << 32, lambda: rng.choice([0, 1, 255, 256, 1 << 22, 1 << 32])])()


class T02(Scenario):
    quick, thorough = 50000, 2000000
    fixed_lists = ("short", "chunks", "out_chunks")
    det_runs = 200
    components = ("real: generate_freqcd_testcase.main and the reader below it; simulated: standard input and output (fragmentation, errors, interrupts), "
                  "file layer, random names")

    def gen(self, rng):
        mode = rng.choice(["list", "list", "list-out", "list-out", "file", "file", "stdin", "stdin", "prompt"])
        n = rng.choice([0, 1, 2, 3, 8, 40, 200]) if mode in ("file", "stdin") else rng.choice([1, 1, 2, 5, 30])
        plan = {"mode": mode, "legacy": rng.random() < 0.4, "events": [[max(0, gen_ts(rng)), rng.randrange(16)] for _ in range(n)],
                "chunks": [rng.choice([1, 3, 7, 8, 64, 4096]) for _ in range(rng.randrange(1, 4))] if rng.random() < 0.6 else [],
                "out_chunks": [rng.choice([1, 3, 7, 8, 64, 4096]) for _ in range(rng.randrange(1, 4))] if rng.random() < 0.4 else [],
                "short": [rng.choice([0, 1, 3, 8, 100]) for _ in range(rng.randrange(1, 4))] if rng.random() < 0.4 else [],
                "buf": rng.choice([8192, 8192, 16, 64]), "faults": [], "old": rng.random() < 0.5, "same": rng.random() < 0.15, "again": rng.random() < 0.2,
                "cut": 0, "other": None, "junk": rng.random() < 0.3, "clash": rng.random() < 0.3, "also_o": rng.random() < 0.2, "pos": rng.random() < 0.5, "script": rng.random() < 0.03}
        if rng.random() < 0.04 and mode.startswith("list"):
            plan["events"].append([(1 << 54) + rng.choice([0, 0, 1, rng.randrange(1 << 60)]), 1])
        if mode == "prompt" and rng.random() < 0.4:  # lines that are no number, before the given entry
            plan["typed"] = [[rng.randrange(n + 1), rng.choice(["abc", "", "12x", "1.5", "0x10", " ", "-", "1 2", "é"])] for _ in range(rng.randrange(1, 4))]
        if mode in ("file", "stdin") and rng.random() < 1 / 1500:
            plan.update(events=[[gen_ts(rng), 1] for _ in range(40)], repeat=rng.choice([3000, 3277, 4097]), faults=[], chunks=[], short=[], cut=0, out_chunks=[], buf=8192, other=None)
            return plan
        if rng.random() < 0.25 and mode != "prompt":
            plan["other"] = {"legacy": rng.random() < 0.4, "events": [[max(0, gen_ts(rng)), rng.randrange(16)] for _ in range(rng.choice([1, 2, 8, 40, 200]))],
                             "turns": [rng.choice([1, 1, 2, 3, 5, 9, 50]) for _ in range(rng.randrange(1, 8))], "pid": rng.randrange(1000, 30000)}
        elif rng.random() < 0.5:
            role, op = rng.choice([("stdin", "read"), ("stdout", "write"), ("in", "read"), ("in", "open"), ("out", "write"), ("out", "open"), ("out", "close"), (None, "any")])
            f = {"op": op, "n": rng.randrange(1, 14), "kind": rng.choice(["EIO", "interrupt", "ENOSPC", "interrupt"])}
            if role:
                f["role"] = role
            if op == "read":
                f["kind"] = rng.choice(["EIO", "interrupt"])
            plan["faults"] = [f]
        elif rng.random() < 0.1 and n and mode in ("file", "stdin"):
            plan["cut"] = rng.randrange(1, 8)
        return plan

    def valid(self, plan):
        o = plan.get("other")
        if plan.get("repeat", 1) < 1 or (plan.get("repeat", 1) > 1 and (o or plan["faults"] or plan["chunks"] or plan["short"] or plan["cut"] or plan["out_chunks"] or plan["buf"] < 8192)):
            return False
        if o and not (o["turns"] and all(t > 0 for t in o["turns"]) and all(0 <= t < 1 << 54 and 0 <= p < 16 for t, p in o["events"]) and not plan["faults"]):
            return False
        return all(t >= 0 and 0 <= p < 16 for t, p in plan["events"]) and (plan["events"] or plan["mode"] in ("file", "stdin")) and plan["mode"] in \
            ("list", "list-out", "file", "stdin", "prompt") and all(c > 0 for c in plan["chunks"] + plan["out_chunks"]) and \
            (not plan["cut"] or (plan["events"] and plan["mode"] in ("file", "stdin") and plan["cut"] < 8)) and (plan["mode"].startswith("list") or all(t < 1 << 54 for t, _ in plan["events"]))

    def run(self, plan, w):
        importlib.reload(G)  # a new process
        mode, legacy = plan["mode"], plan["legacy"]

        def put(n, d):
            with seams._real_open(os.path.join(w.exec_dir, n), "wb") as f:
                f.write(d)
        if plan["junk"]:
            put("freqcd.input", b"unrelated")
            put("0123456789_tempinput", b"unrelated")
        raw = event_words(legacy, [(t & ((1 << 54) - 1), p) for t, p in plan["events"]]) * plan.get("repeat", 1)
        raw = raw[:len(raw) - plan["cut"]]
        argv, stdin = [], b""
        times = [t & ((1 << 54) - 1) for t, _ in plan["events"]]
        want_out, want_file = None, None
        if mode.startswith("list"):
            argv = ["-t"] + [str(t) for t, _ in plan["events"]]
            ev = event_words(legacy, [(t, 1) for t in times])
            if mode == "list":
                want_out = ev
            else:
                want_file = ev
        elif mode == "file":
            put("events.dat", raw)
            argv = ["events.dat"]
        elif mode == "stdin":
            stdin = raw
            argv = ["-"]
        else:
            lines = [str(t) for t, _ in plan["events"]]
            for i, junk in reversed(plan.get("typed", [])):
                lines.insert(min(i, len(lines)), junk)
            stdin = "".join(f"{x}\n" for x in lines).encode()
            want_file = event_words(legacy, [(t, 1) for t in times])
        if mode in ("file", "stdin"):
            want_out = "".join(f"{t}\n" for t in times).encode() * plan.get("repeat", 1)
        o = []
        if mode in ("list-out", "prompt"):
            o = ["-o", "out.bin"]
        elif plan["also_o"] and mode in ("file", "stdin"):
            o = ["-o", "events.dat" if plan["same"] and mode == "file" else "other.bin"]
        if o and plan["old"] and o[1] != "events.dat":
            put(o[1], b"previous content " * 5)
        x = ["-x"] if legacy else []
        argv = (argv + o + x) if plan["pos"] and mode.startswith("list") else (o + x + argv)
        before = {n: seams.slurp(os.path.join(w.exec_dir, n)) for n in seams._real_listdir(w.exec_dir)}
        w.shape(mode, legacy, plan["clash"])
        real_hex, names = secrets.token_hex, random.Random(repr(plan["events"]))
        secrets.token_hex = lambda n=None: names.getrandbits(8 * (32 if n is None else n) or 1).to_bytes(32 if n is None else n or 1, "big").hex() if n != 0 else ""
        so, si, sa = sys.stdout, sys.stdin, sys.argv
        out_raw = Std(w, "stdout", chunks=plan["out_chunks"])
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(out_raw, plan["buf"]), "utf-8")
        sys.stdin = io.TextIOWrapper(io.BufferedReader(Std(w, "stdin", stdin, plan["chunks"]), 8192), "utf-8")
        sys.argv = ["generate_freqcd_testcase"] + argv
        se, sys.stderr = sys.stderr, io.StringIO()

        def process(main):
            k, r = call(main)
            if k == "exit" and r in (None, 0):
                k = "ok"
            try:  # end of the process
                sys.stdout.flush()
            except KeyboardInterrupt:
                k = "interrupt"
            except OSError as e:
                k, r = "error", e
            return k, r
        peer, o2 = None, plan.get("other")
        real_pid = os.getpid
        if o2:
            raw2 = event_words(o2["legacy"], o2["events"])
            out2 = Std(w, "stdout2")
            w.shape("two processes")

            def second():
                sys.stdin = io.TextIOWrapper(io.BufferedReader(Std(w, "stdin", raw2, [])), "utf-8")
                sys.stdout = io.TextIOWrapper(io.BufferedWriter(out2), "utf-8")
                sys.argv = ["generate_freqcd_testcase"] + ["-x"] * o2["legacy"] + ["-"]
                sys.stderr = io.StringIO()
                os.getpid = lambda: o2["pid"]
                spec = importlib.util.find_spec(G.__name__)
                g2 = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(g2)
                k2, r2 = process(g2.main)
                return k2, r2, bytes(out2.data)
            peer = Peer(w, o2["turns"], second)
        try:
            k, r = process(G.main if not plan.get("script") else lambda: runpy.run_module(G.__name__, run_name="__main__"))
            if peer:
                peer.finish()
        finally:
            os.getpid = real_pid
            w.dead = True  # whatever is still buffered is gone
            for s in (sys.stdout,):
                try:
                    s.close()
                except BaseException:
                    pass
            w.dead = False
            sys.stdout, sys.stdin, sys.argv, sys.stderr = so, si, sa, se
            secrets.token_hex = real_hex
        w.finish()
        got = bytes(out_raw.data)
        if peer:
            k2, r2, got2 = peer.result
            want2 = "".join(f"{t}\n" for t, _ in o2["events"]).encode()
            w.note(k2, type(r2).__name__, got2)
            w.stats["concurrent_invocations"] += 1
            if k2 != "ok" or got2 != want2:
                return [("disturbed", f"second process reading {len(o2['events'])} events from its standard input next to '{' '.join(argv)[:60]}': {k2} {r2!r}, "
                         f"prints {got2[:60]!r} instead of {want2[:60]!r}")]
        w.note(k, type(r).__name__, got)
        hard = [x for x in w.delivered if not x.startswith(("short", "frag"))]
        after = {n: seams.slurp(os.path.join(w.exec_dir, n)) for n in seams._real_listdir(w.exec_dir)}
        what = f"{' '.join(argv)[:80]} ({hard or 'no fault'})"
        if k == "hang":
            return [("hang", f"{what}: {r}")]
        for n, d in before.items():
            if n == "out.bin" or n == "other.bin":
                continue
            if after.get(n) != d:
                return [("input-modified", f"{what}: {n} {'changed' if n in after else 'is gone'}")]
        extra = set(after) - set(before) - set(o[1:])
        if extra:
            return [("left-behind", f"{what}: leaves {sorted(extra)}")]
        if plan["cut"]:
            if k == "ok":
                return [("success-on-torn-event", f"{what}: succeeds although the last event is incomplete")]
            return []
        if mode == "prompt":
            # the end of input raises; what was entered must be there, in order
            f = after.get("out.bin", b"")
            if not want_file.startswith(f) and not (hard and f == before.get("out.bin")):
                return [("wrong-events", f"{what}: file holds {f[:32].hex()}.. instead of {want_file[:32].hex()}..")]
            if not hard and f != want_file:
                return [("missing-events", f"{what}: {len(f) // 8} of {len(want_file) // 8} events")]
            return []
        if not hard and k != "ok":
            return [("failed", f"{what}: {k} {r!r}")]
        if want_out is not None:
            if not want_out.startswith(got) or (k == "ok" and got != want_out):
                return [("wrong-output", f"{what}: {'succeeds and ' if k == 'ok' else ''}prints {got[:60]!r} instead of {want_out[:60]!r} ({len(got)} of {len(want_out)} bytes)")]
        elif got:
            return [("stray-output", f"{what}: prints {got[:60]!r}")]
        if want_file is not None:
            f = after.get("out.bin", b"")
            if k == "ok" and f != want_file:
                return [("wrong-events", f"{what}: succeeds, file holds {f[:32].hex()}.. ({len(f)} bytes) instead of {want_file[:32].hex()}.. ({len(want_file)} bytes)")]
            if not want_file.startswith(f) and f != before.get("out.bin"):
                return [("wrong-events", f"{what}: file holds {f[:32].hex()}.. which is no prefix of {want_file[:32].hex()}..")]
        w.stats["failed_runs" if k != "ok" else "succeeded"] += 1
        return []


# ------------------------------------------------------------------ T04

DETUNE = os.path.join(os.path.dirname(os.path.abspath(PT.__file__)), "generate_freqdetuneg2.py")
DETUNE_DIR = "Clock-sync/20221007_freqdetuneg2"


class T04(Scenario):
    quick, thorough = 6000, 200000
    fixed_lists = ("short",)
    components = "real: generate_freqdetuneg2.py run as a script, read_a1, write_a1, write_a2; simulated: file layer (EIO, ENOSPC, EDQUOT, short transfers, truncated input, process death)"

    def setup(self, tmp):
        # last, unlike for a real script: the directory holds a logging.py that would hide the standard one
        sys.path.append(os.path.dirname(DETUNE))

    def gen(self, rng):
        n = rng.choice([1, 2, 3, 8, 30])
        t0 = rng.choice([0, 1, rng.randrange(1 << 40), rng.randrange(1 << 52)])
        span = rng.choice([10, 1 << 20, 1 << 36, 1 << 45, 1 << 52])
        ts = [t0] + sorted(t0 + rng.randrange(span) for _ in range(n - 1))
        pats = rng.choice([[1, 8], [1, 8], list(range(16)), [8], [1], [0, 2, 9]])
        plan = {"events": [[t, rng.choice(pats), rng.randrange(64) if rng.random() < 0.2 else 0] for t in ts], "faults": [], "capacity": None,
                "cut": None, "old": rng.random() < 0.3, "short": [rng.choice([0, 1, 3, 8, 13]) for _ in range(rng.choice([0, 0, 1, 3]))],
                "buf": rng.choice([8192, 8, 16, 5, 64])}
        r, size = rng.random(), 8 * n
        if r < 0.1:
            plan["cut"] = rng.randrange(size)
        elif r < 0.35:
            plan["faults"] = [{"op": rng.choice(["open", "write", "close"]), "role": "out", "n": rng.randrange(1, 12), "kind": rng.choice(["EIO", "ENOSPC", "EDQUOT"])}]
        elif r < 0.45:
            plan["faults"] = [{"op": rng.choice(["open", "read"]), "role": "in", "n": rng.randrange(1, 4), "kind": "EIO"}]
        elif r < 0.55:
            plan["capacity"] = rng.randrange(9 * size)
        elif r < 0.7:
            plan["faults"] = [{"op": "any", "n": rng.randrange(1, 60), "kind": rng.choice(["crash", "crash", "interrupt"]), "arg": rng.randrange(40)}]
        return plan

    def valid(self, plan):
        ts = [e[0] for e in plan["events"]]
        return bool(ts) and ts == sorted(ts) and ts[-1] < 1 << 53

    def run(self, plan, w):
        d = os.path.join(w.exec_dir, DETUNE_DIR)
        os.makedirs(d)
        src = os.path.join(d, "singletimestampnodelay.a1.dat")
        raw = b"".join(struct.pack("<II", v >> 32, v & 0xFFFFFFFF) for v in (t << 10 | x << 4 | p for t, p, x in plan["events"]))
        ev = [(t, p) for t, p, _ in plan["events"]]
        cut = plan["cut"] is not None
        if cut:
            raw = raw[:plan["cut"]]
            if plan["cut"] % 8:
                w.hit("truncated_input")
            ev = ev[:plan["cut"] // 8]
        with seams._real_open(src, "wb") as f:
            f.write(raw)
        names = ["c1_a2.dat"] + [f"c4e{k}.dat" for k in range(10, 2, -1)]
        if plan["old"]:
            for n in names:
                with seams._real_open(os.path.join(d, n), "wb") as f:
                    f.write(b"old" * 1000)
        w.shape(cut, plan["old"], len(plan["events"]))
        sys.argv = [DETUNE]
        k, r = call(runpy.run_path, DETUNE, run_name="__main__")
        w.finish()
        w.note(k, type(r).__name__)
        hard = [x for x in w.delivered if not x.startswith("short")]
        if k == "hang":
            return [("hang", "the script does not finish")]
        with seams._real_open(src, "rb") as f:
            if f.read() != raw:
                return [("input-modified", f"the source file changed ({hard})")]
        if k == "ok" and hard:
            return [("success-after-fault", f"success although {hard}")]
        if k != "ok" and not hard and ev:
            return [("failed", f"failed without a fault: {k} {r!r}")]
        if set(os.listdir(d)) - set(names) - {os.path.basename(src)}:
            return [("stray-file", f"unexpected files: {sorted(set(os.listdir(d)) - set(names))}")]
        w.stats["complete" if k == "ok" else "failed_runs"] += 1
        for n in names:
            want = [t for t, p in ev if p == (1 if n == "c1_a2.dat" else 8)]
            if not os.path.exists(os.path.join(d, n)):
                if k == "ok":
                    return [("missing", f"{n} was not written")]
                continue
            with seams._real_open(os.path.join(d, n), "rb") as f:
                data = f.read()
            if k != "ok" and data == b"old" * 1000:
                continue
            w.note(n, len(data))
            if n == "c1_a2.dat":
                full = "".join(f"{t << 10 | 1:016x}\n" for t in want).encode()
                if data.lower() != full and (k == "ok" or not full.startswith(data.lower())):
                    return [("wrong-output", f"{n}: {data[:80]!r}, expected {full[:80]!r} ({hard})")]
                continue
            ratio = Fraction(10) ** -int(n[3:-4])
            got = [hi << 32 | lo for hi, lo in struct.iter_unpack("<II", data[:len(data) // 8 * 8])]
            if k == "ok" and (len(data) % 8 or len(got) != len(want)) or len(got) > len(want):
                return [("wrong-output", f"{n}: {len(data)} bytes for {len(want)} events of channel 4")]
            for i, v in enumerate(got):
                x = ev[0][0] + (want[i] - ev[0][0]) * (1 + ratio)
                if v & 1023 != 8 or abs((v >> 10) - x) > 3 + Fraction(want[i] - ev[0][0], 1 << 51):
                    return [("wrong-output", f"{n}: event {i} at {v >> 10} pattern {v & 1023}, expected {float(x)} pattern 8")]
        return []


# ------------------------------------------------------------------ T03

GATED = ("rm", "mv", "cp", "install", "ln", "mktemp", "chmod", "cat", "touch", "python3", "gcc", "cc", "clang", "c99", "mkdir", "rmdir", "sleep")
UID = 64123


class T03(Scenario):
    quick, thorough = 2000, 60000
    fixed_dicts = ()
    det_runs = 30
    cpu_limit = 100
    components = ("real: freqcd and _postinstall scripts run by /bin/sh with coreutils, procps and awk in a scratch installation, as an unprivileged user; simulated: "
                  "compiler (writes a stand-in program in two parts), scheduling of the commands of all concurrent launchers, failures and kills of commands and launchers")
    rule = ("One case = one seeded plan (invocations, order of the commands of concurrent launchers, failures, kills, interrupts); non-trivial: more than three "
            "scheduled commands; distinct: by the sequence of (launcher, command, decision) and how launchers ended.")
    assumptions = ["dash, coreutils, procps and awk of the sandbox", "a command of the launcher is atomic except the compiler and copies (cp, install, mv from the temporary directory), which write in two parts"]

    def setup(self, tmp):
        os.chmod(tmp, 0o711)
        self.dir = tempfile.mkdtemp(prefix="t3", dir=tmp)
        os.chmod(self.dir, 0o711)
        self.repo = os.environ.get("REPO", "/repo")
        os.makedirs(os.path.join(self.dir, "gate"))
        here = os.path.join(os.environ["SIM_HERE"], "sim/c")
        for n in ("gate", "probe"):
            b = subprocess.run(["gcc", "-O1", "-o", os.path.join(self.dir, n + "_bin"), os.path.join(here, n + ".c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b.returncode:
                print("cannot build the stand-ins:\n" + b.stdout.decode(errors="replace")[-2000:])
                sys.exit(2)
        for n in GATED:
            shutil.copy(os.path.join(self.dir, "gate_bin"), os.path.join(self.dir, "gate", n))
        self.gate = os.path.join(self.dir, "gate")
        self.probe = os.path.join(self.dir, "probe_bin")
        with seams._real_open(self.probe, "rb") as f:
            self.probe_bytes = f.read()
        src = os.path.join(self.repo, "src/fpfind")
        self.src = src
        with seams._real_open(os.path.join(src, "freqcd"), "rb") as f:
            self.stub = f.read()
        self.files = {}
        for base, ds, fs in os.walk(src):
            for f in fs:
                p = os.path.join(base, f)
                rel = os.path.relpath(p, src)
                if "__pycache__" in rel or f == "freqcd_path" or os.path.islink(p):
                    continue
                with seams._real_open(p, "rb") as h:
                    self.files[rel] = (h.read(), stat.S_IMODE(os.stat(p).st_mode))

    def gen(self, rng):
        n = rng.choice([1, 1, 2, 2, 2, 3, 4])
        plan = {"launches": [], "sched": [rng.randrange(8) for _ in range(rng.randrange(1, 60))], "faults": [],
                "dir": rng.choice([""] * 4 + ["my env", "a*b [x]", "x  y", "o'brien", "$HOME", "q\"r", "back\\nslash", "é", "-rf x", "l" * 120, ";exit"]),
                "columns": rng.choice(["", "", "80", "20"]), "near": rng.choice(["", "", "", "fpfind.py", "contextlib.py", "fpfind/__init__.py", "gcc", "freqcd.c"])}
        x = rng.random()
        if x < 0.2:
            plan["sched"] = []  # one after the other
        elif x < 0.35:
            plan["sched"] = list(range(8)) * 4  # in turn
        for _ in range(n):
            plan["launches"].append(self.launch(rng))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            plan["faults"].append({"launch": rng.randrange(n), "n": rng.randrange(1, 9) if rng.random() < 0.6 else rng.randrange(4, 8),
                                   "kind": rng.choice(["fail", "fail", "kill", "killall", "killall", "interrupt", "nocc"])})
        return plan

    def launch(self, rng):
        return {"cwd": rng.choice(["home", "home", "bin", "lib/fpfind", "."]), "via": rng.choice(["abs", "abs", "rel", "path", "link", "dots"]),
                "args": [rng.choice(["-x", "-f", "123456", "a b", "", "*", "-rc7", "$HOME", "-o out", "é"]) for _ in range(rng.randrange(0, 4))],
                "stdin": rng.choice(["", "x", "some events\nmore"])}

    def valid(self, plan):
        return 1 <= len(plan["launches"]) <= 4 and "/" not in plan.get("dir", "") and all(f["n"] >= 1 and 0 <= f["launch"] < len(plan["launches"]) for f in plan["faults"]) and \
            all(l["cwd"] in ("home", "bin", "lib/fpfind", ".") for l in plan["launches"]) and all(0 <= s < 8 for s in plan["sched"])

    # --- one launcher
    def start(self, root, i, l, sock, plan):
        life_r, life_w = os.pipe()
        os.set_inheritable(life_w, True)
        cwd = os.path.join(root, l["cwd"])
        prog = os.path.join(root, "bin", "freqcd")
        exe = {"abs": prog, "rel": os.path.relpath(prog, cwd), "path": prog, "link": os.path.join(root, "home", "fc"),
               "dots": os.path.join(root, "lib", "..", "bin", "freqcd")}[l["via"]]
        if "/" not in exe:
            exe = "./" + exe
        argv0 = "freqcd" if l["via"] == "path" else exe
        env = {"PATH": f"{self.gate}:/usr/local/bin:/usr/bin:/bin:{root}/bin", "PYTHONPATH": os.path.join(root, "lib"), "GATE_SOCK": sock, "GATE_ID": str(i),
               "GATE_PROG": self.probe, "GATE_SRC1": os.path.join(root, "ref1"), "GATE_SRC2": os.path.join(root, "ref2"), "HOME": os.path.join(root, "home"),
               "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PROBE_ENV": f"v{i}", "TMPDIR": os.path.join(root, "tmp"), "PWD": cwd}
        if plan.get("columns"):
            env["COLUMNS"] = plan["columns"]
        inp = os.path.join(root, "io", f"in{i}")
        with seams._real_open(inp, "wb") as f:
            f.write(l["stdin"].encode())
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                fi = os.open(inp, os.O_RDONLY)
                fo = os.open(os.path.join(root, "io", f"out{i}"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                fe = os.open(os.path.join(root, "io", f"err{i}"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fi, 0)
                os.dup2(fo, 1)
                os.dup2(fe, 2)
                os.dup2(life_w, 3)
                os.set_inheritable(3, True)
                os.closerange(4, 64)
                os.setgroups([])
                os.setgid(UID)
                os.setuid(UID)
                os.chdir(cwd)
                for s in (signal.SIGINT, signal.SIGPIPE, signal.SIGPROF):
                    signal.signal(s, signal.SIG_DFL)
                try:
                    os.execve(exe, [argv0] + l["args"], env)
                except OSError as e:
                    if e.errno == 8:  # as shells do for a file without known format
                        os.execve("/bin/sh", ["sh", exe] + l["args"], env)
                    os.write(2, str(e).encode())
                    os._exit(126)
            except BaseException as e:
                try:
                    os.write(2, ("start: %r" % e).encode())
                finally:
                    os._exit(99)
        os.close(life_w)
        return {"pid": pid, "life": life_r, "cwd": cwd, "i": i, "conn": None, "cmd": None, "steps": 0, "faults": [], "status": None, "l": l, "gcc": 0, "nocc": False}

    def drive(self, w, root, launches, sched, faults, check, plan):
        """Run the launchers under the given schedule; returns them with their outcome."""
        sock = os.path.join(os.path.realpath(w.exec_dir), "s")
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        srv.bind(sock)
        os.chmod(sock, 0o777)
        srv.listen(16)
        conns = {}
        L = [None] * len(launches)
        pending = list(range(len(launches)))
        k = 0
        try:
            while True:
                waiting = [x["i"] for x in L if x and x["cmd"]]
                choices = sorted(waiting + pending)
                if not choices:
                    break
                c = choices[sched[k % len(sched)] % len(choices)] if sched and k < 400 else choices[0]
                k += 1
                if c in pending:
                    pending.remove(c)
                    L[c] = self.start(root, c, launches[c], sock, plan)
                    w.ev("start", c)
                else:
                    x = L[c]
                    x["steps"] += 1
                    f = next((f for f in faults if f["launch"] == c and f["n"] == x["steps"]), None)
                    kind = f["kind"] if f else "go"
                    cmd, conn = x["cmd"], x["conn"]
                    if kind == "nocc":  # from here on the compiler always fails
                        x["nocc"] = True
                        kind = "go"
                    if x["nocc"] and kind == "go" and cmd.startswith("gcc"):
                        kind = "fail"
                        w.hit("compiler_always_fails")
                    if x["steps"] > 300:
                        return L, ("never-ends", f"launcher {c} has run {x['steps']} commands without running the program or reporting a failure, after {x['faults'][:3]}")
                    x["cmd"] = None
                    w.ev("step", c, cmd, kind)
                    if cmd.startswith("gcc"):
                        x["gcc"] += 1
                    if kind != "go":
                        w.hit(f"{kind}_{cmd.replace(' ', '_')}")
                        x["faults"].append((kind, cmd))
                    if kind in ("killall", "interrupt"):
                        os.killpg(x["pid"], signal.SIGKILL if kind == "killall" else signal.SIGINT)
                        conn.close()
                        conns.pop(conn.fileno(), None)
                        x["conn"] = None
                    else:
                        conn.send({"go": b"g", "fail": b"f", "kill": b"k"}[kind])
                x = L[c]
                # until this launcher asks again or is gone
                end = seams._real_time() + 30
                while x["status"] is None and x["cmd"] is None:
                    rd = [srv, x["life"]] + ([x["conn"]] if x["conn"] else [])
                    r, _, _ = select.select(rd, [], [], max(0.0, end - seams._real_time()))
                    if not r:
                        os.killpg(x["pid"], signal.SIGKILL)
                        raise seams.SimHang(f"launcher {c} neither runs a command nor ends")
                    if srv in r:
                        conn, _ = srv.accept()
                        m = conn.recv(5000).decode(errors="replace").split("\t")
                        if m and m[0] == str(c):
                            if x["conn"]:
                                x["conn"].close()
                            x["conn"] = conn
                            x["cmd"] = f"{m[1]} {m[2]}".strip()
                        else:
                            conn.close()
                        continue
                    if x["conn"] and x["conn"] in r:
                        m = x["conn"].recv(5000).decode(errors="replace").split("\t")
                        if len(m) < 3:
                            x["conn"].close()
                            x["conn"] = None
                        else:
                            x["cmd"] = f"{m[1]} {m[2]}".strip()
                        continue
                    if x["life"] in r:
                        _, st = os.waitpid(x["pid"], 0)
                        x["status"] = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
                        os.close(x["life"])
                        x["life"] = None
                        w.ev("end", c, x["status"])
                bad = check()
                if bad:
                    return L, bad
            return L, None
        finally:
            for x in L:
                if x and x["status"] is None:
                    try:
                        os.killpg(x["pid"], signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.waitpid(x["pid"], 0)
                    except OSError:
                        pass
                if x and x["life"] is not None:
                    os.close(x["life"])
                if x and x["conn"]:
                    x["conn"].close()
            srv.close()
            os.unlink(sock)

    def run(self, plan, w):
        top = os.path.realpath(w.exec_dir)
        os.chmod(os.path.dirname(top), 0o711)
        root = os.path.join(top, plan["dir"]) if plan.get("dir") else top
        for d in ("bin", "home", "io", "tmp", "lib/fpfind"):
            os.makedirs(os.path.join(root, d))
        for rel, (data, mode) in self.files.items():
            p = os.path.join(root, "lib/fpfind", rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with seams._real_open(p, "wb") as f:
                f.write(data)
            os.chmod(p, mode)
        prog = os.path.join(root, "bin", "freqcd")
        with seams._real_open(prog, "wb") as f:
            f.write(self.stub)
        os.chmod(prog, 0o755)
        os.symlink("../bin/freqcd", os.path.join(root, "home", "fc"))
        for n, rel in (("ref1", "freqcd.c"), ("ref2", "lib/getopt.c")):
            with seams._real_open(os.path.join(root, n), "wb") as f:
                f.write(self.files[rel][0])
        if plan.get("near"):  # unrelated file in the directory of a caller
            p = os.path.join(root, "home", plan["near"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with seams._real_open(p, "w") as f:
                f.write("raise SystemExit(3)\n")
        for base, ds, fs in os.walk(top):
            for x in ds + fs:
                os.chown(os.path.join(base, x), UID, UID, follow_symlinks=False)
        os.chown(top, UID, UID)
        outside = set(seams._real_listdir(top))
        names0 = sorted(seams._real_listdir(os.path.join(root, "bin")))

        def check():
            try:
                with seams._real_open(prog, "rb") as f:
                    d = f.read()
            except OSError as e:
                return ("program-missing", f"{os.path.basename(prog)} does not exist: {e.strerror}")
            if d == self.probe_bytes:
                if not os.stat(prog).st_mode & 0o111:
                    return ("not-executable", "the installed program is not executable")
            elif d != self.stub:
                return ("torn-program", f"the program file holds {len(d)} bytes, neither the launcher nor the complete program ({len(self.probe_bytes)} bytes)")
            return None
        L, bad = self.drive(w, root, plan["launches"], plan["sched"], plan["faults"], check, plan)
        if bad:
            return [(bad[0], f"{bad[1]} after {[t[1:] for t in w.tokens][-6:]}")]
        out = self.judge(w, root, L, False)
        if out:
            return out
        calm = all(f[0] in ("fail", "kill") and f[1].startswith("gcc") for x in L for f in x["faults"])
        if calm:
            left = sorted(set(seams._real_listdir(os.path.join(root, "bin"))) - set(names0))
            if left:
                return [("left-behind", f"{len(left)} file(s) left next to the program after {[x['faults'] for x in L]}")]
        # once faults have stopped, the next invocation works, and the one after it needs no compiler
        for final in (1, 2):
            l = dict(plan["launches"][0], args=["-z", str(final)], stdin="late")
            installed = seams.slurp(prog) == self.probe_bytes
            Lf, bad = self.drive(w, root, [l], [], [], check, plan)
            if bad:
                return [(bad[0], bad[1] + " after a later invocation")]
            out = self.judge(w, root, Lf, True)
            if out:
                return out
            if final == 2 and Lf[0]["steps"]:
                return [("recompiles", "a further invocation still goes through the launcher")]
        stray = set(seams._real_listdir(top)) - outside
        if stray:
            return [("left-behind", f"{len(stray)} file(s) outside the installation after an invocation from {plan.get('dir')!r}")]
        path = os.path.join(root, "lib/fpfind/freqcd_path")
        if calm and all(not x["faults"] for x in L):
            try:
                rec = seams.slurp(path).decode(errors='replace').strip()
            except OSError:
                rec = None
            if rec != prog:
                return [("path-record", f"freqcd_path holds {rec!r}".replace(root, "ROOT"))]
        return []

    def judge(self, w, root, L, final):
        for x in L:
            i, l = x["i"], x["l"]
            with seams._real_open(os.path.join(root, "io", f"out{i}"), "rb") as f:
                got = f.read()
            with seams._real_open(os.path.join(root, "io", f"err{i}"), "rb") as f:
                err = f.read()
            if x["status"] == 99 and err.startswith(b"start:"):
                raise RuntimeError(err.decode())
            want = b"PROBE\ncwd " + os.path.realpath(x["cwd"]).encode() + b"\n" + b"".join(b"arg " + a.encode().hex().encode() + b"\n" for a in l["args"]) + \
                f"env v{i}\nstdin {l['stdin']}\nend\n".encode()
            rc = int(l["args"][0][3:]) if l["args"] and l["args"][0].startswith("-rc") else 0
            ok = got == want and x["status"] == rc and b"probe-stderr" in err
            name = f"{'later ' if final else ''}invocation {i} ({l['via']} from {l['cwd']}, {x['faults'] or 'no fault'})"
            w.note(i, x["status"], got.replace(root.encode(), b"R"))
            w.stats["ran_program" if ok else "reported_failure"] += 1
            if not x["faults"]:
                if not ok:
                    return [("did-not-run", f"{name}: status {x['status']}, output {got[:200]!r}, stderr {err[:200]!r}".replace(root, "ROOT"))]
                continue
            if ok or any(k in ("killall", "interrupt") for k, _ in x["faults"]):
                continue
            if b"PROBE" in got:
                return [("ran-wrongly", f"{name}: status {x['status']}, output {got[:200]!r}".replace(root, "ROOT"))]
            if x["status"] == 0:
                return [("success-without-running", f"{name}: reports success without having run the program: {got[:120]!r}".replace(root, "ROOT"))]
        return []
