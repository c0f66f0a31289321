"""Diagnostics of fpfind: stderr and log file (L01)."""
import io, logging, os, re, runpy, sys, time

from engine import Scenario
import seams
from seams import call, SimCrash
import sc_link as K
import linksim as L
import fpfind.fpfind as F
from fpfind.lib import logging as FL

LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40}
VERB = [30, 20, 10]
HEAD = r"\d{8}_\d{6}\t"


class Err(io.TextIOBase):
    """Standard error of the simulated process (unbuffered)."""

    def __init__(self, w):
        self.w, self.text = w, ""

    def writable(self): return True

    def write(self, s):
        if self.w.dead:
            raise SimCrash()
        f = self.w.step("stderr", "write")
        if f:
            self.w.raise_(f, "stderr", "write")
        self.text += s
        self.w.ev("write", "stderr", len(s))
        return len(s)


def strip(names):
    for n in names:
        lg = logging.getLogger(n)
        for h in lg.handlers[:]:
            lg.removeHandler(h)
            try:
                h.close()
            except BaseException:
                pass
        lg.setLevel(logging.NOTSET)


def expected(rec, human):
    """Regular expressions of the lines that show a record. rec: level name, message, details, place override, times."""
    level, msg, details, place, times = rec
    fn = re.escape(place.get("_funcname", "")) or r"[^\t]*"
    ln = str(place["_lineno"]) if "_lineno" in place else r"\d+"
    pre = "(?:%s)\t%s *\t%s:%s\t" % ("|".join(times), level.upper(), fn, ln)
    if details is None:
        return [pre + r"\| " + re.escape(msg)]
    if not human:
        return [pre + r"\| " + re.escape(f"{msg}\t{details}")]
    items = [f"{k}: {v}" for k, v in details.items()] if isinstance(details, dict) else [str(x) for x in details]
    if not items:
        return [pre + r"\| " + re.escape(msg)]
    text = msg.lstrip(" ")
    pad = " " * (len(msg) - len(text))
    out = [pre + r"\| " + re.escape(msg)]
    if text == "":
        out = [pre + r"\| " + pad + "  " + re.escape(items.pop(0))]
    return out + [r"\s*\| " + pad + "  " + re.escape(x) for x in items]


def content(path):
    """What a log file shows; one that nothing was written to need not exist."""
    if not os.path.exists(path):
        return ""
    with seams._real_open(path, "rb") as f:
        return f.read().decode("utf-8", errors="replace")


def match(text, recs, human, partial, what):
    """Does the text show exactly the records (or, if partial, complete lines of a prefix of them and part of one line)?"""
    return compare(text, [x for r in recs for x in expected(r, human)], partial, what)


def compare(text, want, partial, what):
    lines = text.split("\n")
    tail = lines.pop()
    if tail and not partial:
        return f"{what} ends inside a line: {tail[:80]!r}"
    col = None
    for i, ln in enumerate(lines):
        if i >= len(want):
            return f"{what}: {len(lines)} lines for {len(want)} logged ones, e.g. {ln[:100]!r}"
        if not re.fullmatch(want[i], ln):
            return f"{what}: line {i + 1} is {ln[:120]!r}, expected /{want[i][:160]}/"
        bar = len(ln[:ln.index("| ")].expandtabs())
        if not want[i].startswith(r"\s*"):
            col = bar
        elif bar != col:
            return f"{what}: line {i + 1} is not aligned below its message"
    if len(lines) < len(want) and not partial:
        return f"{what}: only {len(lines)} of {len(want)} lines, first missing: /{want[len(lines)][:160]}/"
    return None


class L01(Scenario):
    quick, thorough = 8000, 300000
    fixed_lists = ("steps", "short", "verb", "range")
    fixed_dicts = ("link", "clock")
    cpu_limit = 60
    components = ("real: fpfind.lib.logging, the profile wrapper and (in some runs) fpfind.main run as a script, the standard logging package; simulated: standard "
                  "error, log files on the file layer (EIO, ENOSPC, EDQUOT, full disk, short writes, process death, interrupt), wall clock and time zone")

    TEXT = ["", "   ", "a message", "  indented", "with | bar", "100 %", "{brace} %s?", "tab\there", "ünï ✓", "x" * 300, "| ", "trailing  "]

    def gen(self, rng):
        if rng.random() < 0.03:
            return self.gen_main(rng)
        ops = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            x = rng.random()
            if x < 0.1:
                ops.append(["level", rng.randrange(2), rng.choice(["debug", "info", "warning", "error", None, "bogus"]), None])
            elif x < 0.2:
                ops.append(["level", rng.randrange(2), None, rng.choice([0, 1, 2, 3, 4, 9])])
            elif x < 0.3:
                ops.append(["prof", rng.randrange(4), rng.randrange(4)])
            else:
                det = rng.choice([None, None, [], ["one"], ["one", "  two", 3], {"k": 1, "value": "two"}, {}, ["a | b"], {"tuple": ["one", 2]}, {"tuple": []}])
                place = {}
                for k, v in (("_funcname", rng.choice(["[f]", "g.h"])), ("_filename", "other.py"), ("_lineno", rng.randrange(5000))):
                    if rng.random() < 0.3:
                        place[k] = v
                ops.append(["log", rng.randrange(2), rng.choice(list(LEVELS)), rng.choice(self.TEXT), det, place, rng.random() < 0.3])
        plan = {"ops": ops, "human": [rng.random() < 0.6, rng.random() < 0.5], "child": rng.random() < 0.5, "files": [], "faults": [], "capacity": None,
                "short": [rng.choice([0, 1, 3, 20, 100]) for _ in range(rng.choice([0, 0, 2]))], "buf": rng.choice([8192, 16, 100]), "verb": None, "link": None,
                "clock": {"start": rng.choice([0, 1667952000, 2 ** 31 - 1, rng.randrange(1, 4 * 10 ** 9)]),
                          "steps": [rng.choice([0, 0.001, 1, -1, 3600, -3600, 86400]) for _ in range(rng.randrange(1, 4))]},
                "zone": rng.choice(["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0845>-8:45"])}
        for i in range(rng.choice([0, 1, 1, 2])):
            plan["files"].append({"lg": rng.randrange(2), "at": rng.choice([0, 0, rng.randrange(len(ops))]), "human": rng.random() < 0.6, "old": rng.random() < 0.4})
        x = rng.random()
        if plan["files"]:
            if x < 0.15:
                plan["faults"] = [{"op": rng.choice(["write", "write", "close"]), "role": "log0", "n": rng.randrange(1, 20), "kind": rng.choice(["ENOSPC", "EIO", "EDQUOT"]), "sticky": True}]
            elif x < 0.3:
                plan["capacity"] = rng.randrange(1500)
            elif x < 0.35:
                plan["faults"] = [{"op": "open", "role": "log0", "n": 1, "kind": rng.choice(["EACCES", "ENOSPC", "EIO"])}]
        if 0.35 < x < 0.5:
            plan["faults"] = [{"op": "any", "n": rng.randrange(1, 60), "kind": rng.choice(["crash", "crash", "interrupt"]), "arg": rng.randrange(200)}]
        elif 0.5 < x < 0.6:
            plan["faults"] = [{"op": "write", "role": "stderr", "n": rng.randrange(1, 20), "kind": rng.choice(["EIO", "ENOSPC"]), "sticky": rng.random() < 0.5}]
        return plan

    def gen_main(self, rng):
        p = K.gen_link(rng, bursts=False, styles=("short",))
        return {"link": p, "verb": [rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2])], "precomp": rng.choice([0, 0, 2]), "noise": rng.random() < 0.3, "ops": [], "files": [],
                "faults": [], "short": [], "buf": rng.choice([8192, 64]), "clock": None, "zone": "UTC0"}

    def valid(self, plan):
        if plan["link"]:
            return K.link_valid(plan["link"]) and len(plan["verb"]) == 2
        return bool(plan["clock"]) and len(plan["clock"]["steps"]) > 0 and len(plan["human"]) == 2 and not (plan["files"] and any(f is None for f in plan["files"])) and \
            all(o[0] != "log" or (len(o) == 7 and o[2] in LEVELS and o[5] is not None) for o in plan["ops"]) and \
            all(o[0] != "prof" or len(o) == 3 for o in plan["ops"]) and all(o[0] != "level" or len(o) == 4 for o in plan["ops"])

    def run(self, plan, w):
        os.environ["TZ"] = plan["zone"]
        time.tzset()
        out, err = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        names = ["simulated.a", "simulated.a.child" if plan["child"] else "simulated.b"] if not plan["link"] else []
        try:
            v = self.run_main(plan, w) if plan["link"] else self.run_log(plan, w, names)
            if not v and not plan["link"] and sys.stdout.getvalue():
                v = [("stdout", f"diagnostics on stdout: {sys.stdout.getvalue()[:100]!r}")]
            return v
        finally:
            sys.stdout, sys.stderr = out, err
            strip(names)
            K.quiet()
            F.logger.setLevel(logging.WARNING)
            os.environ["TZ"] = "UTC0"
            time.tzset()

    def run_log(self, plan, w, names):
        sys.stderr = errs = Err(w)
        ticks, seen = [plan["clock"]["start"], 0], []

        def clock():
            s = plan["clock"]["steps"]
            ticks[0] = min(max(ticks[0] + s[ticks[1] % len(s)], 0), 4.2e9)
            ticks[1] += 1
            seen.append(time.strftime("%Y%m%d_%H%M%S", time.localtime(ticks[0])))
            return float(ticks[0])
        w.clock = clock
        w.full_roles = {"log0"}
        strip(names)
        loggers, level = [], [30, 30]
        shown = [[], []]                                   # records each logger shows
        logs = [[], []]                                    # per logger: files attached so far
        books = []                                         # per file: path, human, records, returned
        done = [0]
        started = {"prof": None}

        def body():
            for n, h in zip(names, plan["human"]):
                loggers.append(FL.get_logger(n, human_readable=h))
            for i, op in enumerate(plan["ops"]):
                for j, f in enumerate(plan["files"]):
                    if f["at"] == i:
                        path = os.path.join(w.exec_dir, f"log{j}.txt")
                        if f["old"]:
                            with seams._real_open(path, "wb") as g:
                                g.write(b"an earlier log\n" * 40)
                        w.roles[path] = f"log{j}"
                        k, r = call(FL.set_logfile, loggers[f["lg"]], path, human_readable=f["human"])
                        if k == "crash" or k == "interrupt":
                            return k
                        if k == "error":
                            w.note("set_logfile", type(r).__name__)
                            return "refused"
                        books.append([path, f["human"], [], f"log{j}", 0])
                        logs[f["lg"]].append(books[-1])
                if op[0] == "level":
                    _, who, label, verb = op
                    if verb is None:
                        k, r = call(FL.get_logger, names[who], label, plan["human"][who])
                        if k != "ok" or r is not loggers[who]:
                            return f"get_logger gives {k} {r!r}"
                        level[who] = LEVELS.get(label, 30)
                    else:
                        loggers[who].setLevel(FL.verbosity2level(verb))
                        level[who] = VERB[min(verb, 2)]
                elif op[0] == "prof":
                    bad = self.profile(op, w)
                    if bad in ("crash", "interrupt"):
                        return bad
                    if bad:
                        return bad
                else:
                    _, who, lv, msg, det, place, viaargs = op
                    if isinstance(det, dict) and "tuple" in det:
                        det = tuple(det["tuple"] or [])
                    rec = [lv, msg, det, place, None]
                    del seen[:]
                    extra = dict(place)
                    if det is not None:
                        extra["details"] = det
                    kw = {"extra": extra} if extra else {}
                    on = LEVELS[lv] >= level[who]
                    if on:
                        rec[4] = seen2 = []
                        shown[who].append(rec)
                        for b in logs[who]:
                            b[2].append(rec)
                    fn = getattr(loggers[who], lv)
                    k, r = call(fn, "%s", msg, **kw) if viaargs else call(fn, msg, **kw)
                    if on:
                        seen2.extend(sorted(set(seen)) or [r"\d{8}_\d{6}"])
                    w.note(i, lv, who, k)
                    if k in ("crash", "interrupt"):
                        return k
                    if k != "ok":
                        return f"logging a message fails: {k} {r!r}"
                    for b in books:
                        b[4] = len(b[2])
                    done[0] += 1
            return "end"
        fate = body()
        w.shape(fate if fate in ("end", "crash", "interrupt", "refused") else "bad", len(plan["files"]), plan["child"], [o[0] for o in plan["ops"]][:6])
        if fate not in ("end", "crash", "interrupt", "refused"):
            return [("program-affected", fate)]
        if fate == "refused" and not w.delivered:
            return [("refused", "set_logfile fails although the file can be written")]
        for h in [h for n in names for h in logging.getLogger(n).handlers]:
            call(h.close)
        w.finish()
        if fate == "interrupt":
            return []
        cut = fate == "crash"
        broken = {"log0"} if any(k.split("_")[0] in ("EIO", "ENOSPC", "EDQUOT", "disk") for k in w.delivered) and not any(f.get("role") == "stderr" for f in plan["faults"]) else set()
        noerr = any(f.get("role") == "stderr" for f in plan["faults"])
        w.stats["messages"] += done[0]
        # standard error: both loggers write to it, in the order of the program; told apart by replaying the order
        if not noerr:
            order = []
            idx = [0, 0]
            for op in plan["ops"]:
                if op[0] == "log" and idx[op[1]] < len(shown[op[1]]) and shown[op[1]][idx[op[1]]][1] is op[3] and shown[op[1]][idx[op[1]]][3] is op[5]:
                    order.append((shown[op[1]][idx[op[1]]], plan["human"][op[1]]))
                    idx[op[1]] += 1
            bad = compare(errs.text, [x for r, h in order for x in expected(r, h)], cut, "stderr")
            if bad:
                return [("stderr", bad)]
        for path, human, recs, role, returned in books:
            text = content(path)
            w.note(role, len(text))
            part = cut or role in broken
            bad = match(text, recs, human, part, role)
            if bad:
                return [("logfile", bad + (f" ({dict(w.delivered)})" if w.delivered else ""))]
            if cut and role not in broken:
                need = sum(len(expected(r, human)) for r in recs[:returned])
                if text.count("\n") < need:
                    return [("log-lost", f"{role}: the process died after {returned} messages had been logged, the file shows {text.count(chr(10))} of {need} lines")]
        return []

    @staticmethod
    def profile(op, w):
        """The profiling wrapper: transparent for results and errors, brackets what the function logs, nesting restored."""
        depth, raises = op[1], op[2]
        lg = F.logger
        strip([lg.name])
        sink = io.StringIO()
        h = logging.StreamHandler(sink)
        h.setFormatter(logging.Formatter("%(message)s"))
        lg.addHandler(h)
        lg.setLevel(logging.DEBUG)
        events = []
        token = object()

        class Boom(Exception):
            pass

        def make(i):
            def inner(x, y=None):
                events.append(("in", i, sink.getvalue().count("\n")))
                if i == depth:
                    if raises == 1:
                        raise Boom()
                    return token
                try:
                    return make(i + 1)(x, y=y)
                except Boom:
                    if raises == 1 and i == 0 and depth > 1:
                        return token
                    raise
            inner.__name__ = f"level{i}"
            return F.profile(inner)
        lvl = F.PROFILE_LEVEL
        k, r = call(make(0), 1, y=2)
        text = sink.getvalue().split("\n")[:-1]
        first = len(text)
        k2, r2 = call(F.profile(lambda: token))
        again = sink.getvalue().split("\n")[first:-1]
        strip([lg.name])
        lg.propagate = False
        lg.addHandler(logging.NullHandler())
        lg.setLevel(logging.WARNING)
        if k in ("crash", "interrupt") or k2 in ("crash", "interrupt"):
            return k
        swallowed = raises == 1 and depth > 1
        want = ("error", Boom) if raises == 1 and not swallowed else ("ok", None)
        if k != want[0] or (k == "ok" and r is not token) or (k == "error" and not isinstance(r, want[1])):
            return f"profiled function gives {k} {r!r} instead of {want}"
        if F.PROFILE_LEVEL != lvl:
            return f"nesting level of the profiler is {F.PROFILE_LEVEL} after profiled calls, {lvl} before"
        if len(text) != 2 * (depth + 1) or [e[2] for e in events] != list(range(1, depth + 2)):
            return f"{depth + 1} nested profiled calls are logged as {text}"
        ind = [len(t) - len(t.lstrip(" ")) for t in text]
        if ind != ind[::-1] or any(b <= a for a, b in zip(ind[:depth + 1], ind[1:depth + 1])):
            return f"nested profiled calls are not nested in the log: {text}"
        if k2 != "ok" or r2 is not token or not again or len(again[0]) - len(again[0].lstrip(" ")) != ind[0]:
            return f"a profiled call after {text} is logged as {again}"
        w.stats["profiled_calls"] += depth + 2
        return None

    def run_main(self, plan, w):
        p = plan["link"]
        A, B = L.link(p)
        if plan["noise"]:
            B = L.link(dict(p, seed=p["seed"] ^ 77))[1]
        K.store_raw(w, p, A, B, 10 ** 9)
        w.clock = lambda: 1.7e9
        args = ["-t", "a.dat", "-T", "b.dat"] + K.options(p)
        if plan["precomp"]:
            args += ["-P", "--precomp-step", "1e-6", "--precomp-stop", f"{plan['precomp']}e-6"]
        seen = []
        for i, verb in enumerate(plan["verb"]):
            strip(K.LOGGERS + ("__main__",))
            sys.stderr = errs = io.StringIO()
            sys.stdout = outs = io.StringIO()
            path = os.path.join(w.exec_dir, "log0.txt")
            w.roles[path] = "log0"
            argv, sys.argv = sys.argv, ["fpfind"] + args + ["-v"] * verb + ["-L", "log0.txt"]
            try:
                k, r = call(runpy.run_module, F.__name__, run_name="__main__")
            finally:
                sys.argv = argv
                strip(K.LOGGERS + ("__main__",))
            st = 0 if k == "ok" or (k == "exit" and r in (None, 0)) else 1
            w.note(verb, st, outs.getvalue())
            if (K.parse(outs.getvalue()) is None) if st == 0 else outs.getvalue():
                return [("stdout", f"{'-v' * verb}: status {st}, stdout {outs.getvalue()[:100]!r}")]
            text = content(path)
            if text != errs.getvalue():
                return [("sinks-differ", f"verbosity {verb}: log file and stderr differ ({len(text)} and {len(errs.getvalue())} characters)")]
            recs, low = [], VERB[min(verb, 2)]
            for ln in text.split("\n")[:-1]:
                m = re.match(HEAD + r"(\S+) *\t[^\t]*\t\| (.*)$", ln)
                if m:
                    recs.append([m.group(1), m.group(2)])
                    if LEVELS.get(m.group(1).lower(), 50) < low:
                        return [("level", f"verbosity {verb} shows {ln[:100]!r}")]
                elif recs:
                    recs[-1][1] += "\n" + ln.strip()
            seen.append((low, [tuple(x) for x in recs if "verbosity" not in x[1]]))
            w.stats["program_runs"] += 1
            w.ev("main", verb, len(recs))
        lo = max(seen[0][0], seen[1][0])
        a, b = ([x for x in s[1] if LEVELS.get(x[0].lower(), 50) >= lo] for s in seen)
        if a != b:
            return [("verbosity", f"messages of level {lo} and above differ between verbosity {plan['verb']}: {len(a)} and {len(b)}")]
        if 10 in (seen[0][0], seen[1][0]) and not max((s[1] for s in seen), key=len):
            return [("silent", "nothing is logged at the highest verbosity")]
        return []
