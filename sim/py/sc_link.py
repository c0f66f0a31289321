"""fpfind on simulated links: recovery (F01), modes (F02), refusal (F03), precompensation (F04), determinism (F05), closed loop (F06)."""
import io, logging, math, os, runpy, subprocess, sys, warnings

import numpy as np

from engine import Scenario
import linksim as L
import seams
from seams import call
from sc_epochs import enc_t1, enc_t2
import fpfind.fpfind as F
from fpfind.lib import utils as U

LOGGERS = ("fpfind.fpfind", "fpfind.lib.parse_epochs", "fpfind.lib.parse_timestamps", "fpfind.lib.utils")


def quiet():
    for n in LOGGERS + ("__main__",):
        lg = logging.getLogger(n)
        for h in lg.handlers[:]:
            lg.removeHandler(h)
            try:
                h.close()
            except BaseException:
                pass
        lg.addHandler(logging.NullHandler())
        lg.propagate = False


quiet()


# ------------------------------------------------------------------ one simulated invocation of the program

def fpfind_main(argv, script=False):
    """Outcome of one process-like run: (status, stdout). status 0 means success."""
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["fpfind"] + argv
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        kind, val = call(F.main) if not script else call(runpy.run_module, F.__name__, run_name="__main__")
        out = sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        quiet()
    if kind == "ok":
        return 0, out, ""
    if kind == "exit":
        return (0 if val in (None, 0) else 1), out, f"exit {val}"
    return (2 if kind == "hang" else 1), out, f"{kind}: {type(val).__name__}: {val}"[:160]


def parse(out, mode=0):
    """(df, dt) of a result line or None if it is not exactly one line of the expected form."""
    if not out.endswith("\n") or out.count("\n") != 1:
        return None
    f = out[:-1].split("\t")
    if len(f) != (1 if mode & 4 else 2):
        return None
    try:
        df = float(int(f[0])) / 2 ** 34 if mode & 2 else float(f[0])
        dt = None if mode & 4 else int(f[1]) / (8 if mode & 8 else 1)
    except ValueError:
        return None
    if not math.isfinite(df):
        return None
    return df, dt


# ------------------------------------------------------------------ plans

def gen_side(rng, bursts=True):
    d = {"eta": rng.choice([0.4, 0.5, 0.7, 0.9]), "dark": rng.choice([0.0, 0.1, 0.3, 0.6]), "jitter": rng.choice([0.0, 0.1, 0.3, 0.5]),
         "dead": rng.choice([0, 0, 0, 5, 20]), "losses": [], "floods": []}
    if bursts and rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            d["losses"].append([round(rng.uniform(0, 8), 3), round(rng.uniform(0.01, 0.2), 3)])
    if bursts and rng.random() < 0.25:
        d["floods"].append([round(rng.uniform(0, 8), 3), round(rng.uniform(0.01, 0.2), 3), rng.choice([0.5, 1, 2])])
    return d


def gen_link(rng, bursts=True, umax=2e-5, styles=("short", "short", "short", "long"), far=False):
    style = rng.choice(styles)
    for _ in range(20000):
        q = rng.choice([13, 13, 14, 14, 15, 16]) if style == "short" else rng.choice([13, 14])
        R = rng.choice([4, 8, 16, 16, 32]) if style == "short" else rng.choice([256, 1024, 4096, 8192])
        k = rng.choice([1, 1, 1, 2])
        if far and style == "long" and rng.random() < 0.3:  # wrapped many times; up to 2^34 final bins in one window
            k, q = rng.choice([3, 4, 8, 16, 64]), rng.choice([13, 14, 15, 15])
        sep = rng.choice([4, 5, 6, 6, 6.5, 8]) if not far or rng.random() < 0.84 else rng.choice([12, 20, 3, 2.5, 2, 1.5])
        r = rng.choice([x for x in (1, 1, 2, 4) if x <= R])
        p = {"style": style, "seed": rng.randrange(1 << 31), "q": q, "R": R, "k": k, "r": r, "sep": sep,
             "thr": rng.choice([6, 6, 5, 8]), "N": rng.choice([600, 900, 1400, 2000, 3000]), "a": gen_side(rng, bursts), "b": gen_side(rng, bursts)}
        P = R * 2.0 ** q
        x = rng.random()
        p["u"] = 0.0 if x < 0.08 else rng.uniform(-umax, umax) if x < 0.7 else rng.choice([-1, 1]) * umax * 10 ** rng.uniform(-3, 0)
        x = rng.random()
        lim = min(0.44 * P, 0.9e8)
        p["D"] = 0.0 if x < 0.08 else rng.uniform(-lim, lim) if x < 0.6 else rng.choice([-1, 1]) * lim * 10 ** rng.uniform(-4, 0)
        p["T"] = round((sep + 1) * 1.06 + 0.4 + abs(p["D"]) / (P * k), 3)
        if L.margin(p, p["thr"], r)[0] >= 4:
            return p
    raise AssertionError("no link with sufficient margin found")


def gen_S0(rng, p, hi=10 ** 13):
    """Counter reading (ns) at the start: anywhere, close to zero, or such that the 54-bit counters start over during the recording."""
    x, span = rng.random(), p["T"] * L.window(p)
    if x < 0.05:
        return (1 << 46) - int(rng.uniform(-0.02, 1.02) * span)
    if x < 0.08:  # one party starts before, the other after
        return (1 << 46) - int(rng.uniform(-1, 1) * abs(p["D"]) + rng.uniform(0, 4) * span / max(1, p["N"] * p["T"]))
    if x < 0.13:
        return int(max(0, -p["D"])) + rng.choice([1, 2, 1000])
    return rng.randrange(10 ** 9, hi)


def S0_ok(plan):
    return plan["S0"] > max(0, -plan["link"]["D"])


def link_valid(p, lo=4.0, T=40):
    P = p["R"] * 2.0 ** p["q"]
    return (13 <= p["q"] <= 16 and p["R"] >= p["r"] >= 1 and 1 <= p["k"] <= 64 and p["sep"] >= 1.5 and p["thr"] >= 5 and p["N"] >= 1
            and p["a"] and p["b"] and all(0.1 <= p[s]["eta"] <= 1 for s in "ab")
            and abs(p["D"]) <= 0.45 * P and p["T"] >= (p["sep"] + 1) * 1.06 + 0.3 + abs(p["D"]) / (P * p["k"]) and p["T"] < T
            and all(len(x) == 2 for s in "ab" for x in p[s]["losses"]) and all(len(x) == 3 for s in "ab" for x in p[s]["floods"])
            and L.margin(p, p["thr"], p["r"])[0] >= lo)


def faint_valid(p):
    """Signals that stand out only after bins have been merged, but then safely (see L.visible for the final word on each recording)."""
    s = p["a"]["jitter"], p["b"]["jitter"]
    if not (p["k"] == 1 and 14 <= p["q"] <= 17 and 1 <= p["r"] <= p["R"] <= 32 and 4 <= p["sep"] <= 8 and 6 <= p["thr"] <= 30 and 300 <= p["N"] <= 9000
            and all(0.3 <= p[x]["eta"] <= 0.9 and 0.1 <= p[x]["dark"] <= 1 and not p[x]["dead"] and not p[x]["losses"] and not p[x]["floods"] for x in "ab")
            and abs(p["D"]) <= 0.3 * L.window(p) and (p["sep"] + 1) * 1.06 + 0.39 + abs(p["D"]) / L.window(p) <= p["T"] < 12):
        return False
    jit = min(s) >= 1
    if jit and not (s[0] == s[1] <= 4 * p["R"] and abs(p["u"]) <= 2e-5 and p["r"] >= p["R"] / 2):
        return False
    if not jit and not (max(s) <= 0.3 and p["R"] >= 4 and 3e-5 <= abs(p["u"]) <= 8.7e-5):
        return False
    sig, c, lam = L.stages(p)
    fin = c / (3 + 4 * math.sqrt(2) * s[0] / p["r"]) / math.sqrt(lam + 1)
    return lam >= 1 and sig[0] < 0.75 * p["thr"] and max(sig) >= 1.1 * p["thr"] and sig[0] >= (3 if p["thr"] <= 8 else 8) and fin >= (6 if jit else 9)


def gen_faint(rng):
    jit = rng.random() < 0.4
    for _ in range(100000):
        weak = rng.random() < 0.4
        q, R = rng.choice([14, 15, 16] if jit else [16, 16, 17]), rng.choice([1, 2, 4, 8, 16] if jit else [4, 8, 16, 32])
        s, sep = R * rng.choice([1, 2, 3, 4]) if jit else 0, rng.choice([4, 5, 6, 6, 8])
        r = rng.choice([x for x in (1, 2, 4, 8, 16) if R / 2 <= x <= R] if jit else [x for x in (1, 2, 4) if x <= R])
        p = {"style": "faint", "seed": rng.randrange(1 << 31), "q": q, "R": R, "k": 1, "r": r, "sep": sep, "thr": rng.choice([6, 7, 8] if weak else [10, 12, 14, 16, 20, 24, 30]),
             "N": rng.choice([300, 450, 600, 900, 1400, 2000, 3000, 4500, 6000, 9000])}
        for x in "ab":
            p[x] = {"eta": rng.choice([0.3, 0.4, 0.5, 0.7, 0.9]), "dark": rng.choice([0.1, 0.3, 0.6, 1]), "jitter": s if jit else rng.choice([0, 0.1, 0.3]), "dead": 0, "losses": [], "floods": []}
        P = R * 2.0 ** q
        p["u"] = rng.choice([-1, 1]) * (rng.uniform(0, 2e-5) if jit else rng.uniform(3e-5, 8.7e-5))
        p["D"] = rng.uniform(-0.3, 0.3) * P
        p["T"] = round((sep + 1) * 1.06 + 0.4 + abs(p["D"]) / P, 3)
        if faint_valid(p):
            return p
    raise AssertionError("no faint link found")


def options(p):
    return ["-q", str(p["q"]), "-R", str(p["R"]), "-r", str(p["r"]), "-k", str(p["k"]), "-s", str(p["sep"]), "-S", str(p["thr"])]


def tolerance(p):
    s = math.sqrt(p["a"]["jitter"] ** 2 + p["b"]["jitter"] ** 2)
    t = 1.8 * p["r"] + 2 * s + 0.6
    return t / (p["sep"] * L.window(p)), t


def count_faults(w, p):
    for s in "ab":
        for k in ("losses", "floods"):
            if p[s][k]:
                w.delivered["link_" + k] += len(p[s][k])
        if p[s]["dead"]:
            w.hit("link_dead_time")
        if p[s]["dark"]:
            w.hit("link_dark_counts")
        if p[s]["jitter"]:
            w.hit("link_jitter")
    w.simtime += p["T"] * L.window(p) * 1e-9


def shape(w, p):
    w.shape(p["q"], p["R"], p["k"], p["r"], p["sep"], p["u"] > 0, p["u"] < 0, p["D"] > 0, p["D"] < 0, int(math.log10(abs(p["u"]) + 1e-12)),
            int(math.log10(abs(p["D"]) + 1)), [(len(p[s]["losses"]), len(p[s]["floods"]), p[s]["dead"], p[s]["dark"], p[s]["jitter"]) for s in "ab"])


def put(w, name, data):
    path = os.path.join(w.exec_dir, name)
    with seams._real_open(path, "wb") as f:
        f.write(data)
    w.maxops += len(data)  # read some bytes at a time, several times
    return path


def store_raw(w, p, A, B, S0, legacy=False, names=("a.dat", "b.dat")):
    rng = np.random.RandomState((p["seed"] ^ 0x5EED) & 0xFFFFFFFF)
    for x, n in ((A, names[0]), (B, names[1])):
        put(w, n, L.encode_raw(x, S0, rng.randint(1, 16, len(x)), legacy))


def store_epochs(w, p, A, B, e0, frac, junk=0, extra_a=(), extra_b=(), order=17, need=2):
    """The recording starts in epoch e0 and ends in e0 + 1; `frac` of it lies in e0. Epochs -junk.. before hold unrelated events.
    Recordings over more epochs (need > 2) start where `frac` of epoch e0 is left."""
    span = int(p["T"] * L.window(p) * 256)
    base = ((e0 + 1) << 37) - int((span if need == 2 else 1 << 37) * frac)
    rng = np.random.RandomState((p["seed"] ^ 0xE70C) & 0xFFFFFFFF)
    for d, X in (("send", A), ("t1", B)):
        os.makedirs(os.path.join(w.exec_dir, d), exist_ok=True)
        X = [int(x) + base for x in X.tolist()]
        per = {e0 + j: [] for j in range(need)}
        for x in X:
            per.setdefault(x >> 37, []).append((x & ((1 << 37) - 1), int(x * 7919 >> 3) % 15 + 1))
        for j in range(1, junk + 1):
            per[e0 - j] = sorted((int(v), 1) for v in rng.randint(0, 1 << 37, 5, dtype=np.int64))
        for e in (extra_a if d == "send" else extra_b):
            per.setdefault(e, [(77777, 1)])
        for e, ev in per.items():
            if d == "t1":
                data = enc_t1(e, ev)
            else:
                data = enc_t2(e, [(t // 32, b) for t, b in ev], order, 4)
            put(w, os.path.join(d, f"{e:08x}"), data)


def gen_io(rng):
    return {"short": [rng.choice([0, 0, 64, 513, 4096, 100000, 7 if rng.random() < 0.1 else 1000]) for _ in range(rng.randrange(1, 6))] if rng.random() < 0.5 else [],
            "buf": rng.choice([8192, 8192, 512, 65536, 4096])}


def gen_epoch_mode(rng):
    e0 = rng.choice([0xBA0A1234, (rng.randrange(1 << 11, 1 << 15) << 17) - 1, rng.randrange(1 << 29, 1 << 32)])
    junk = rng.choice([0, 0, 1, 2])
    return {"e0": e0, "frac": round(rng.uniform(0.02, 0.98), 3), "junk": junk, "skip": rng.choice([0, 0, junk]), "first": False,
            "extra": rng.randrange(4), "order": rng.choice([10, 17, 20])}


def epoch_setup(w, p, m, A, B):
    e0 = m["e0"]
    far = [e0 - 10, e0 - 9] if m["extra"] & 1 else []
    store_epochs(w, p, A, B, e0, m["frac"], m["junk"], far, [e0 + 5] if m["extra"] & 2 else [], m["order"], m.get("need", 2))
    args = ["-d", "send", "-D", "t1"]
    if m["junk"]:
        if m["first"]:
            # the first epoch to consider, of which some may be skipped all the same
            skip = min(m["skip"], m["junk"])
            args += ["-e", f"{e0 - skip:08x}"] + (["-z", str(skip)] if skip else [])
        else:
            args += ["-z", str(m["junk"])]
    return args


def need_epochs(p):
    """Epochs that fpfind takes for this link: enough to hold the required duration wherever in the first one it begins."""
    return math.ceil((p["sep"] + 1) * L.window(p) / 2 ** 29) + 1


def gen_long_epochs(rng):
    """A link whose recording extends over several epochs, or None."""
    p = gen_link(rng, styles=("long",))
    n = need_epochs(p)
    m = gen_epoch_mode(rng)
    m["frac"] = round(rng.uniform(0.02, 0.98) if n > 2 else rng.uniform(0.5, 0.98), 3)
    m["need"] = n
    if rng.random() < 0.4:
        m["e0"] = (rng.randrange(1 << 11, 1 << 15) << 17) - rng.randrange(1, n)
    p["T"] = round(((n - 2 + m["frac"]) * 2 ** 29 + abs(p["D"]) + rng.uniform(0.02, 1.2) * 2 ** 29) / L.window(p), 3)
    return (p, m) if long_epochs_valid(p, m) else None


def long_epochs_valid(p, m):
    n, Ta = need_epochs(p), L.window(p)
    least = ((p["sep"] + 1) * 1.06 + 0.3) * Ta + abs(p["D"])
    return (m.get("need") == n > 2 and (n - 1 + m["frac"]) * 2 ** 29 >= least and p["T"] * Ta >= max(least, (n - 2 + m["frac"]) * 2 ** 29 + abs(p["D"]) + 1e6)
            and p["T"] * max(p["N"], 1) < 120000 and p["T"] < 150)


class Link(Scenario):
    fixed_lists = ("short",)
    fixed_dicts = ("a", "b", "link", "ep")
    cpu_limit = 120
    det_runs = 40
    assumptions = ["PyPy 3.9, numpy and scipy.fft behave as documented", "photon statistics as generated by the simulated link"]
    rule = ("One case = one simulated link (source, two detectors, two clocks) recorded into files or epoch directories and analysed by the real program; "
            "non-trivial: more than three file operations; distinct: by file operations with outcomes, option values, signs and decades of skew and "
            "offset, and the kinds of link faults present.")
    components = ("real: fpfind.fpfind.main and everything below it (argument parsing, readers, xcorr, refinement, output); simulated: photon source, "
                  "detectors, channel loss/noise, both clocks, file transfer sizes and faults, wall clock")


def judge(p, got, want, what="", smear=0.0):
    tf, tt = tolerance(p)
    tf, tt = tf + smear / (p["sep"] * L.window(p)), tt + smear
    ef, et = got[0] - want[0], (got[1] - want[1]) if got[1] is not None else 0.0
    # an estimate that is off in frequency only by less than the tolerance is still judged at the common start
    if abs(ef) > tf:
        return f"{what}frequency {got[0]:.4e} reported, {want[0]:.4e} simulated (tolerance {tf:.1e})"
    if abs(et) > tt:
        return f"{what}offset {got[1]} ns reported, {want[1]:.2f} ns simulated (tolerance {tt:.1f})"
    return None


class F01(Link):
    quick, thorough = 3200, 120000

    def gen(self, rng):
        if rng.random() < 0.05:
            for _ in range(50):
                g = gen_long_epochs(rng)
                if g:
                    return {"link": g[0], **gen_io(rng), "S0": 10 ** 9, "legacy": False, "Z": 0.0, "ep": g[1]}
        faint = rng.random() < 0.2
        plan = {"link": gen_faint(rng) if faint else gen_link(rng, far=True), **gen_io(rng), "legacy": rng.random() < 0.25, "Z": 0.0, "ep": None}
        plan["S0"] = gen_S0(rng, plan["link"], rng.choice([10 ** 9 + 1, 10 ** 13, 6 * 10 ** 13]))
        if faint:
            return plan
        if rng.random() < 0.3 and plan["link"]["T"] * L.window(plan["link"]) < 0.4e9:
            plan["ep"] = gen_epoch_mode(rng)
            plan["ep"]["first"] = rng.random() < 0.5
        elif rng.random() < 0.2:
            z = rng.uniform(0.05, 1.5)
            plan["Z"] = z * L.window(plan["link"]) * 1e-9
            plan["link"]["T"] = round(plan["link"]["T"] + z, 3)
        return plan

    def valid(self, plan):
        p = plan["link"]
        if p["style"] == "faint":
            return faint_valid(p) and S0_ok(plan) and not plan["ep"] and not plan["Z"]
        ep = plan["ep"]
        if ep and not (0 < ep["frac"] < 1 and ep["e0"] > 1 << 28 and ep["order"] >= 10 and 0 <= ep["skip"] <= ep["junk"]):
            return False
        if ep and ep.get("need", 2) > 2:
            return link_valid(p, T=150) and long_epochs_valid(p, ep) and not plan["Z"]
        return link_valid(p) and p["T"] >= (p["sep"] + 1) * 1.06 + 0.3 + abs(p["D"]) / L.window(p) + plan["Z"] * 1e9 / L.window(p) and S0_ok(plan) and \
            (not ep or p["T"] * L.window(p) < 0.4e9)

    def run(self, plan, w):
        p = plan["link"]
        A, B = L.link(p)
        if plan["ep"]:
            args = epoch_setup(w, p, plan["ep"], A, B)
            if p["seed"] % 8 == 0:
                args += ["-Z", "0.05"]  # applies to timestamp files only
        else:
            store_raw(w, p, A, B, plan["S0"], plan["legacy"])
            args = ["-t", "a.dat", "-T", "b.dat"] + (["-X"] if plan["legacy"] else []) + (["-Z", repr(plan["Z"])] if plan["Z"] else [])
        count_faults(w, p)
        shape(w, p)
        faint, smear = p["style"] == "faint", 0.0
        if faint:
            smear, level = L.spread(p), L.visible(p, A, B)
            w.note("level", level)
            w.stats["faint_undecided" if level is None else f"faint_merged_{2 ** level}"] += 1
            w.hit("link_faint_peak")
        st, out, why = fpfind_main(args + options(p))
        w.note(st, out)
        if st == 2:
            return [("hang", why)]
        if faint and level is None:
            return []  # nothing can be said for certain about this recording
        if st and faint:
            return [("not-found", f"no result ({why}) although the signal exceeds the threshold clearly once {2 ** level} bins are merged")]
        if st:
            return [("not-found", f"no result ({why}) although the signal is {L.margin(p, p['thr'], p['r'])[0]:.1f} times the threshold")]
        got = parse(out)
        if got is None:
            return [("output", f"printed {out!r}")]
        want = L.truth(p, A, B, plan["Z"] * 1e9)
        tf, tt = tolerance(p)
        w.err = (abs(got[0] - want[0]) / tf, abs(got[1] - want[1]) / tt)
        bad = judge(p, got, want, "", smear)
        return [("wrong-result", bad)] if bad else []


# ------------------------------------------------------------------ F02

class F02(Link):
    quick, thorough = 1500, 40000

    def gen(self, rng):
        p = gen_link(rng, bursts=rng.random() < 0.3, far=True)
        return {"link": p, **gen_io(rng), "S0": gen_S0(rng, p), "legacy": rng.random() < 0.2,
                "modes": sorted(rng.sample(range(1, 16), rng.choice([3, 4, 5])) + ([] if rng.random() < 0.5 else [0])), "swap": rng.random() < 0.6}

    def valid(self, plan):
        return link_valid(plan["link"]) and S0_ok(plan) and all(0 <= m < 16 for m in plan["modes"])

    def run(self, plan, w):
        p = plan["link"]
        A, B = L.link(p)
        store_raw(w, p, A, B, plan["S0"], plan["legacy"])
        count_faults(w, p)
        shape(w, p)
        w.shape(plan["modes"], plan["swap"])
        base = options(p) + (["-X"] if plan["legacy"] else [])
        files = ["-t", "a.dat", "-T", "b.dat"]
        st, out, why = fpfind_main(files + base + ["-V", "8"])
        ref = parse(out, 8) if st == 0 else None
        w.note(st, out)
        if ref is None:
            return []  # not found or not printed properly: the business of F01
        df, dt = ref
        for m in plan["modes"]:
            st, out, why = fpfind_main(files + base + (["-V", str(m)] if m else []))
            w.note(m, st, out)
            w.stats["modes_compared"] += 1
            if st:
                return [("mode-failed", f"-V 8 succeeds but -V {m} fails ({why})")]
            got = parse(out, m)
            if got is None:
                return [("mode-format", f"-V {m} printed {out!r}")]
            wf, wt = (1 / (1 + df) - 1, -dt / (1 + df)) if m & 1 else (df, dt)
            if abs(got[0] - wf) > (0.51 / 2 ** 34 if m & 2 else 1e-15):
                return [("mode-frequency", f"-V {m} reports {got[0]!r}, -V 8 implies {wf!r}")]
            tol = 0.07 + (0.0626 if m & 8 else 0.51)
            if got[1] is not None and abs(got[1] - wt) > tol:
                return [("mode-time", f"-V {m} reports {got[1]} ns, -V 8 implies {wt:.3f} ns")]
        if plan["swap"]:
            st, out, why = fpfind_main(["-t", "b.dat", "-T", "a.dat"] + base + ["-V", "8"])
            w.note("swap", st, out)
            w.stats["swaps_compared"] += 1
            got = parse(out, 8) if st == 0 else None
            if got is None:
                return [("swap-failed", f"exchanged recordings give no result ({why or out!r})")]
            tf, tt = tolerance(p)
            ef = (1 + df) * (1 + got[0]) - 1
            et = got[1] * (1 + df) + dt
            if abs(ef) > 1.5 * tf or abs(et) > 1.5 * tt:
                return [("swap", f"exchanged recordings give ({got[0]:.4e}, {got[1]} ns) against ({df:.4e}, {dt} ns): not inverse by {ef:.1e}, {et:.1f} ns")]
        return []


# ------------------------------------------------------------------ F03

class F03(Link):
    quick, thorough = 5000, 90000

    def gen(self, rng):
        kind = rng.choice(["uncorrelated", "uncorrelated", "short", "short", "empty", "far", "toolong", "skew", "skew", "alias", "epoch", "epoch", "raw", "raw"])
        plan = {"kind": kind, **gen_io(rng), "S0": rng.randrange(10 ** 9, 10 ** 13), "legacy": False, "faults": [], "mode": rng.choice([0, 0, 1, 2, 3, 4, 8]), "ep": None,
                "arg": 0, "n": 0, "which": rng.choice(["a", "b"]), "precomp": rng.random() < 0.15}
        p = gen_link(rng, bursts=kind not in ("uncorrelated", "far", "skew"), styles=("short", "short", "short", "long") if kind != "epoch" else ("short",))
        P, Ta = p["R"] * 2.0 ** p["q"], L.window(p)
        if kind in ("uncorrelated", "far", "skew", "toolong"):
            for s in "ab":
                p[s]["dead"] = 0
            p["thr"] = 9
            p["N"] = int(math.ceil(math.sqrt(20 * 2 ** p["q"] / (p["a"]["eta"] * p["b"]["eta"]))))
        if kind == "uncorrelated":
            p["uncorrelated"] = True
        elif kind == "short":
            p["D"] = rng.choice([-1, 1]) * rng.uniform(0, 0.1) * P
            p["T"] = round(rng.uniform(0.05, p["sep"] + 1.3), 3)
        elif kind == "empty":
            plan["n"] = rng.choice([0, 0, 1, 2])
        elif kind == "far":
            p["D"] = rng.choice([-1, 1]) * rng.uniform(1.2, 2.5) * Ta
            p["T"] = round((p["sep"] + 1) * 1.06 + 0.4 + abs(p["D"]) / Ta, 3)
        elif kind == "toolong":
            p.update(style="long", R=8192, q=15, k=1, r=4, N=int(math.sqrt(20 * 2 ** 15 / (p["a"]["eta"] * p["b"]["eta"]))), u=0.0)
            p["D"] = rng.choice([-1, 1]) * rng.uniform(1.01e8, 1.2e8)
            p["T"] = round((p["sep"] + 1) * 1.06 + 0.9, 3)
        elif kind == "skew":
            p["u"] = rng.choice([-1, 1]) * rng.uniform(2e-4, 2e-3)
            p["D"] = rng.uniform(-0.3, 0.3) * P
        elif kind == "alias":
            p["D"] = rng.choice([-1, 1]) * rng.uniform(0.55, 0.9) * P
            p["T"] = round((p["sep"] + 1) * 1.06 + 0.4 + abs(p["D"]) / Ta, 3)
        elif kind == "epoch":
            plan["ep"] = gen_epoch_mode(rng)
            plan["arg"] = rng.choice(["missing", "cut", "vanish", "EIO", "EACCES", "empty"])
            plan["n"] = rng.randrange(1, 400)
            if plan["arg"] in ("vanish", "EIO", "EACCES"):
                plan["faults"] = [{"op": "open" if plan["arg"] != "EIO" else rng.choice(["open", "read"]), "n": rng.randrange(1, 9), "kind": plan["arg"]}]
        elif kind == "raw":
            plan["arg"] = rng.choice(["missing", "torn", "EIO", "vanish", "torn"])
            plan["n"] = rng.randrange(1, 8)
            if plan["arg"] in ("EIO", "vanish"):
                plan["faults"] = [{"op": "open" if plan["arg"] == "vanish" else rng.choice(["open", "read"]), "n": rng.randrange(1, 5), "kind": plan["arg"]}]
        if kind not in ("uncorrelated", "short", "far"):
            plan["precomp"] = False
        plan["link"] = p
        plan["S0"] = gen_S0(rng, p)
        return plan

    def valid(self, plan):
        p, k = plan["link"], plan["kind"]
        P, Ta = p["R"] * 2.0 ** p["q"], L.window(p)
        if not (13 <= p["q"] <= 16 and 1 <= p["k"] <= 64 and p["R"] >= p["r"] >= 1 and p["sep"] >= 1.5 and S0_ok(plan) and p["a"] and p["b"] and 0 < p["T"] < 60 and p["N"] > 0):
            return False
        if k == "uncorrelated":
            return bool(p.get("uncorrelated")) and p["thr"] >= 9 and L.margin(p, p["thr"], p["r"])[1] >= 16 and not any(p[s]["losses"] or p[s]["floods"] or p[s]["dead"] for s in "ab")
        if k == "far":
            return abs(p["D"]) >= 1.2 * Ta and p["thr"] >= 9 and abs(p["u"]) <= 2e-5 and p["N"] ** 2 * p["a"]["eta"] * p["b"]["eta"] / 2 ** p["q"] >= 16 and not any(p[s]["losses"] or p[s]["floods"] or p[s]["dead"] for s in "ab")
        if k == "toolong":
            return abs(p["D"]) >= 1.005e8 and p["R"] == 8192 and p["q"] == 15 and p["thr"] >= 9 and p["k"] == 1 and abs(p["D"]) < 0.46 * P and p["u"] == 0
        if k == "skew":
            return 2e-4 <= abs(p["u"]) <= 2.1e-3 and abs(p["D"]) <= 0.31 * P and p["thr"] >= 9 and not any(p[s]["losses"] or p[s]["floods"] or p[s]["dead"] for s in "ab")
        if k == "alias":
            return 0.54 * P <= abs(p["D"]) <= 0.91 * P
        if k == "short":
            return abs(p["D"]) <= 0.11 * P
        return link_valid(p)

    def run(self, plan, w):
        p, kind = plan["link"], plan["kind"]
        A, B = L.link(p)
        Ta, P = L.window(p), p["R"] * 2.0 ** p["q"]
        must_fail, want = True, None
        args = ["-t", "a.dat", "-T", "b.dat"]
        if kind == "empty":
            if plan["which"] == "a":
                A = A[:plan["n"]]
            else:
                B = B[:plan["n"]]
        if kind == "epoch":
            m = plan["ep"]
            args = epoch_setup(w, p, m, A, B)
            if plan["arg"] in ("missing", "cut", "empty"):
                d = ("send" if plan["which"] == "a" else "t1")
                path = os.path.join(w.exec_dir, d, f"{m['e0'] + plan['n'] % 2:08x}")
                with seams._real_open(path, "rb") as f:
                    data = f.read()
                if plan["arg"] == "missing":
                    os.unlink(path)
                else:
                    data = {"cut": data[:max(1, len(data) - 9 - plan["n"] % max(1, len(data) - 30))], "empty": b""}[plan["arg"]]
                    put(w, os.path.join(d, os.path.basename(path)), data)
                w.hit("epoch_" + plan["arg"])
                must_fail = True
            else:
                must_fail = None  # decided by whether the fault happened
        elif len(A) == 0 and len(B) == 0:
            return []
        else:
            store_raw(w, p, A, B, plan["S0"])
        if kind == "raw":
            path = os.path.join(w.exec_dir, "a.dat" if plan["which"] == "a" else "b.dat")
            if plan["arg"] == "missing":
                os.unlink(path)
            elif plan["arg"] == "torn":
                os.truncate(path, os.path.getsize(path) - plan["n"])
                must_fail = None
            else:
                must_fail = None
            w.hit("file_" + plan["arg"])
        if kind == "short":
            overlap = (min(int(A[-1]), int(B[-1])) - max(int(A[0]), int(B[0]))) / 256 if len(A) and len(B) else -1
            # the late window starts sep windows after the common start
            must_fail = overlap + abs(p["D"]) * 0 < (p["sep"] - 0.02) * Ta - abs(p["D"]) - 1e-4 * Ta
        if kind == "alias":
            must_fail = None
        if kind not in ("epoch", "empty", "raw", "uncorrelated", "skew", "far", "toolong") and len(A) and len(B):
            want = L.truth(p, A, B)
        count_faults(w, p)
        w.hit("link_" + kind)
        shape(w, p)
        w.shape(kind, plan["arg"], plan["mode"], plan["precomp"])
        pre = ["-P", "--precomp-start=-2e-6", "--precomp-step", "2e-6", "--precomp-stop", "2e-6", "--precomp-ordered"] if plan["precomp"] else []
        st, out, why = fpfind_main(args + options(p) + pre + (["-V", str(plan["mode"])] if plan["mode"] else []))
        w.note(st, out)
        w.stats[f"{kind}:{'failed' if st else 'succeeded'}"] += 1
        if st == 2:
            return [("hang", why)]
        if st and out:
            return [("output-on-failure", f"fails ({why}) after printing {out!r}")]
        if st:
            return []
        got = parse(out, plan["mode"])
        if got is None:
            return [("output", f"succeeds but printed {out!r}")]
        if plan["mode"] & 1:
            f = 1 / (1 + got[0]) - 1
            got = (f, None if got[1] is None else -got[1] * (1 + f))
        if must_fail is None and kind in ("epoch", "raw"):
            fired = any(w.delivered[x] for x in ("vanish", "EIO_on_open", "EIO_on_read", "EACCES_on_open"))
            want = L.truth(p, A, B)
            # success is fine only with the right answer; a file read in full before the fault is no damage
            bad = judge(p, got, want)
            if fired or plan["arg"] == "torn":
                w.stats["succeeded_despite_fault"] += 1
            return [("wrong-after-fault", f"{plan['arg']}: {bad}")] if bad else []
        if must_fail:
            return [("not-established:" + kind, f"succeeds and prints {out!r} although nothing can be established ({kind} {plan['arg']})")]
        if kind == "alias":
            bad = judge(p, got, want)
            return [("alias-window", f"true offset {want[1]:.0f} ns beyond half a window ({P / 2:.0f} ns): {bad}")] if bad else []
        if kind == "short":
            tf, tt = tolerance(p)
            # windows only partly filled: the result may stay at a coarser resolution
            w.err = (abs(got[0] - want[0]) * p["sep"] * Ta / p["R"], abs(got[1] - want[1]) / p["R"] if got[1] is not None else 0)
            if abs(got[0] - want[0]) > tf * 40 + 4 * p["R"] / (p["sep"] * Ta) or (got[1] is not None and abs(got[1] - want[1]) > tt * 40 + 4 * p["R"]):
                return [("wrong-result-short", f"prints {out!r} for a recording of {p['T']} windows, simulated ({want[0]:.3e}, {want[1]:.1f} ns)")]
        return []


# ------------------------------------------------------------------ F04

def scan_values(start, step, stop, ordered):
    """Values of a precompensation scan: increasing, or alternating around the start."""
    if ordered:
        return [start + i * step for i in range(math.floor((stop - start) / step + 1e-6) + 1)]
    out = [start] if stop >= 0 else []
    for i in range(1, math.floor(stop / step + 1e-6) + 1):
        out += [start + i * step, start - i * step]
    return out


class F04(Link):
    quick, thorough = 2400, 40000

    def gen(self, rng):
        p = gen_link(rng, bursts=rng.random() < 0.3)
        ordered = rng.random() < 0.5
        step = rng.choice([2.5e-4, 2.5e-4, 3e-4, 2.3e-4, 5e-5, 1e-4])
        start = rng.choice([0.0, 0.0, 1e-4, -2.5e-4, 3e-5])
        stop = step * rng.randrange(1, 7) + (start if ordered else 0) + rng.choice([0.3, 0.5, 0, 0]) * step
        stop = float(f"{stop:.10g}")  # as one would write it, also if it is a whole number of steps away
        v = scan_values(start, step, stop, ordered)
        far = [x for x in v if abs(x) > 2e-4]
        p["u"] = rng.choice(far if far and rng.random() < 0.85 else v)
        if rng.random() < 0.25:
            p["u"] = v[-1]
        plan = {"link": p, **gen_io(rng), "S0": gen_S0(rng, p), "start": start, "step": step, "stop": stop, "ordered": ordered,
                "near": rng.uniform(-8e-6, 8e-6), "full": rng.random() < 0.5, "stray": rng.random() < 0.5}
        p["u"] = (1 + p["u"]) * (1 + plan["near"]) - 1
        return plan

    def values(self, plan):
        return scan_values(plan["start"], plan["step"], plan["stop"], plan["ordered"])

    def valid(self, plan):
        p = dict(plan["link"])
        u, p["u"] = p["u"], 2e-5
        if plan["step"] < 1e-5 or len(self.values(plan)) > 20 or not self.values(plan):
            return False
        return link_valid(p) and p["sep"] <= 8 and p["k"] <= 2 and min(abs(u - v) for v in self.values(plan)) <= 1e-5 and S0_ok(plan) and abs(u) < 2e-3

    def deceived(self, plan, w, A, B, got, v):
        """The recordings themselves look like a peak at a wrong value scanned before the right one: nothing to judge."""
        p = plan["link"]
        right = min(range(len(v)), key=lambda i: abs(v[i] - p["u"]))
        for x in v[:right]:
            if abs(got[0] - x) <= 1.4e-4 and abs(p["u"] - x) > 1e-5 and L.deceptive(p, A, B, x):
                w.stats["ambiguous_recordings"] += 1
                return True
        return False

    def run(self, plan, w):
        p = plan["link"]
        A, B = L.link(p)
        store_raw(w, p, A, B, plan["S0"])
        count_faults(w, p)
        shape(w, p)
        v = self.values(plan)
        w.shape(len(v), plan["ordered"], plan["full"], min(range(len(v)), key=lambda i: abs(v[i] - p["u"])))
        pre = ["-P", "--precomp-start=" + repr(plan["start"]), "--precomp-step", repr(plan["step"]), "--precomp-stop=" + repr(plan["stop"])]
        pre += ["--precomp-ordered"] if plan["ordered"] else []
        base = ["-t", "a.dat", "-T", "b.dat"] + options(p)
        st, out, why = fpfind_main(base + pre)
        w.note(st, out)
        if st == 2:
            return [("hang", why)]
        if st:
            return [("scan-failed", f"no result ({why}); skew {p['u']:.4e}, scanned {[f'{x:.2e}' for x in v]}")]
        got, want = parse(out), L.truth(p, A, B)
        if got is None:
            return [("output", f"printed {out!r}")]
        # a value that leaves a skew of up to 200 ppm may be accepted too, with the peak smeared over `smear` (ns)
        others = [abs(p["u"] - x) for x in v if 1e-5 < abs(p["u"] - x) < 2e-4]
        smear = max(others, default=0.0) * L.window(p)
        tf, tt = tolerance(p)
        w.err = (abs(got[0] - want[0]) / (tf + smear / (p["sep"] * L.window(p))), abs(got[1] - want[1]) / (tt + smear))
        bad = judge(p, got, want, "", smear)
        if bad and self.deceived(plan, w, A, B, got, v):
            return []
        if bad:
            return [("scan-wrong", f"{bad}; scanned {[f'{x:.2e}' for x in v]}")]
        w.stats["strict" if not smear else "with_close_neighbours"] += 1
        if plan["full"]:
            st2, out2, why = fpfind_main(base + pre + ["--precomp-fullscan"])
            w.note("full", st2, out2)
            w.stats["fullscans"] += 1
            if st2:
                return [("fullscan-failed", f"full scan fails ({why}), stopping scan prints {out!r}")]
            if out2 != out:
                return [("fullscan-differs", f"full scan prints {out2!r}, stopping scan {out!r}")]
        if plan["stray"]:
            # the same values in the other order must lead to the same estimate
            other = pre[:-1] if plan["ordered"] else pre + ["--precomp-ordered"]
            v2 = scan_values(plan["start"], plan["step"], plan["stop"], not plan["ordered"])
            if v2 and len(v2) <= 20 and min(abs(p["u"] - x) for x in v2) <= 1e-5:
                st3, out3, why = fpfind_main(base + other)
                w.note("other", st3, out3)
                w.stats["orders_compared"] += 1
                got3 = parse(out3) if st3 == 0 else None
                if got3 is None:
                    return [("order-failed", f"other scan order gives no result ({why or out3!r})")]
                others = [abs(p["u"] - x) for x in v2 if 1e-5 < abs(p["u"] - x) < 2e-4]
                bad = judge(p, got3, want, "other scan order: ", max(others, default=0.0) * L.window(p))
                if bad and not self.deceived(plan, w, A, B, got3, v2):
                    return [("order-wrong", bad)]
        return []


# ------------------------------------------------------------------ F05

LONGOPT = {"-q": "buffer-order", "-R": "initial-res", "-r": "final-res", "-k": "num-wraps", "-s": "separation", "-S": "threshold", "-t": "reference",
           "-T": "target", "-d": "sendfiles", "-D": "t1files", "-e": "first-epoch", "-z": "skip-epochs", "-V": "output", "-X": "legacy"}


class F05(Link):
    quick, thorough = 1500, 50000
    KINDS = ("clock", "verbose", "logfile", "legacy", "config", "long", "quiet", "again", "between", "transfers", "order", "script", "save", "default")

    def gen(self, rng):
        p = gen_link(rng, bursts=rng.random() < 0.3, far=True)
        plan = {"link": p, **gen_io(rng), "S0": gen_S0(rng, p), "ep": None, "mode": rng.choice([0, 0, 1, 2, 8, 9]), "faults": [],
                "clock": None, "vars": []}
        if rng.random() < 0.3 and p["style"] == "short":
            plan["ep"] = gen_epoch_mode(rng)
        for _ in range(rng.choice([1, 2, 3])):
            plan["vars"].append(sorted(rng.sample(self.KINDS, rng.choice([1, 2, 3]))))
        plan["clock"] = {"start": rng.choice([0, 1, 86399, 1667952000, 2 ** 31 - 2, 2 ** 31 + 5, 4102444799, rng.randrange(1, 4 * 10 ** 9)]),
                         "steps": [rng.choice([0, 1e-6, 1, 3600, -3600, -86400 * 365, 86400 * 366, -1e-3]) for _ in range(rng.randrange(1, 8))]}
        if rng.random() < 0.5:
            plan["faults"] = [{"op": rng.choice(["write", "write", "close"]), "role": "log", "n": rng.randrange(1, 12), "kind": rng.choice(["ENOSPC", "EIO"]),
                               "sticky": rng.random() < 0.6}]
        return plan

    def valid(self, plan):
        return link_valid(plan["link"]) and S0_ok(plan) and plan["clock"] and plan["clock"]["steps"] and plan["clock"]["start"] >= 0 and \
            (not plan["ep"] or (0 < plan["ep"]["frac"] < 1 and plan["ep"]["e0"] > 1 << 28 and plan["ep"]["order"] >= 10))

    def run(self, plan, w):
        p = plan["link"]
        A, B = L.link(p)
        if plan["ep"]:
            data = epoch_setup(w, p, plan["ep"], A, B)
        else:
            store_raw(w, p, A, B, plan["S0"])
            store_raw(w, p, A, B, plan["S0"], True, ("al.dat", "bl.dat"))
            data = ["-t", "a.dat", "-T", "b.dat"]
        w.roles[os.path.join(w.root, "run.log")] = "log"
        count_faults(w, p)
        shape(w, p)
        opts = options(p) + (["-V", str(plan["mode"])] if plan["mode"] else [])
        w.clock = lambda: 1.7e9
        short, buf = w.short, w.buf
        w.short, w.buf = [], 8192
        st, out, why = fpfind_main(data + opts)
        w.note(st, out)
        if st == 2:
            return [("hang", why)]
        ticks = [plan["clock"]["start"], 0]

        def clock():
            s = plan["clock"]["steps"]
            ticks[0] = min(max(ticks[0] + s[ticks[1] % len(s)], 0), 4.2e9)
            ticks[1] += 1
            return float(ticks[0])
        for var in plan["vars"]:
            w.shape(var)
            args, pre, short_, legacy = list(opts), [], [], False
            w.clock = clock if "clock" in var else (lambda: 1.7e9)
            w.short, w.buf = (short, buf) if "transfers" in var else ([], 8192)
            d = list(data)
            if "legacy" in var and not plan["ep"]:
                d = ["-t", "al.dat", "-T", "bl.dat", "-X"]
            args = d + args
            if "order" in var:
                pairs, i = [], 0
                while i < len(args):
                    n = 1 if args[i] == "-X" else 2
                    pairs.append(args[i:i + n])
                    i += n
                args = sum(pairs[::-1], [])
            conf = "config" if "config" in var else "default" if "default" in var else None
            if conf:
                text, rest, i = "", [], 0
                while i < len(args):
                    if args[i] == "-X":
                        text += "legacy = true\n"
                        i += 1
                        continue
                    if args[i] in ("-t", "-T", "-d", "-D") and (conf == "config" or p["seed"] & 1):
                        rest += args[i:i + 2]
                    else:
                        text += f"{LONGOPT[args[i]]} = {args[i + 1]}\n"
                    i += 2
                put(w, "run.conf" if conf == "config" else "fpfind.default.conf", text.encode())
                args = rest + (["--config", "run.conf"] if conf == "config" else [])
            if "long" in var:
                args = ["--" + LONGOPT[x] if x in LONGOPT else x for x in args]
            if "verbose" in var:
                args += [["-v", "-vv", "-vvv"][p["seed"] % 3]]
            if "logfile" in var:
                args += ["-L", "run.log"]
                if "verbose" not in var:
                    args += ["-vv"]
            if "quiet" in var:
                args += ["--quiet"]
            if "save" in var:
                st2, out2, why2 = fpfind_main(args + ["--save", "saved.conf"])
                if st2 == 2:
                    return [("hang", why2)]
                if st2 or parse(out2, plan["mode"]) or not os.path.exists(os.path.join(w.exec_dir, "saved.conf")):
                    return [("not-saved", f"{'/'.join(var)}: --save saved.conf ends with {why2 or 'success'}, prints {out2!r}")]
                args = ["--config", "saved.conf"]
            if "between" in var:
                q = dict(p, seed=p["seed"] ^ 1, u=-p["u"], D=-p["D"] / 2)
                A2, B2 = L.link(q)
                store_raw(w, q, A2, B2, plan["S0"], False, ("a2.dat", "b2.dat"))
                fpfind_main(["-t", "a2.dat", "-T", "b2.dat", "-vv"] + options(q))
            for _ in range(2 if "again" in var else 1):
                st2, out2, why2 = fpfind_main(args, "script" in var)
                w.note(var, st2, out2)
                w.stats["variants_compared"] += 1
                if st2 == 2:
                    return [("hang", why2)]
                if (st == 0) != (st2 == 0) or out != out2:
                    return [("differs", f"{'/'.join(var)}: prints {out2!r} ({why2 or 'ok'}) instead of {out!r} ({why or 'ok'})")]
                if "logfile" in var and "save" not in var and not any(k.endswith("_on_write") or k.endswith("_on_close") for k in w.delivered):
                    path = os.path.join(w.exec_dir, "run.log")
                    if not os.path.exists(path) or os.path.getsize(path) == 0:
                        return [("no-log", "-L run.log -vv leaves no log")]
            if conf == "default":
                os.unlink(os.path.join(w.exec_dir, "fpfind.default.conf"))
        w.simtime += 1
        return []


# ------------------------------------------------------------------ F06

class F06(Link):
    quick, thorough = 1600, 40000
    components = ("real: fpfind.fpfind.main and everything below it; freqcd.c compiled into the discrete-event simulator of its streams; simulated: photon "
                  "source, detectors, channel, both clocks, storage transfers, delivery of the stream to freqcd, its consumer and clock")

    def setup(self, tmp):
        self.exe = os.path.join(tmp, "fc", "freqsim")
        b = subprocess.run(["bash", os.path.join(os.environ["SIM_HERE"], "sim/c/build.sh"), os.path.dirname(self.exe)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            print("cannot build the simulator around freqcd.c:\n" + b.stdout.decode(errors="replace")[-2000:])
            sys.exit(2)

    def gen(self, rng):
        p = gen_link(rng, bursts=rng.random() < 0.3, umax=1e-4 if rng.random() < 0.4 else 2e-5)
        return {"link": p, **gen_io(rng), "S0": gen_S0(rng, p), "legacy": rng.random() < 0.3, "side": rng.choice("ab"),
                "how": rng.choice(["f", "f", "F", "d"]), "frag": rng.choice([8192, 4096, 1000, 333, 64, 40]), "jit": rng.randrange(1 << 30),
                "cap": rng.choice([[], [], [7], [100, 9], [4096, 3]]), "gap": rng.choice([0, 1, 50, 2000])}

    def valid(self, plan):
        return link_valid(plan["link"]) and S0_ok(plan) and 0 < plan["frag"] and plan["gap"] >= 0 and all(c > 0 for c in plan["cap"]) and abs(plan["link"]["u"]) <= 1.1e-4

    def run(self, plan, w):
        import json
        import random
        p = plan["link"]
        A, B = L.link(p)
        store_raw(w, p, A, B, plan["S0"], plan["legacy"])
        count_faults(w, p)
        shape(w, p)
        w.shape(plan["side"], plan["how"], plan["frag"], plan["cap"], plan["gap"])
        base = options(p) + (["-X"] if plan["legacy"] else [])
        inv = 1 if plan["side"] == "b" else 0
        mode = inv | 4 | (0 if plan["how"] == "d" else 2)
        st, out, why = fpfind_main(["-t", "a.dat", "-T", "b.dat"] + base + ["-V", str(mode)])
        w.note(st, out)
        if st:
            return []  # F01
        word = out.strip()
        if plan["how"] == "d":
            try:
                word = str(int(math.floor(float(word) * 1e10 + 0.5)))
            except ValueError:
                return [("output", f"-V {mode} printed {out!r}")]
        # through freqcd
        name = "a.dat" if plan["side"] == "a" else "b.dat"
        src = os.path.join(w.exec_dir, name)
        size = os.path.getsize(src)
        rng = random.Random(plan["jit"])
        arr, t, left = [], 2000000 if plan["how"] == "F" else 0, size
        frag = max(plan["frag"], size // 30000 + 1)
        while left:
            n = min(left, rng.randrange(1, 2 * frag))
            arr.append(f"{t}:{n}")
            left -= n
            t += rng.randrange(0, plan["gap"] + 1)
        args = (["-x"] if plan["legacy"] else []) + (["-d"] if plan["how"] == "d" else []) + (["-F", "/dev/shm/fc"] if plan["how"] == "F" else ["-f", word])
        text = "property C01\n" + "".join("arg " + a.encode().hex() + "\n" for a in args) + f"legacy {int(plan['legacy'])}\nin " + " ".join(arr) + \
            f"\nin_eof {t + 10}\nin_cap {' '.join(map(str, plan['cap'] if size < 60000 else []))}\ninfile {src}\noutfile {src}.out\n"
        if plan["how"] == "F":
            line = word + "\n"
            text += "freq_name " + "/dev/shm/fc".encode().hex() + "\nfreq " + line.encode().hex() + "\nfr " + " ".join(f"{100 + 10 * i}:1" for i in range(len(line))) + "\nfr_eof -1\n"
        plan_path = put(w, "plan.txt", text.encode())
        r = subprocess.run([self.exe, "--exec", plan_path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise RuntimeError("freqsim --exec failed: " + r.stderr.decode()[-300:])
        j = json.loads(r.stdout)
        w.note(j["trace"], j["bytes"])
        w.stats["freqcd_system_calls"] += j["calls"]
        w.ev("freqcd", plan["side"], len(arr))
        if not j["exited"] or j["rc"]:
            return [("freqcd", f"freqcd {' '.join(args)} (offset as printed by fpfind -V {mode}: {out.strip()!r}) does not complete: exited {j['exited']} status {j['rc']} {j['stderr'][:80]!r}")]
        if j["bytes"] != size:
            return [("freqcd", f"{size // 8} events in, {j['bytes'] / 8} out")]
        raw = np.fromfile(src + ".out", dtype="<u8")
        if plan["legacy"]:
            raw = (raw >> np.uint64(32)) | (raw << np.uint64(32))
        C = ((raw >> np.uint64(10)).astype(np.int64) - plan["S0"] * 256 + (1 << 53)) % (1 << 54) - (1 << 53)
        # remaining skew, directly on the corrected stream
        X = A if plan["side"] == "a" else B
        ideal = (1 + p["u"]) if plan["side"] == "a" else 1 / (1 + p["u"])
        tf, tt = tolerance(p)
        tf += (1.2e-10 if plan["how"] == "d" else 6e-11)
        span = float(X[-1] - X[0])
        got = float(C[-1] - C[0]) / span - 1
        slack = tf + 8 / span
        w.err = (abs(got - (ideal - 1)) / slack,)
        if abs(got - (ideal - 1)) > slack:
            return [("not-synchronised", f"stream {plan['side']} corrected with {' '.join(args)} runs {got - (ideal - 1):.2e} fast, the estimate resolves {tf:.1e}")]
        mid = len(C) // 2
        bend = float(C[mid] - C[0]) - float(X[mid] - X[0]) * (1 + got)
        if abs(bend) > 10:
            return [("not-uniform", f"correction is not uniform: {bend:.1f} units off in the middle of the stream")]
        # and as fpfind sees it
        os.replace(src + ".out", src)
        st, out, why = fpfind_main(["-t", "a.dat", "-T", "b.dat"] + base)
        w.note("after", st, out)
        res = parse(out) if st == 0 else None
        if res is None:
            return [("lost-after-correction", f"no result on the corrected streams ({why or out!r})")]
        if abs(res[0]) > 2 * tf:
            return [("still-skewed", f"fpfind finds a remaining skew of {res[0]:.2e} (resolution {tf:.1e})")]
        w.stats["loops_closed"] += 1
        return []


# ------------------------------------------------------------------ F07

class _Plot:
    """fpplot with stand-ins for the packages that are not installed: its argument boilerplate and its histogram routine."""
    mod = None
    calls = []

    @classmethod
    def load(cls):
        if cls.mod:
            return cls.mod
        import types
        import configargparse
        import matplotlib
        matplotlib.use("Agg")

        def default_parser(doc=None, *a, **k):
            return configargparse.ArgumentParser(add_help=False, prog="fpplot")

        def parse_or_help(parser, args=None, *a, **k):
            argv = sys.argv[1:] if args is None else args
            if not argv:
                parser.print_help(sys.stderr)
                sys.exit(1)
            return parser.parse_args(argv)

        def histogram(alice, bob, duration=None, *a, **k):
            cls.calls.append((np.array(alice, dtype=np.float128), np.array(bob, dtype=np.float128), duration))
            n = 11
            xs = np.linspace(-(duration or 1) / 2, (duration or 1) / 2, n)
            return np.arange(n) * 3 + len(cls.calls), xs

        def mod(name, **attrs):
            m = types.ModuleType(name)
            m.__dict__.update(attrs)
            m.__path__ = []
            sys.modules[name] = m
            if "." in name:
                setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        mod("boiler")
        mod("boiler.scriptutil", generate_default_parser=default_parser, parse_args_or_help=parse_or_help)
        mod("boiler.logging", set_default_handlers=lambda *a, **k: None, set_logging_level=lambda *a, **k: None)
        mod("S15lib")
        mod("S15lib.g2lib")
        mod("S15lib.g2lib.g2lib", histogram=histogram)
        import fpfind.fpplot
        cls.mod = fpfind.fpplot
        return cls.mod


def fpplot_main(argv):
    m = _Plot.load()
    import matplotlib.pyplot as plt
    plt.close("all")
    del _Plot.calls[:]
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["fpplot"] + argv
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        kind, val = call(m.main)
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        quiet()
    drawn = [(np.array(l.get_xdata()), np.array(l.get_ydata())) for n in plt.get_fignums() for ax in plt.figure(n).axes for l in ax.get_lines()]
    plt.close("all")
    st = 0 if kind == "ok" or (kind == "exit" and val in (None, 0)) else 2 if kind == "hang" else 1
    return st, list(_Plot.calls), drawn, "" if st == 0 else f"{kind}: {type(val).__name__}: {val}"[:160]


def coincidences(a, b, tol):
    i = np.searchsorted(b, a)
    best = np.full(len(a), np.inf)
    for j in (i - 1, i):
        ok = (j >= 0) & (j < len(b))
        best[ok] = np.minimum(best[ok], np.abs(np.asarray(b, dtype=float)[j[ok]] - np.asarray(a, dtype=float)[ok]))
    return int((best <= tol).sum())


class F07(Link):
    quick, thorough = 4000, 120000
    components = ("real: fpfind.fpplot (main, plotter), the readers and utilities below it and, in part of the runs, fpfind.main; simulated: photon source, detectors, "
                  "clocks, file transfer sizes and faults; stand-ins (not installed here): boiler argument boilerplate, S15lib histogram; matplotlib real, Agg")

    def setup(self, tmp):
        _Plot.load()

    def gen(self, rng):
        p = gen_link(rng, bursts=rng.random() < 0.5)
        full = rng.random() < 0.06
        if not full:
            p["N"] = rng.choice([3, 20, 60, 200])
            if rng.random() < 0.3:
                p["u"] = rng.uniform(-1e-4, 1e-4)
        plan = {"link": p, **gen_io(rng), "S0": gen_S0(rng, p, rng.choice([10 ** 9 + 1, 10 ** 13, 6 * 10 ** 13])),
                "legacy": rng.random() < 0.3, "Z": 0.0, "ep": None, "n": 1, "dur": None, "source": "estimate" if full else rng.choice(["truth", "truth", "truth", "zero", "other"]),
                "width": rng.choice([None, 1, 50, 1000.5, 2e6]), "faults": [], "save": False, "conv": rng.choice(["long", "eq"]), "cut": 0, "swapargs": rng.random() < 0.5}
        span = p["T"] * L.window(p)
        if rng.random() < 0.35 and span < 0.4e9:
            plan["ep"] = gen_epoch_mode(rng)
            plan["ep"]["first"] = rng.random() < 0.4
            plan["n"] = rng.choice([1, 2, 2])
            if plan["source"] == "estimate":
                plan["n"] = 2
            if plan["n"] == 2 and rng.random() < 0.1:
                plan["absent"] = rng.choice(["a", "b", "ab"])
            if rng.random() < 0.1:
                plan["Zfiles"] = round(rng.uniform(0, 0.6) * span * 1e-9, 6)
        elif rng.random() < 0.3:
            plan["Z"] = rng.uniform(0, 0.6) * span * 1e-9
        if rng.random() < 0.3 and not full:
            plan["dur"] = rng.uniform(0.02, 1.3) * span * 1e-9
        x = rng.random()
        if x < 0.15:
            plan["faults"] = [{"op": rng.choice(["open", "read"]), "role": "in", "n": rng.randrange(1, 4), "kind": rng.choice(["EIO", "EACCES", "vanish"])}]
            if plan["faults"][0]["kind"] == "vanish":
                plan["faults"][0]["op"] = "open"
        elif x < 0.2 and not plan["ep"]:
            plan["cut"] = rng.randrange(1, 8)
        elif x < 0.24:
            plan["save"] = True
            if rng.random() < 0.5:
                plan["faults"] = [{"op": rng.choice(["open", "write"]), "role": "out", "n": 1, "kind": rng.choice(["ENOSPC", "EIO"]), "sticky": True}]
        return plan

    def valid(self, plan):
        p, e = plan["link"], plan["ep"]
        if plan["source"] == "estimate" and not link_valid(p):
            return False
        return (p["R"] >= p["r"] >= 1 and p["N"] >= 1 and p["a"] and p["b"] and 0.05 < p["T"] < 40 and S0_ok(plan) and abs(p["D"]) <= 1e9 and plan["Z"] >= 0 and
                0 <= plan["cut"] < 8 and (plan["dur"] is None or plan["dur"] > 0) and (plan["width"] is None or plan["width"] > 0) and plan["n"] in (1, 2) and (not plan.get("absent") or (e and plan["n"] == 2)) and
                (not e or (0 < e["frac"] < 1 and e["e0"] > 1 << 28 and e["order"] >= 10 and p["T"] * L.window(p) < 0.4e9 and e["junk"] >= 0)))

    def run(self, plan, w):
        p, e = plan["link"], plan["ep"]
        A, B = L.link(p)
        if len(A) < 2 or len(B) < 2:
            return []
        Ti = np.float128
        if e:
            src = epoch_setup(w, p, e, A, B)
            base = ((e["e0"] + 1) << 37) - int(int(p["T"] * L.window(p) * 256) * e["frac"])
            hi = (e["e0"] + plan["n"]) << 37
            ea = [x for x in ((int(x) + base) // 32 * 32 for x in A.tolist()) if e["e0"] << 37 <= x < hi]
            eb = [x for x in (int(x) + base for x in B.tolist()) if e["e0"] << 37 <= x < hi]
            fsrc = list(src)
            src += ["-n", str(plan["n"])] if plan["n"] > 1 or p["seed"] & 1 else []
            src += ["-Z", repr(plan["Zfiles"])] if plan.get("Zfiles") else []  # applies to timestamp files only
            for k in plan.get("absent") or "":
                os.unlink(os.path.join(w.exec_dir, {"a": "send", "b": "t1"}[k], f"{e['e0'] + 1:08x}"))
                w.hit("torn_recording")
            org = e["e0"] << 37
            ea, eb = [np.array([x - org for x in v], dtype=Ti) / 256 for v in (ea, eb)]
            skip, eps = 0.0, 0.01
        else:
            store_raw(w, p, A, B, plan["S0"], plan["legacy"])
            src = ["-t", "a.dat", "-T", "b.dat"] + (["-X"] if plan["legacy"] else []) + (["-Z", repr(plan["Z"])] if plan["Z"] else [])
            ea, eb = A.astype(Ti) / 256, B.astype(Ti) / 256
            fsrc = list(src)
            skip, eps = plan["Z"] * 1e9, 0.02 + plan["S0"] * 2e-16 * 4
            if plan["cut"]:
                path = os.path.join(w.exec_dir, "ab"[p["seed"] & 1] + ".dat")
                os.truncate(path, os.path.getsize(path) - plan["cut"])
                w.hit("torn_recording")
        if len(ea) < 1 or len(eb) < 1:
            return []
        for d, _, files in os.walk(w.exec_dir):
            for f in files:
                w.roles[os.path.join(d, f)] = "in"
        count_faults(w, p)
        shape(w, p)
        w.shape(bool(e), plan["legacy"], plan["Z"] > 0, plan["dur"] is not None, plan["source"], plan["save"], plan["n"], plan["cut"] > 0)
        start = max(ea[0], eb[0]) + Ti(skip)
        if plan["source"] == "truth" or plan["source"] == "estimate" and (w.faults or plan["cut"] or plan.get("absent")):
            df, dt = p["u"], float(p["u"] * (start + (0 if not e else Ti(org - base) / 256)) + p["D"])
        elif plan["source"] == "zero":
            df = dt = 0.0
        elif plan["source"] == "other":
            df, dt = -3 * p["u"] + 1e-6, p["D"] * 0.3 - 1234.5
        else:
            st, out, why = fpfind_main(fsrc + options(p) + ["-V", "8"])
            got = parse(out, 8) if st == 0 else None
            w.note("estimate", st, out)
            if got is None:
                return []  # the business of F01
            df, dt = got
        args = list(src)
        given = [("--freq", repr(df * 1e6)), ("--time", repr(dt))]
        if plan["source"] == "zero":
            given = []
        if plan["width"] is not None:
            given.append(("--width", repr(plan["width"])))
        if plan["dur"] is not None:
            given.append(("--duration", repr(plan["dur"])))
        if plan["save"]:
            given.append(("--save-plot", "plot.png"))
        for k, v in (given[::-1] if plan["swapargs"] else given):
            args += [f"{k}={v}"] if plan["conv"] == "eq" or v.startswith("-") else [k, v]
        st, calls, drawn, why = fpplot_main(args)
        w.note(st, len(calls), [(len(a), len(b), d, float(a[0]) if len(a) else 0, float(b[-1]) if len(b) else 0) for a, b, d in calls])
        if st == 2:
            return [("hang", why)]
        hurt = [k for k in w.delivered if k.startswith(("EIO", "EACCES", "ENOSPC", "vanish", "torn"))]
        if hurt:
            if st == 0:
                return [("fault-hidden", f"reports success although {', '.join(hurt)}")]
            if calls and not any("write" in k or k.startswith("ENOSPC") for k in hurt) and not plan["save"]:
                return [("fault-plotted", f"plots a histogram although {', '.join(hurt)}")]
            return []
        # what has to be compared: reference and target from the common start on, within the duration asked for
        def select(v):
            v = v - start
            v, edge = v[v >= -eps], 0
            edge += int((np.abs(v) < eps).sum())
            if plan["dur"] is not None:
                d = Ti(plan["dur"] * 1e9)
                edge += int((np.abs(v - d) < eps).sum())
                v = v[v < d + eps]
            return v, edge
        (xa, na), (xb, nb) = select(ea), select(eb)
        if st:
            if len(xa) <= na + 1 or len(xb) <= nb + 1:
                return []  # nothing left to plot
            return [("failed", why)]
        if not calls:
            return [("no-histogram", "succeeds without computing a histogram")]
        if len(calls) > 1:
            return []
        ga, gb, width = calls[0]
        both, xb = xb, (xb - Ti(dt)) / (1 + Ti(df))
        for name, got, want, n in (("reference", ga, xa, na), ("target", gb, xb, nb)):
            if not len(want) - n <= len(got) <= len(want):
                return [("events", f"{len(got)} {name} events enter the histogram, {len(want)} expected")]
            if len(got) and n == 0 and float(np.max(np.abs(got - want))) > eps:
                i = int(np.argmax(np.abs(got - want)))
                return [("correction", f"{name} event {i} enters the histogram at {float(got[i]):.3f} ns instead of {float(want[i]):.3f} ns")]
            if len(got) and n and coincidences(got, want, eps) < len(got):
                return [("correction", f"{name} events enter the histogram at other times than expected")]
        if width is None or abs(width - (plan["width"] if plan["width"] is not None else 1000)) > 1e-9:
            return [("width", f"histogram width {width} instead of {plan['width'] if plan['width'] is not None else 1000}")]
        ys, xs = np.arange(11) * 3 + 1, np.linspace(-width / 2, width / 2, 11)
        if not any(len(x) == 11 and np.allclose(x, xs) and np.allclose(y, ys) for x, y in drawn):
            return [("drawing", "the histogram is not what is drawn")]
        if plan["source"] in ("truth", "estimate") and len(ga) > 5:
            s = math.sqrt(p["a"]["jitter"] ** 2 + p["b"]["jitter"] ** 2)
            tol = 0.3 + 5 * s + (1.0 if plan["source"] == "truth" else 2 * tolerance(p)[1] + tolerance(p)[0] * float(ga[-1]))
            true = coincidences(xa, (both - Ti(p["u"] * float(start + (0 if not e else Ti(org - base) / 256)) + p["D"])) / (1 + Ti(p["u"])), 0.3 + 5 * s + 1.0)
            w.stats["alignments_judged"] += 1
            if coincidences(ga, gb, tol) < 0.5 * true - 3:
                return [("misaligned", f"{coincidences(ga, gb, tol)} coincidences within {tol:.1f} ns of zero delay, {true} simulated")]
        if plan["save"]:
            path = os.path.join(w.exec_dir, "plot.png")
            if not os.path.exists(path) or os.path.getsize(path) < 1000:
                return [("plot-file", "no plot saved")]
        return []
