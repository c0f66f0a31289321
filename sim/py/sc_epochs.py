"""Epoch files: damaged reads (E01), write/read cycle (E02), overlap search (E03), epoch windows (E04), headers (E05)."""
import os, pathlib, struct
from fractions import Fraction

import numpy as np

from engine import Scenario
import seams
from seams import call
import fpfind
from fpfind.lib import parse_epochs as E, utils as U
from fpfind.lib.logging import logging as _logging

TSRES = fpfind.TSRES
for _n in ("fpfind.lib.parse_epochs", "fpfind.fpfind"):
    _logging.getLogger(_n).setLevel(_logging.CRITICAL)
    _logging.getLogger(_n).handlers = [_logging.NullHandler()]
RES = {"NS1": TSRES.NS1, "PS125": TSRES.PS125, "PS4": TSRES.PS4}
UNITS = {"NS1": 1, "PS125": 8, "PS4": 256}


# ------------------------------------------------------------------ independent encoders

def enc_t1(epoch, events, n=None):
    lsb = epoch & 0x1FFFF
    b = struct.pack("<iIIii", 0x101, epoch, len(events) if n is None else n, 49, 4)
    for t, p in events:
        v = (((lsb << 37) | t) << 10) | p
        b += struct.pack("<II", v >> 32, v & 0xFFFFFFFF)
    return b + bytes(8)


def bits(vals):
    acc, n, out = 0, 0, []
    for v, w in vals:
        acc = (acc << w) | v
        n += w
        while n >= 32:
            out.append(struct.pack("<I", acc >> (n - 32)))
            n -= 32
            acc &= (1 << n) - 1
    if n:
        out.append(struct.pack("<I", acc << (32 - n)))
    return b"".join(out)


def enc_t2(epoch, events, order, bb, n=None):
    """events: (t in 125 ps within the epoch, base)"""
    v, prev = [], 0
    for t, p in events:
        d, prev = t - prev, t
        v += [(d, order)] if 2 <= d < (1 << order) else [(0, order), (d, 32)]
        v.append((p, bb))
    v += [(1, order), (0, bb)]
    return struct.pack("<iIIiii", 0x102, epoch, len(events) if n is None else n, order, bb, 0) + bits(v)


def enc_t4(epoch, events, order, bb, n=None):
    v, prev = [], 0
    for t, p in events:
        d, prev = t - prev + 2, t
        v += [(d, order)] if 2 <= d < (1 << order) else [(0, order), (d, 32)]
        v.append((p, bb))
    v += [(1, order), (0, bb)]
    return struct.pack("<IIIII", 0x104, epoch, len(events) if n is None else n, order, bb) + bits(v)


def enc_t3(epoch, events):
    b = bytes(events) + bytes(-len(events) % 4)
    w = b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
    return struct.pack("<iIIi", 0x103, epoch, len(events), 8) + w


def exact(x):
    """Exact rational value of a number returned by the code under test."""
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    n, d = x.as_integer_ratio()
    return Fraction(int(n), int(d))


def expected_time(t_total_ps4, res, fractional):
    f = Fraction(t_total_ps4 * UNITS[res], 256)
    return f if fractional else Fraction(f.numerator // f.denominator)


def close(x, want, full):
    """Equal; with the full epoch in a fractional format up to the precision of a long double."""
    x = exact(x)
    if x == want:
        return True
    return full and abs(x - want) <= want / 2 ** 62


def gen_times(rng, n, top, style=None):
    style = style or rng.choice(["uniform", "dense", "edge", "bursts"])
    if style == "uniform":
        ts = [rng.randrange(top) for _ in range(n)]
    elif style == "dense":
        b = rng.randrange(top)
        ts = [min(top - 1, b + rng.randrange(300)) for _ in range(n)]
    elif style == "edge":
        ts = [rng.choice([0, 1, 2, 31, 32, 255, 256, top - 1, top - 2, top // 2, rng.randrange(top)]) for _ in range(n)]
    else:
        ts, b = [], rng.randrange(top)
        for _ in range(n):
            if rng.random() < 0.2:
                b = rng.randrange(top)
            ts.append(min(top - 1, b + rng.randrange(1 << 20)))
    return sorted(ts)


def gen_many(rng, n):
    """Now and then more events than one buffer of the storage layer holds."""
    return int(10 ** rng.uniform(2.2, 3.6)) if rng.random() < 0.015 else n


def gen_epoch(rng):
    r = rng.random()
    if r < 0.5:
        return rng.randrange(0xB0000000, 0xC0000000)
    if r < 0.7:
        return (rng.randrange(1 << 15) << 17) + rng.choice([0, 1, 0x1FFFF, 0x1FFFE])
    return rng.choice([1, 0x1FFFF, 0x20000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, rng.randrange(1, 1 << 32)])


def gen_short(rng):
    r = rng.random()
    if r < 0.4:
        return []
    return [rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 13, 64, 500]) for _ in range(rng.randrange(1, 5))]


def gen_buf(rng):
    return rng.choice([8192, 8192, 1, 3, 8, 16, 20, 64, 512, 4096])


class E01(Scenario):
    quick, thorough = 24000, 900000
    fixed_lists = ("short",)
    components = "real: parse_epochs readers; simulated: file layer (short reads, errors, truncation, a writer still appending); stub: none"
    rule = Scenario.rule

    def gen(self, rng):
        fmt = rng.choice(["T1", "T1", "T2", "T2", "T3", "T4"])
        n = gen_many(rng, rng.choice([0, 1, 2, 3, 5, 9, 20, 40]))
        epoch = gen_epoch(rng)
        plan = {"fmt": fmt, "epoch": epoch, "res": rng.choice(list(RES)), "fractional": rng.random() < 0.5, "full": rng.random() < 0.5,
                "order": 17, "bb": 4, "n_in_header": rng.random() < 0.9, "short": gen_short(rng), "buf": gen_buf(rng), "faults": []}
        if fmt == "T1":
            ev = [[t, rng.randrange(16)] for t in gen_times(rng, n, 1 << 37)]
        elif fmt == "T2":
            plan["order"], plan["bb"] = rng.choice([(17, 4), (17, 4), (10, 4), (20, 2), (8, 1), (16, 4), (32, 4), (17, 8), (2, 4)])
            ev = [[t, rng.randrange(1 << plan["bb"])] for t in gen_times(rng, n, 1 << 32)]
        elif fmt == "T4":
            plan["order"], plan["bb"] = rng.choice([(17, 4), (8, 4), (6, 2), (10, 1), (32, 4), (12, 8)])
            ev = [[t, rng.randrange(1 << plan["bb"])] for t in gen_times(rng, n, (1 << 30) if rng.random() < 0.7 else (1 << 32) - 4)]
        else:
            ev = [rng.choice([0x11, 0x14, 0x28, 0x41, 0x82, 0x12, 0x22, 0x44, 0x88, 0x81, rng.randrange(256), 0x30, 0x03]) for _ in range(n)]
        if fmt in ("T2", "T3", "T4"):
            plan["n_in_header"] = plan["n_in_header"] or fmt == "T3"
        plan["events"] = ev
        size = len(self.encode(plan))
        d = rng.random()
        if d < 0.05 and fmt != "T3":  # ends properly, but with fewer events than announced
            plan["damage"], plan["missing"], plan["n_in_header"] = "count", rng.choice([1, 2, 50, rng.randrange(1, 1 << 30)]), True
        elif d < 0.25:
            plan["damage"] = "none"
        elif d < 0.65:
            plan["damage"] = "cut"
            plan["cut"] = rng.randrange(size) if rng.random() < 0.6 else max(0, size - rng.randrange(1, 24))
        elif d < 0.85:
            plan["damage"] = "live"
            cuts = sorted(rng.randrange(size + 1) for _ in range(rng.randrange(1, 5)))
            plan["cut"] = cuts[0]
            at = 0
            for a, b in zip(cuts, cuts[1:] + ([size] if rng.random() < 0.6 else [])):
                at += rng.randrange(1, 5)
                plan["faults"].append({"op": "read", "n": at, "kind": "append", "arg": [a, b]})
        else:
            plan["damage"] = "eio"
            plan["faults"].append({"op": rng.choice(["read", "read", "open"]), "n": rng.randrange(1, 8), "kind": "EIO"})
        return plan

    def valid(self, plan):
        e = plan["events"]
        if plan["fmt"] == "T3":
            return all(0 <= x < 256 for x in e)
        ts = [x[0] for x in e]
        if any(len(x) != 2 for x in e) or ts != sorted(ts) or not 0 <= plan["epoch"] < 2 ** 32:
            return False
        return plan["damage"] in ("none", "eio", "count") or plan["cut"] <= len(self.encode(plan))

    def events(self, plan):
        if plan["fmt"] == "T1" and not plan["epoch"] & 0x1FFFF:  # an all-zero event is the end mark by definition
            return [(t, p if t or p else 1) for t, p in plan["events"]]
        return plan["events"]

    def encode(self, plan):
        n = None if plan["n_in_header"] else 0
        ev = self.events(plan)
        if plan.get("missing"):
            n = len(ev) + plan["missing"]
        if plan["fmt"] == "T1":
            return enc_t1(plan["epoch"], ev, n)
        if plan["fmt"] == "T2":
            return enc_t2(plan["epoch"], ev, plan["order"], plan["bb"], n)
        if plan["fmt"] == "T4":
            return enc_t4(plan["epoch"], ev, plan["order"], plan["bb"], n)
        return enc_t3(plan["epoch"], ev)

    def t3_counts(self, ev):
        dec = {1: 0, 2: 1, 4: 2, 8: 3}
        m, g = [0] * 16, [0, 0]
        for x in ev:
            a, b = dec.get(x >> 4), dec.get(x & 15)
            if a is not None and b is not None:
                m[4 * a + b] += 1
            else:
                g[0] += a is None
                g[1] += b is None
        return m, g

    def run(self, plan, w):
        fmt = plan["fmt"]
        full = self.encode(plan)
        name = f"{plan['epoch']:x}"
        data = full[:plan["cut"]] if plan["damage"] in ("cut", "live") else full
        path = os.path.join(w.exec_dir, name)
        with seams._real_open(path, "wb") as f:
            f.write(data)
        for f in w.faults:
            if f["kind"] == "append":
                f["arg"] = full[f["arg"][0]:f["arg"][1]].hex()
        w.shape(fmt, plan["damage"], len(plan["events"]) > 0)
        if plan["damage"] in ("cut", "count"):
            w.hit("truncated_file" if plan["damage"] == "cut" else "count_mismatch")
        ev = self.events(plan)
        if fmt in ("T1", "T2"):
            k, r = call(E.read_T1 if fmt == "T1" else E.read_T2, path, full_epoch=plan["full"], resolution=RES[plan["res"]],
                        fractional=plan["fractional"])
        else:
            k, r = call(E.read_T3 if fmt == "T3" else E.read_T4, path)
        w.note(k, type(r).__name__ if k != "ok" else "")
        with seams._real_open(path, "rb") as f:
            complete = f.read() == full
        if k == "hang":
            return [("hang", f"{fmt} reader does not finish: {r}")]
        if k in ("error", "exit"):
            if complete and not w.delivered.get("EIO_on_read") and not w.delivered.get("EIO_on_open") and plan["damage"] == "none":
                return [("complete-rejected", f"complete {fmt} file rejected: {r!r}")]
            return []
        if k != "ok":
            return [("unexpected", f"{fmt} reader: {k}")]
        if plan["damage"] == "count" and plan["missing"]:
            return [("too-few", f"{fmt}: {len(ev)} events stored and read, header announces {len(ev) + plan['missing']}")]
        if plan["damage"] in ("none", "eio"):
            w.stats["complete_files_read"] += 1
        # result returned
        if fmt == "T3":
            got = (list(r.coinc_matrix), list(r.garbage))
            w.note(repr(got), repr(r.qber))
            stored = os.path.getsize(path) - 16
            m = len(ev) if plan["damage"] == "none" else max(0, min(len(ev), stored))
            ok = False
            for c in [m] if m == len(ev) else []:  # the header announces how many there have to be
                mm, gg = self.t3_counts(ev[:c])
                if got == (mm, gg) and r.okcount == sum(mm):
                    er, gd = sum(mm[i] for i in (0, 5, 10, 15)), sum(mm[i] for i in (2, 7, 8, 13))
                    if abs(r.qber - (er / (er + gd) if er + gd else 0.5)) <= 0.00051:
                        ok = True
                        break
            if not ok:
                return [("t3-counts", f"T3 counts {got} okcount {r.okcount} qber {r.qber} for events {ev}, damage {plan['damage']}")]
            return []
        t, p = r
        t, p = list(t), list(p)
        w.note([str(x) for x in t[:20]], [int(x) for x in p[:20]])
        if len(t) != len(p) or len(t) > len(ev):
            return [("invented", f"{fmt}: {len(t)} timestamps, {len(p)} patterns returned, {len(ev)} written")]
        for i in range(len(t)):
            if fmt == "T4":
                want, fl = Fraction(ev[i][0]), False
            else:
                e = plan["epoch"]
                base = (e >> 17 << 54 if plan["full"] else 0) + ((e & 0x1FFFF) << 37)
                want = expected_time(base + ev[i][0] * (1 if fmt == "T1" else 32), plan["res"], plan["fractional"])
                fl = plan["full"] and plan["fractional"]
            if not close(t[i], want, fl) or int(p[i]) != ev[i][1]:
                return [("wrong-event", f"{fmt} event {i}: read {t[i]},{p[i]} but stored {want},{ev[i][1]} "
                         f"({plan['res']} fractional={plan['fractional']} full={plan['full']}, damage {plan['damage']})")]
        if len(t) < len(ev):
            if plan["damage"] == "none":
                return [("lost-event", f"{fmt}: {len(t)} of {len(ev)} events of a complete file returned")]
            if plan["n_in_header"]:
                return [("too-few", f"{fmt}: {len(t)} events returned, header announces {len(ev)} ({plan['damage']})")]
            if fmt != "T1":
                return [("no-end-mark", f"{fmt}: cut file accepted with {len(t)} of {len(ev)} events ({plan['damage']})")]
        elif fmt != "T1" and plan["damage"] in ("cut",) and plan["cut"] < len(full):
            return [("no-end-mark", f"{fmt}: file cut at {plan['cut']} of {len(full)} bytes accepted")]
        return []


class E02(Scenario):
    quick, thorough = 20000, 700000
    fixed_lists = ("short",)
    components = "real: write_T1, read_T1; simulated: file layer (crash at any write, ENOSPC, EIO, short writes, older file present)"

    def gen(self, rng):
        n = gen_many(rng, rng.choice([0, 1, 2, 3, 8, 30, 120]))
        mk = lambda m: [[t, rng.randrange(16)] for t in gen_times(rng, m, 1 << 37)]
        plan = {"epoch": gen_epoch(rng), "high": rng.random() < 0.1, "events": mk(n), "old": mk(rng.choice([0, n, n + 5])) if rng.random() < 0.3 else None,
                "kind": rng.choice(["list", "uint64", "int64", "object", "float128"]), "det": rng.choice(["list", "array", "scalar", "npscalar"]),
                "short": gen_short(rng), "buf": gen_buf(rng), "faults": [], "capacity": None, "mismatch": rng.choice([-1, 1, -n]) if n and rng.random() < 0.03 else 0}
        r = rng.random()
        size = 28 + 8 * n
        if r < 0.3:
            plan["faults"] = [{"op": "any", "n": rng.randrange(1, 3 + size // min(plan["buf"], size)), "kind": "crash", "arg": rng.randrange(64)}]
        elif r < 0.45:
            plan["capacity"] = rng.randrange(size)
        elif r < 0.6:
            plan["faults"] = [{"op": rng.choice(["write", "write", "open", "close"]), "role": "out", "n": rng.randrange(1, 3), "kind": rng.choice(["EIO", "ENOSPC", "EDQUOT"]),
                               "arg": rng.randrange(64), "sticky": rng.random() < 0.5}]
        return plan

    def valid(self, plan):
        ts = [x[0] for x in plan["events"]]
        return ts == sorted(ts) and all(len(x) == 2 for x in plan["events"] + (plan["old"] or [])) and 0 <= plan["epoch"] < 2 ** 32

    def run(self, plan, w):
        epoch = plan["epoch"]
        fixz = lambda L: [(t, p if t or p or epoch & 0x1FFFF else 1) for t, p in L]
        ev = fixz(plan["events"])
        path = os.path.join(w.exec_dir, f"{epoch:x}")
        old = None
        if plan["old"] is not None:
            old = enc_t1(epoch, fixz(plan["old"]))
            with seams._real_open(path, "wb") as f:
                f.write(old)
        ts, ps = [t for t, _ in ev], [p for _, p in ev]
        if plan["det"] in ("scalar", "npscalar"):
            d = (ps or [3])[0] or 1
            ps = [d] * len(ts)
            det = d if plan["det"] == "scalar" else np.int64(d)
        else:
            det = ps if plan["det"] == "list" else np.array(ps, dtype=np.uint8)
        ev = list(zip(ts, ps))
        conv = {"list": list, "uint64": lambda x: np.array(x, dtype=np.uint64), "int64": lambda x: np.array(x, dtype=np.int64),
                "object": lambda x: np.array(x, dtype=object), "float128": lambda x: np.array(x, dtype=np.float128)}[plan["kind"]]
        w.shape(plan["kind"], plan["det"], old is not None, len(ev) > 0)
        if plan["mismatch"] and ts and plan["det"] in ("list", "array"):
            short = ps[:plan["mismatch"]] if plan["mismatch"] < 0 else ps + [1]
            k, r = call(E.write_T1, w.exec_dir, epoch, conv(ts), short if plan["det"] == "list" else np.array(short, dtype=np.uint8))
            w.finish()
            w.note(k)
            return [] if k in ("error", "crash") else [("mismatch-accepted", f"{len(ts)} timestamps and {len(short)} patterns: {k}")]
        k, r = call(E.write_T1, w.exec_dir, epoch + (1 << 32 if plan["high"] else 0), conv(ts), det)
        for t in w.top:
            try:
                t.close()
            except BaseException:
                pass
        w.note(k, type(r).__name__ if k == "error" else "")
        hard = [x for x in w.delivered if not x.startswith("short")]
        if k == "hang":
            return [("hang", "write_T1 does not finish")]
        if not hard:
            if k != "ok":
                return [("write-failed", f"write_T1 failed without a fault: {r!r} ({plan['kind']}, {plan['det']})")]
            if os.path.realpath(str(r)) != path:
                return [("wrong-file", f"written to {r}, expected name {epoch:x}")]
            with seams._real_open(path, "rb") as f:
                head = f.read(20)
            if head != struct.pack("<iIIii", 0x101, epoch, len(ev), 49, 4):
                return [("wrong-header", f"header {head.hex()} for {len(ev)} events in epoch {epoch:x}")]
        elif k == "ok":
            return [("swallowed", f"write_T1 reported success although {hard}")]
        w.faults, w.capacity, w.dead = [], None, False
        if not os.path.exists(path):
            if not hard:
                return [("missing", "no file written")]
            return []
        for res in ([None] if hard else list(RES)):
            for frac in ((False,) if hard else (False, True)):
                for full in ((False,) if hard else (False, True)):
                    k, r = call(E.read_T1, path, full, RES[res or "PS4"], frac)
                    if k == "hang":
                        return [("hang", "reading back does not finish")]
                    if k != "ok":
                        if hard:
                            w.stats["damaged_rejected"] += 1
                            return []
                        return [("readback-failed", f"reading back failed: {r!r} ({res} fractional={frac} full={full})")]
                    t, p = list(r[0]), list(r[1])
                    cands = [ev] + ([fixz(plan["old"])] if hard and old is not None else [])
                    good = False
                    why = ""
                    for ci, c in enumerate(cands):
                        if len(t) != len(p) or len(t) > len(c) or (len(t) < len(c) and (not hard or ci == 1)):
                            why = why or f"{len(t)} events read back, {len(c)} written"
                            continue
                        base = ((epoch >> 17 << 54) if full else 0) + ((epoch & 0x1FFFF) << 37)
                        for i in range(len(t)):
                            want = expected_time(base + c[i][0], res or "PS4", frac)
                            if not close(t[i], want, full and frac) or int(p[i]) != c[i][1]:
                                why = why or f"event {i}: read back {t[i]},{p[i]}, written {want},{c[i][1]} ({res} fractional={frac} full={full})"
                                break
                        else:
                            good = True
                            break
                    if not good:
                        return [("corrupt-after-fault" if hard else "not-lossless", why + f", faults {hard}")]
                    if hard:
                        w.stats["prefix_returned"] += 1
        return []


class E03(Scenario):
    quick, thorough = 20000, 600000
    components = "real: get_first_overlapping_epoch; simulated: directory listing order, epochs arriving and disappearing during the scan"

    def gen(self, rng):
        base = rng.choice([0xBA0A1234, 0xBA0BFFFD, 0xFFFD, 0xFFFFFFE0, 3, 0xFFFFFFD, rng.randrange(1 << 31)])
        span = rng.choice([3, 6, 12, 24])
        dens = rng.choice([0.2, 0.5, 0.8, 1.0])
        d = [sorted({base + rng.randrange(span) for _ in range(int(span * dens) + rng.randrange(3))}) if rng.random() < 0.95 else [] for _ in range(2)]
        plan = {"dirs": d, "first": None, "ret": rng.random() < 0.8, "listings": [], "as_path": rng.random() < 0.5, "base": base, "span": span}
        if rng.random() < 0.5:
            plan["first"] = max(0, base + rng.randrange(-2, span + 3))
        if rng.random() < 0.1:
            plan["first"] = rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(1 << 32)])
        if rng.random() < 0.1:  # epochs from long ago or, by a wrong clock, from far ahead
            for _ in range(rng.randrange(1, 5)):
                e = rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 20), 0, 0xFFFFFFFF])
                for x in rng.choice(["a", "b", "ab", "ab"]):
                    d["ab".index(x)] = sorted({*d["ab".index(x)], e})
        plan["runs"] = [0, 0]
        if rng.random() < 0.004:  # a measurement of minutes to an hour
            plan["runs"] = [rng.choice([250, 256, 257, 300, 1000, 1030, 5000]) + rng.randrange(3) for _ in range(2)]
        for i in range(2):
            L = {"perm": [rng.randrange(100) for _ in range(rng.randrange(1, 30))], "before": [], "during": []}
            if rng.random() < 0.5:
                for _ in range(rng.randrange(1, 6)):
                    a = {"dir": rng.choice("ab"), "name": f"{base + rng.randrange(span):x}", "act": rng.choice(["add", "add", "del"])}
                    if rng.random() < 0.4:
                        L["before"].append(a)
                    else:
                        L["during"].append(dict(a, at=rng.randrange(span)))
            plan["listings"].append(L)
        return plan

    def run(self, plan, w):
        for d, ep, n in zip("ab", plan["dirs"], plan["runs"]):
            os.mkdir(os.path.join(w.exec_dir, d))
            for e in sorted({*ep, *range(plan["base"], plan["base"] + n)}):
                with seams._real_open(os.path.join(w.exec_dir, d, f"{e:x}"), "wb"):
                    pass
            w.record_state(d)
        w.stats["listings"] += 2
        first = None if plan["first"] is None else f"{plan['first']:x}"
        p = (lambda d: pathlib.Path(w.exec_dir) / d) if plan["as_path"] else (lambda d: os.path.join(w.exec_dir, d))
        k, r = call(U.get_first_overlapping_epoch, p("a"), p("b"), first_epoch=first, return_length=plan["ret"])
        w.note(k, repr(r))
        if k != "ok":
            return [("failed", f"search failed: {k} {r!r}")]
        snaps = {}
        for d, names in w.snapshots:
            snaps.setdefault(d, []).append(names)
        exact_once = all(len(snaps.get(d, [])) == 1 for d in "ab")
        if exact_once:
            combos = [(snaps["a"][0], snaps["b"][0])]
        else:
            combos = [(x, y) for x in w.states["a"] for y in w.states["b"]]
        answers = []
        for x, y in combos:
            common = {int(v, 16) for v in x} & {int(v, 16) for v in y}
            common = {v for v in common if plan["first"] is None or v >= plan["first"]}
            if common:
                m = min(common)
                n = 1
                while m + n in common:
                    n += 1
                answers.append((f"{m:x}", n))
            else:
                answers.append((None, 0))
        got = r if plan["ret"] else (r, None)
        ok = any(got[0] == a[0] and (not plan["ret"] or int(got[1]) == a[1]) for a in answers)
        w.stats["overlap_found" if got[0] else "no_overlap"] += 1
        if not ok:
            return [("wrong-overlap", f"returned {r!r}, correct for the listed contents: {answers[:3]} (first epoch {first})")]
        return []


class E04(Scenario):
    quick, thorough = 12000, 400000
    fixed_lists = ("short",)
    fixed_dicts = ("epochs",)
    components = "real: get_timestamp, read_T1, read_T2; simulated: file layer, epochs missing, damaged or vanishing during the load"

    def gen(self, rng):
        num = rng.choice([1, 1, 2, 3, 5])
        skip = rng.choice([0, 0, 1, 2])
        r = rng.random()
        if r < 0.45:
            first = (rng.randrange(1, 1 << 15) << 17) - rng.randrange(0, num + skip + 2)
        elif r < 0.6:
            first = (rng.randrange(1, 1 << 15) << 17) + rng.randrange(0, 3)
        else:
            first = rng.choice([0xBA0A1234, rng.randrange(1, 1 << 31), 0xFFFD])
        plan = {"first": first, "skip": skip, "num": num, "epochs": {}, "short": gen_short(rng), "buf": gen_buf(rng), "faults": [], "damage": None,
                "npint": rng.random() < 0.3}
        for i in range(-1, num + skip + 1):
            for k in ("T1", "T2"):
                plan["epochs"][f"{k}:{i}"] = [[t, rng.randrange(16)] for t in gen_times(rng, gen_many(rng, rng.choice([0, 1, 2, 6, 12])), 1 << (37 if k == "T1" else 32))]
        r = rng.random()
        if r < 0.15:
            plan["damage"] = {"kind": rng.choice(["T1", "T2"]), "at": rng.randrange(num), "how": "missing", "arg": 0}
        elif r < 0.3:
            plan["damage"] = {"kind": rng.choice(["T1", "T2"]), "at": rng.randrange(num), "how": "cut", "arg": rng.randrange(1, 200)}
        elif r < 0.4:
            plan["faults"] = [{"op": "open", "n": rng.randrange(1, 4 * num + 1), "kind": "vanish"}]
        elif r < 0.5:
            plan["faults"] = [{"op": rng.choice(["open", "read"]), "n": rng.randrange(1, 4 * num + 4), "kind": "EIO"}]
        return plan

    def valid(self, plan):
        return plan["num"] >= 1 and plan["first"] >= 1 and all([x[0] for x in e] == sorted(x[0] for x in e) for e in plan["epochs"].values()) and \
            all(f"{k}:{i}" in plan["epochs"] for k in ("T1", "T2") for i in range(-1, plan["num"] + plan["skip"] + 1))

    def run(self, plan, w):
        first, skip, num = plan["first"], plan["skip"], plan["num"]
        out = []
        dmg = plan["damage"]
        absolute = {}
        for k in ("T1", "T2"):
            os.mkdir(os.path.join(w.exec_dir, k))
            absolute[k] = []
            for i in range(-1, num + skip + 1):
                e = first + i
                ev = plan["epochs"][f"{k}:{i}"]
                if k == "T1" and not e & 0x1FFFF:
                    ev = [(t, p if t or p else 1) for t, p in ev]
                b = enc_t1(e, ev) if k == "T1" else enc_t2(e, ev, 17, 4)
                d = dmg if dmg and dmg["kind"] == k and i == skip + dmg["at"] else None
                if d and d["how"] == "cut":
                    b = b[:max(0, len(b) - d["arg"])]
                    if k == "T1" and len(ev) == 0 and len(b) >= 20:
                        b = b[:12]  # an empty T1 epoch without its end mark is indistinguishable from a complete one
                    if k == "T1" and len(b) >= 20 + 8 * len(ev):
                        b = b[:20 + 8 * len(ev) - 1]
                if not (d and d["how"] == "missing"):
                    with seams._real_open(os.path.join(w.exec_dir, k, f"{e:x}"), "wb") as f:
                        f.write(b)
                if skip <= i < skip + num:
                    absolute[k] += [Fraction(e << 29) + Fraction(t * (1 if k == "T1" else 32), 256) for t, _ in ev]
        if dmg:
            w.hit("epoch_" + dmg["how"])
        w.simtime += num * 0.537
        consts = {}
        w.shape(bool(dmg), (first >> 17) != ((first + skip + num - 1) >> 17), num)
        for k in ("T1", "T2"):
            before = dict(w.delivered)
            n = np.int32(num) if plan["npint"] else num
            kind, r = call(U.get_timestamp, os.path.join(w.exec_dir, k), k, f"{first:x}", skip, n)
            w.note(k, kind)
            faulty = (dmg and dmg["kind"] == k) or any(w.delivered[x] > before.get(x, 0) for x in w.delivered if x in ("vanish", "EIO_on_open", "EIO_on_read"))
            if kind == "hang":
                return [("hang", f"loading {k} does not finish")]
            if kind == "ok" and faulty and len(r) == len(absolute[k]) and not dmg:
                pass  # the file was only lost after everything needed had been read
            elif faulty:
                if kind == "ok":
                    return [("gap", f"{k} window loaded with {len(r)} of {len(absolute[k])} events although an epoch is {dmg and dmg['how'] or 'lost while loading'}")]
                continue
            if kind != "ok":
                return [("failed", f"loading {num} {k} epochs from {first:x}+{skip} failed: {r!r}")]
            got = [exact(x) for x in r]
            if len(got) != len(absolute[k]):
                return [("lost-events", f"{k}: {len(got)} events loaded, {len(absolute[k])} stored in the requested epochs")]
            c = [a - g for a, g in zip(absolute[k], got)]
            tol = Fraction(1, 512)
            if c:
                if max(c) - min(c) > tol:
                    i = max(range(len(c)), key=lambda i: abs(c[i] - c[0]))
                    return [("not-on-time-line", f"{k}: events {0} and {i} are {float(got[i] - got[0])} ns apart, stored {float(absolute[k][i] - absolute[k][0])} ns")]
                consts[k] = c[0]
            w.note(len(got))
            w.stats["windows_loaded"] += 1
            if (first >> 17) != ((first + skip + num - 1) >> 17):
                w.stats["rollovers_crossed"] += 1
        if len(consts) == 2 and abs(consts["T1"] - consts["T2"]) > Fraction(1, 256):
            return [("parties-differ", f"T1 and T2 time lines differ by {float(consts['T1'] - consts['T2'])} ns")]
        return out


class capture_warnings:
    """Records of severity warning or above that the code under test logs, at its normal log level."""

    def __enter__(self):
        self.records = []
        self.logger = _logging.getLogger("fpfind.lib.parse_epochs")
        self.level, self.real = self.logger.level, _logging.Logger.handle
        self.logger.setLevel(_logging.WARNING)

        def handle(_, record):
            if record.levelno >= _logging.WARNING:
                self.records.append(record.getMessage())
        _logging.Logger.handle = handle
        return self.records

    def __exit__(self, *a):
        _logging.Logger.handle = self.real
        self.logger.setLevel(self.level)


HEAD = {"T1": ("iIIii", 0x101, E.read_T1_header), "T2": ("iIIiii", 0x102, E.read_T2_header), "T3": ("iIIi", 0x103, E.read_T3_header),
        "T4": ("IIIII", 0x104, E.read_T4_header)}


class E05(Scenario):
    quick, thorough = 20000, 600000
    fixed_lists = ("short", "fields")
    components = "real: read_T1_header to read_T4_header, read_T1 to read_T4; simulated: file layer (cut files, errors, short reads)"

    def gen(self, rng):
        fmt = rng.choice(list(HEAD))
        code = HEAD[fmt][0]
        epoch = rng.choice([0x10000000, 0xFFFFFFFF, 0x80000000, 0xBA0A1234, rng.randrange(1 << 28, 1 << 32)])
        vals = [rng.choice([0, 1, 8, 0x7FFFFFFF, rng.randrange(1 << 31), (1 << 32) - 1 if c == "I" else -1, -(1 << 31) if c == "i" else 1 << 31]) for c in code[2:]]
        r = rng.random()
        tag = int(fmt[1]) + rng.choice([0, 0x100]) if r < 0.6 else rng.choice(
            [0x101, 0x102, 0x103, 0x104, 1, 2, 3, 4, 0, 5, 0x201, 0x10000 + int(fmt[1]), rng.randrange(1 << 31)])
        plan = {"fmt": fmt, "fields": [tag, epoch] + vals, "name": epoch, "cut": None, "style": rng.choice(["abs", "rel", "dot", "path", "up"]),
                "whole": rng.random() < 0.4, "events": rng.randrange(6), "extra": 0, "bits": 8, "short": gen_short(rng), "buf": gen_buf(rng), "faults": []}
        if rng.random() < 0.35:
            plan["name"] = rng.choice([epoch ^ (1 << rng.randrange(28)), (epoch + 1) & 0xFFFFFFFF | 1 << 28, rng.randrange(1 << 28, 1 << 32),
                                       epoch & 0xFFFFFFF | (1 + ((epoch >> 28) + rng.randrange(14)) % 15) << 28, epoch << 4 | rng.randrange(16), epoch | 10 << 32])
        r = rng.random()
        if r < 0.2:
            plan["cut"] = rng.randrange(4 * len(code))
        elif r < 0.3:
            plan["faults"] = [{"op": rng.choice(["open", "read"]), "n": rng.randrange(1, 3), "kind": "EIO"}]
        if fmt == "T3" and plan["whole"] and rng.random() < 0.5:
            plan["extra"] = rng.choice([0, 1, 4, 5])
            plan["bits"] = rng.choice([8, 4, 16])
        return plan

    def valid(self, plan):
        return len(plan["fields"]) == len(HEAD[plan["fmt"]][0]) and plan["fields"][1] >= 1 << 28 and plan["name"] >= 1 << 28

    def run(self, plan, w):
        fmt, fields = plan["fmt"], list(plan["fields"])
        code, _, reader = HEAD[fmt]
        epoch = fields[1]
        if plan["whole"]:  # a usable file, possibly misfiled
            reader = {"T1": E.read_T1, "T2": E.read_T2, "T3": E.read_T3, "T4": E.read_T4}[fmt]
            ev = [(100 * i + 7, 1 << i % 4) for i in range(plan["events"])]
            raw = {"T1": lambda: enc_t1(epoch, ev), "T2": lambda: enc_t2(epoch, ev, 17, 4), "T4": lambda: enc_t4(epoch, ev, 17, 4),
                   "T3": lambda: enc_t3(epoch, [0x11] * (plan["events"] + plan["extra"]))}[fmt]()
            raw = struct.pack("<I", fields[0] & 0xFFFFFFFF) + raw[4:]
            if fmt == "T3":
                raw = raw[:8] + struct.pack("<Ii", plan["events"], plan["bits"]) + raw[16:]
        else:
            raw = struct.pack("<" + code, *fields) + b"\x55" * (4 * plan["events"])
        cut = plan["cut"] is not None
        if cut:
            raw = raw[:plan["cut"]]
            w.hit("cut_header")
        name = f"{plan['name']:x}"
        os.mkdir(os.path.join(w.exec_dir, "d"))
        full = os.path.join(w.exec_dir, "d", name)
        with seams._real_open(full, "wb") as f:
            f.write(raw)
        path = {"abs": full, "rel": f"d/{name}", "dot": f"./d/{name}", "path": pathlib.Path(full), "up": f"d/../d/{name}"}[plan["style"]]
        w.shape(fmt, cut, plan["whole"], plan["style"])
        with capture_warnings() as log:
            k, r = call(reader, path)
        w.note(k, len(log))
        ctx = f"{fmt} {'file' if plan['whole'] else 'header'} tag {fields[0]:#x} epoch {epoch:x} in a file named {name}"
        lost = cut or any(x.startswith("EIO") for x in w.delivered)
        if lost:
            return [] if k in ("error", "exit") else [("damage-accepted", f"{ctx}: {k} although {'the header is cut' if cut else 'a read failed'}")]
        if k != "ok":
            return [("failed", f"{ctx}: {k} {r!r}")]
        if not plan["whole"] and tuple(r) != tuple(fields):
            return [("wrong-field", f"{ctx}: read {tuple(r)}, stored {tuple(fields)}")]
        if plan["whole"] and fmt != "T3" and (len(r[0]) != len(ev) or [int(x) for x in r[1]] != [p for _, p in ev]):
            return [("wrong-events", f"{ctx}: {len(r[0])} events read, {len(ev)} stored")]
        if plan["whole"] and fmt == "T3" and (r.okcount != plan["events"] or tuple(r.head) != (fields[0], epoch, plan["events"], plan["bits"])):
            return [("wrong-events", f"{ctx}: {r}")]
        problems = [fields[0] not in (int(fmt[1]), 0x100 + int(fmt[1])), plan["name"] != epoch]
        if plan["whole"] and fmt == "T3":
            problems += [bool(plan["extra"]), plan["bits"] != 8]
        w.stats["flagged" if any(problems) else "clean"] += 1
        if any(problems) and len(log) < sum(problems):
            return [("not-flagged", f"{ctx}: {sum(problems)} inconsistencies, warnings: {log}")]
        if log and not any(problems):
            return [("false-warning", f"{ctx}: {log}")]
        return []
