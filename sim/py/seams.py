"""Simulated storage, directory listing and clock underneath real Python code.

Every file below the run's scratch root is opened through a raw layer whose behaviour (transfer sizes, errors,
process death, a concurrently growing file) is decided by the plan of the run. All else goes to the real system.
"""
import builtins, errno, hashlib, io, os, pathlib, signal, time as _time
from collections import Counter


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The program does not make progress."""


_real_open = io.open


def slurp(path):
    """Content of a file, read past the simulated layer."""
    with _real_open(path, "rb") as f:
        return f.read()


_real_scandir = os.scandir
_real_listdir = os.listdir
_real_time = _time.time
W = None  # world of the current run


class FaultyRaw(io.RawIOBase):
    def __init__(self, w, path, mode, role):
        super().__init__()
        self.w, self.role, self.path, self.rmode = w, role, path, mode
        self.eofs = 0
        self.f = io.FileIO(path, mode)
        self.name = path
        self.mode = self.f.mode
        w.raws.append(self)

    def readable(self): return self.f.readable()
    def writable(self): return self.f.writable()
    def seekable(self): return True
    def fileno(self): return self.f.fileno()
    def isatty(self): return False
    def tell(self): return self.f.tell()
    def truncate(self, size=None): return self.f.truncate(size)

    def seek(self, pos, whence=0):
        return self.f.seek(pos, whence)

    def readinto(self, b):
        w = self.w
        if w.dead:
            raise SimCrash()
        n = len(b)
        fault = w.step(self.role, "read")
        if fault and fault["kind"] == "append":  # the writer of this file gets ahead
            w.grow(self.path, fault)
        elif fault and fault["kind"] == "truncate":
            w.hit("truncate")
            os.truncate(self.path, fault["arg"])
        elif fault:
            w.raise_(fault, self.role, "read")
        k = w.transfer(n, "read")
        data = self.f.read(k)
        if k < n and len(data) == k:
            w.hit("short_read")
        if n and not data:
            self.eofs += 1
            if self.eofs > 3000:
                raise SimHang("reads at end of file without end")
        b[:len(data)] = data
        w.ev("read", self.role, n, len(data))
        return len(data)

    def write(self, b):
        w = self.w
        b = bytes(b)
        if w.dead or w.closed:
            return len(b)
        fault = w.step(self.role, "write")
        if fault:
            k = min(fault.get("arg", 0) or 0, len(b)) if fault["kind"] == "crash" else 0  # a failing write transfers nothing
            if k:
                self.f.write(b[:k])
            w.written += k
            w.ev("write", self.role, len(b), k, fault["kind"])
            w.raise_(fault, self.role, "write")
        k = w.transfer(len(b), "write")
        room = w.capacity
        if room is not None and self.role in w.full_roles:
            left = max(0, room - w.written)
            if left == 0 and b:
                w.hit("disk_full")
                w.ev("write", self.role, len(b), 0, "full")
                raise OSError(errno.ENOSPC, "No space left on device (simulated)")
            k = min(k, left)
        self.f.write(b[:k])
        w.written += k
        if k < len(b):
            w.hit("short_write")
        w.ev("write", self.role, len(b), k)
        return k

    def close(self):
        if not self.closed:
            try:
                w = self.w
                if not w.closed and not w.dead and self.f.writable():
                    fault = w.step(self.role, "close")
                    if fault:
                        w.ev("close", self.role, fault["kind"])
                        w.raise_(fault, self.role, "close")
                if not w.closed:
                    w.ev("close", self.role)
            finally:
                try:
                    self.f.close()
                finally:
                    super().close()


class World:
    """One run: its faults, its trace and its counters."""

    def __init__(self, root, plan):
        self.root = os.path.realpath(root)
        self.faults = plan.get("faults") or []
        self.short = plan.get("short") or []
        self.buf = plan.get("buf") or 8192
        self.capacity = plan.get("capacity")
        self.full_roles = {"out"}
        self.listings = plan.get("listings") or []
        self.counts = Counter()
        self.delivered = Counter()   # fault kinds that really happened
        self.tokens = []
        self.shape_tokens = []
        self.raws = []
        self.top = []
        self.roles = {}
        self.dead = self.closed = False
        self.written = 0
        self.nxfer = 0
        self.ops = 0
        self.simtime = 0.0
        self.snapshots = []
        self.states = {}
        self.nlist = 0
        self.maxops = 400000
        self.clock = None
        self.stats = Counter()
        self.on_entry = None
        self.on_step = None

    # --- bookkeeping
    def ev(self, op, *a):
        self.ops += 1
        if self.ops > self.maxops:
            raise SimHang("too many operations")
        if self.ops < 20000:
            self.tokens.append((op,) + a)
            self.shape_tokens.append(op + ":" + str(a[0] if a else "") + ("0" if a[-1:] == (0,) else "") + (str(a[-1]) if a and isinstance(a[-1], str) else ""))

    def note(self, *a):
        """Part of the trace (results), not of the interleaving shape."""
        self.tokens.append(("=",) + a)

    def shape(self, *a):
        self.shape_tokens.append(repr(a))

    def digest(self):
        return (hashlib.blake2b(repr(self.tokens).encode(), digest_size=12).hexdigest(),
                hashlib.blake2b(" ".join(self.shape_tokens).encode(), digest_size=8).hexdigest())

    def hit(self, kind):
        self.delivered[kind] += 1

    # --- faults
    def step(self, role, op):
        if self.on_step:
            self.on_step()
        self.counts[role, op] += 1
        self.counts["any"] += 1
        for f in self.faults:
            if f["op"] == "any":
                if self.counts["any"] == f["n"]:
                    return f
            elif f["op"] == op and f.get("role", role) == role:
                c = self.counts[role, op]
                if c == f["n"] or (f.get("sticky") and c > f["n"]):
                    return f
        return None

    def raise_(self, fault, role, op):
        k = fault["kind"]
        self.hit(f"{k}_on_{op}")
        if k == "crash":
            self.dead = True
            self.ev("crash", role)
            raise SimCrash()
        self.ev("fault", role, k)
        if k == "interrupt":
            raise KeyboardInterrupt()
        raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)) + " (simulated)")

    def transfer(self, n, op):
        if not self.short or n <= 1:
            return n
        self.nxfer += 1
        lim = self.short[self.nxfer % len(self.short)]
        return min(n, lim) if lim else n

    def grow(self, path, fault):
        self.hit("concurrent_append")
        self.ev("append", os.path.basename(path), len(fault["arg"]) // 2)
        with _real_open(path, "ab") as f:
            f.write(bytes.fromhex(fault["arg"]))

    # --- opening
    def mine(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(self.root + os.sep):
            return p
        return None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(getattr(opener, "__self__", None), pathlib.PurePath):  # pathlib's own, does what open does
            opener = None
        p = None if isinstance(file, int) or opener is not None else self.mine(file)
        if p is None or self.closed or os.path.isdir(p):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.dead:
            raise SimCrash()
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
        role = self.roles.get(p) or self.roles.get(os.path.realpath(p)) or ("out" if raw_mode[0] in "wax" else "in")
        fault = self.step(role, "open")
        if fault:
            if fault["kind"] == "vanish":
                self.hit("vanish")
                self.ev("vanish", os.path.basename(p))
                if os.path.exists(p):
                    os.unlink(p)
            else:
                self.raise_(fault, role, "open")
        try:
            raw = FaultyRaw(self, p, raw_mode, role)
        except OSError as e:
            self.ev("open", role, raw_mode, "fail" + str(e.errno))
            raise
        self.ev("open", role, raw_mode)
        if buffering == 0:
            return raw
        size = self.buf if buffering in (-1, 1) else buffering
        if "+" in raw_mode:
            b = io.BufferedRandom(raw, size)
        elif raw_mode[0] in "wax":
            b = io.BufferedWriter(raw, size)
        else:
            b = io.BufferedReader(raw, size)
        if binary:
            self.top.append(b)
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, buffering == 1)
        try:
            t.mode = mode
        except AttributeError:
            pass
        self.top.append(t)
        return t

    def finish(self):
        """End of the simulated process: what the interpreter still holds is flushed unless it died."""
        for t in self.top:
            try:
                t.close()
            except BaseException:
                pass
        self.closed = True
        for r in self.raws:
            try:
                r.f.close()
            except BaseException:
                pass

    # --- directory listings
    def list_dir(self, path):
        p = self.mine(path if path is not None else ".")
        if p is None or self.closed:
            return None
        plan = self.listings[self.nlist] if self.nlist < len(self.listings) else {}
        self.nlist += 1
        for a in plan.get("before", []):
            self.churn(a)
        with _real_scandir(p) as it:
            entries = sorted(it, key=lambda e: e.name)
        self.snapshots.append((os.path.basename(p), sorted(e.name for e in entries)))
        perm = plan.get("perm") or []
        order = sorted(range(len(entries)), key=lambda i: (perm[i % len(perm)] if perm else 0, i))
        if perm and order != list(range(len(entries))):
            self.hit("permuted_listing")
        entries = [entries[i] for i in order]
        self.ev("list", os.path.basename(p), len(entries))
        return entries, plan

    def churn(self, a):
        path = os.path.join(self.root, a["dir"], a["name"])
        if a["act"] == "add":
            with _real_open(path, "wb"):
                pass
        elif os.path.exists(path):
            os.unlink(path)
        self.hit("epoch_arrives" if a["act"] == "add" else "epoch_removed")
        self.ev("churn", a["dir"], a["act"])
        self.record_state(a["dir"])

    def record_state(self, d):
        self.states.setdefault(d, []).append(sorted(_real_listdir(os.path.join(self.root, d))))


class _Scan:
    def __init__(self, entries, plan, w):
        self.e, self.plan, self.w, self.i = entries, plan, w, 0

    def __iter__(self): return self

    def __next__(self):
        for a in self.plan.get("during", []):
            if a["at"] == self.i and not a.get("done"):
                a["done"] = True
                self.w.churn(a)
        if self.i >= len(self.e):
            raise StopIteration
        self.i += 1
        return self.e[self.i - 1]

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


def _open(file, *a, **k):
    if W is None:
        return _real_open(file, *a, **k)
    return W.open(file, *a, **k)


def _scandir(path="."):
    r = W.list_dir(path) if W is not None and not isinstance(path, int) else None
    return _real_scandir(path) if r is None else _Scan(r[0], r[1], W)


def _listdir(path="."):
    r = W.list_dir(path) if W is not None and not isinstance(path, int) else None
    return _real_listdir(path) if r is None else [e.name for e in _Scan(r[0], r[1], W)]


def _now():
    if W is not None and W.clock is not None:
        return W.clock()
    return _real_time()


def install():
    builtins.open = io.open = _open
    os.scandir, os.listdir = _scandir, _listdir
    if hasattr(pathlib, "_NormalAccessor"):
        for cls in (pathlib._NormalAccessor,):
            cls.scandir = staticmethod(_scandir)
            cls.listdir = staticmethod(_listdir)
            if hasattr(cls, "open"):
                cls.open = staticmethod(_open) if cls.open in (io.open, _real_open) else cls.open
    _time.time = _now
    import numpy as np
    np.lib._datasource._file_openers._load()
    np.lib._datasource._file_openers._file_openers[None] = _open

    def onprof(sig, frame):
        raise SimHang("CPU limit")
    signal.signal(signal.SIGPROF, onprof)


def set_world(w):
    global W
    W = w


def call(fn, *a, **k):
    """Outcome of running real code: (kind, value)."""
    try:
        return "ok", fn(*a, **k)
    except SimCrash:
        return "crash", None
    except SimHang as e:
        return "hang", e
    except SystemExit as e:
        return "exit", e.code
    except KeyboardInterrupt:
        return "interrupt", None
    except Exception as e:
        return "error", e
