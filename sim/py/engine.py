"""Seeded search over simulated runs of the Python parts. See DESIGN.md."""
import copy, functools, gc, importlib, json, logging, os, random, shutil, signal, subprocess, sys, time, traceback, warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seams  # noqa: E402

T_START = time.time()
HERE = os.environ["SIM_HERE"]
TMP = os.environ["SIM_TMP"]
AREA = {"L": "sc_log", "E": "sc_epochs", "S": "sc_stamps", "F": "sc_link", "T": "sc_tools"}
WALL_CAP = {"quick": 420, "thorough": 20000}


@functools.lru_cache(None)
def scenario(prop):
    return getattr(importlib.import_module(AREA[prop[0]]), prop)()


class Runner:
    def __init__(self, prop, wid="m"):
        self.sc = scenario(prop)
        self.wid = wid
        self.n = 0

    def execute(self, plan):
        """Run one plan; returns (violations, trace, shape, world)."""
        plan = copy.deepcopy(plan)
        root = os.path.join(TMP, f"w{self.wid}", "r")
        os.makedirs(root)
        w = seams.World(root, plan)
        w.exec_dir = root
        os.chdir(root)
        argv, so, se, si = sys.argv, sys.stdout, sys.stderr, sys.stdin
        try:
            seams.set_world(w)
            signal.setitimer(signal.ITIMER_PROF, self.sc.cpu_limit)
            try:
                v = self.sc.run(plan, w)
            except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError) as e:
                # every call into the real code is made through seams.call: what it returned is not what it should return
                if os.environ.get("SIM_TRACE"):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)[-1]
                v = [("uninterpretable", f"what the program returned cannot be judged: {type(e).__name__}: {e} (in {tb.name})")]
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                w.finish()
                seams.set_world(None)
        finally:
            sys.argv, sys.stdout, sys.stderr, sys.stdin = argv, so, se, si
            os.chdir(TMP)
            shutil.rmtree(root, ignore_errors=True)
        t, s = w.digest()
        return list(v or []), t, s, w


def plan_for(sc, prop, seed, i):
    rng = random.Random(f"{seed}/{prop}/{i}")
    plan = json.loads(json.dumps(sc.gen(rng)))
    return plan


PAGE = os.sysconf("SC_PAGE_SIZE")
RSS_LIMIT = [400 << 20]


def rss():
    with seams._real_open("/proc/self/statm", "rb") as f:
        return int(f.read().split()[1]) * PAGE


def tidy():
    """PyPy does not see the memory of numpy arrays that await collection."""
    if rss() > RSS_LIMIT[0]:
        gc.collect()
        RSS_LIMIT[0] = max(400 << 20, rss() * 3 // 2)


def worker(prop, seed, wid, nworkers, runs, tier, known, mini):
    r = Runner(prop, wid)
    out = {"runs": 0, "nontrivial": 0, "shapes": [], "faults": {}, "stats": {}, "simtime": 0.0, "known": {}, "viol": None,
           "samples": [], "agg": 0, "capped": False}
    shapes = set()
    for i in range(wid, runs, nworkers):
        if mini[0] < i:
            break
        if time.time() - T_START > WALL_CAP[tier]:
            out["capped"] = True
            break
        plan = plan_for(r.sc, prop, seed, i)
        v, t, s, w = r.execute(plan)
        tidy()
        out["runs"] += 1
        out["agg"] ^= int(t, 16)
        if w.ops + len(w.shape_tokens) > 3:
            out["nontrivial"] += 1
            shapes.add(s)
        for k, c in w.delivered.items():
            out["faults"][k] = out["faults"].get(k, 0) + c
        for k, c in w.stats.items():
            out["stats"][k] = out["stats"].get(k, 0) + c
        out["simtime"] += w.simtime
        if i < 3:
            out["samples"].append({"run": i, "trace": t, "first_operations": [" ".join(map(str, x)) for x in w.tokens[:6]]})
        for key, what in v:
            if key in known:
                out["known"][key] = out["known"].get(key, 0) + 1
            elif out["viol"] is None:
                out["viol"] = {"run": i, "key": key, "what": what, "trace": t, "plan": plan}
        if out["viol"]:
            mini[0] = min(mini[0], i)
            break
    out["shapes"] = sorted(shapes)
    return out


def parallel(prop, seed, nworkers, runs, tier, known):
    import mmap, struct

    class Mini:
        def __init__(self):
            self.m = mmap.mmap(-1, 8)
            self[0] = runs + 1

        def __getitem__(self, _):
            return struct.unpack("q", self.m[0:8])[0]

        def __setitem__(self, _, v):
            self.m[0:8] = struct.pack("q", v)
    mini = Mini()
    pids = {}
    sys.stdout.flush()
    retries = 4

    def start(wid):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.makedirs(os.path.join(TMP, f"w{wid}"), exist_ok=True)
                o = worker(prop, seed, wid, nworkers, runs, tier, known, mini)
                with open(os.path.join(TMP, f"out{wid}.json"), "w") as f:
                    json.dump(o, f)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            os._exit(code)
        pids[pid] = wid
    for wid in range(nworkers):
        start(wid)
    bad = []
    while pids:
        pid, st = os.wait()
        wid = pids.pop(pid, None)
        if st == 9 and wid is not None and retries:  # killed from outside, for want of memory: the same runs again
            retries -= 1
            shutil.rmtree(os.path.join(TMP, f"w{wid}"), ignore_errors=True)
            time.sleep(2)
            start(wid)
        elif st:
            bad.append((wid, st))
            mini[0] = -1
    if bad:
        print(f"simulation workers failed: {bad}")
        sys.exit(2)
    outs = []
    for w in range(nworkers):
        with open(os.path.join(TMP, f"out{w}.json")) as f:
            outs.append(json.load(f))
        os.unlink(os.path.join(TMP, f"out{w}.json"))
        shutil.rmtree(os.path.join(TMP, f"w{w}"), ignore_errors=True)
    tot = {"runs": 0, "nontrivial": 0, "faults": {}, "stats": {}, "simtime": 0.0, "known": {}, "agg": 0, "samples": [], "capped": False}
    shapes = set()
    viol = None
    for o in outs:
        for k in ("runs", "nontrivial", "simtime"):
            tot[k] += o[k]
        tot["agg"] ^= o["agg"]
        tot["capped"] |= o["capped"]
        tot["samples"] += o["samples"]
        for d in ("faults", "stats", "known"):
            for k, c in o[d].items():
                tot[d][k] = tot[d].get(k, 0) + c
        shapes.update(o["shapes"])
        if o["viol"] and (viol is None or o["viol"]["run"] < viol["run"]):
            viol = o["viol"]
    tot["samples"].sort(key=lambda x: x["run"])
    tot["distinct"] = len(shapes)
    return tot, viol


# ---------------------------------------------------------------- shrinking

def shrink(runner, plan, key, budget_s=40.0, budget_n=3000):
    t0 = time.time()
    n = [0]
    valid = getattr(runner.sc, "valid", lambda p: True)

    def bad(p):
        if time.time() - t0 > budget_s or n[0] > budget_n:
            return False
        n[0] += 1
        try:
            if not valid(p):
                return False
            return any(k == key for k, _ in runner.execute(p)[0])
        except Exception:
            return False

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def put(p, path, v):
        p = copy.deepcopy(p)
        q = p
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = v
        return p

    def paths(x, pre=()):
        yield pre, x
        if isinstance(x, dict):
            for k in list(x):
                yield from paths(x[k], pre + (k,))
        elif isinstance(x, list) and len(x) <= 200:
            for k in range(len(x)):
                yield from paths(x[k], pre + (k,))
    changed = True
    while changed and time.time() - t0 < budget_s:
        changed = False
        for path, _ in list(paths(plan)):
            if not path:
                continue
            try:
                x = get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(x, list) and x and path[-1] not in runner.sc.fixed_lists:
                size = len(x)
                while size >= 1:
                    j = 0
                    while j < len(x):
                        c = put(plan, path, x[:j] + x[j + size:])
                        if bad(c):
                            plan, x, changed = c, get(c, path), True
                        else:
                            j += size
                    size //= 2
            elif isinstance(x, bool):
                if x and bad(put(plan, path, False)):
                    plan, changed = put(plan, path, False), True
            elif isinstance(x, int) and x:
                for v in (0, 1, x // 2, x - 1):
                    if v != x and abs(v) <= abs(x) and bad(put(plan, path, v)):
                        plan, changed = put(plan, path, v), True
                        break
            elif x is not None and isinstance(x, float) and x:
                if bad(put(plan, path, 0.0)):
                    plan, changed = put(plan, path, 0.0), True
            elif isinstance(x, (dict,)) and x and path[-1] not in runner.sc.fixed_dicts:
                if bad(put(plan, path, None)):
                    plan, changed = put(plan, path, None), True
    return plan, n[0]


def load_known(prop):
    import re
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def main():
    prop, tier, seed, workers, runs, replay = sys.argv[1:7]
    seed, workers, runs = int(seed), int(workers), int(runs)
    warnings.simplefilter("ignore")
    logging.raiseExceptions = False
    devnull = open(os.devnull, "w")
    sys.__stderr__.flush()
    seams.install()
    sc = scenario(prop)
    sc.setup(TMP)
    if replay:
        with open(replay) as f:
            doc = json.load(f)
        os.makedirs(os.path.join(TMP, "wm"), exist_ok=True)
        for before in doc.get("before", []):  # earlier calls in the same process that the violation depends on
            Runner(prop).execute(before)
        v, t, s, w = Runner(prop).execute(doc["plan"])
        known = load_known(prop)
        for tok in w.tokens[:400]:
            print("  " + " ".join(map(str, tok)))
        print(f"trace {t}")
        for k, what in v:
            print(f"{'known: ' if k in known else ''}{k}: {what}")
        v = [x for x in v if x[0] not in known]
        if v:
            print(f"VIOLATION property={prop} replay={replay}")
            sys.exit(1)
        sys.exit(0)
    n = runs or (sc.quick if tier != "thorough" else sc.thorough)
    known = load_known(prop)
    t1 = time.time()
    tot, viol = parallel(prop, seed, workers, n, tier, known)
    dt = time.time() - t1
    det = None
    if viol is None:
        k = min(n, sc.det_runs)
        a = parallel(prop, seed, workers, k, tier, known)[0]["agg"]
        b = parallel(prop, seed, 3, k, tier, known)[0]["agg"]
        det = a == b
    for k, c in sorted(tot["known"].items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]} (seen in {c} runs)")
    rc = 0
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": min(tot["distinct"], tot["nontrivial"]), "rule": sc.rule,
        "samples": tot["samples"], "runs_per_hour": int(tot["runs"] / max(dt, 1e-3) * 3600),
        "seeds_per_hour": int(tot["runs"] / max(dt, 1e-3) * 3600), "simulated_time_s": round(tot["simtime"], 3),
        "faults_injected": tot["faults"], "distinct_interleavings": tot["distinct"], "counters": tot["stats"],
        "components": sc.components, "deterministic_across_worker_counts": det,
        "known_findings_seen": tot["known"], "stopped_by_wall_clock": tot["capped"],
    }
    if viol:
        dst = os.path.join(HERE, "evidence", f"{prop}.replay.json")
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        os.makedirs(os.path.join(TMP, "wm"), exist_ok=True)
        r = Runner(prop)
        plan, tried = shrink(r, viol["plan"], viol["key"])
        v, t, s, w = r.execute(plan)
        v = [x for x in v if x[0] == viol["key"]]
        what = v[0][1] if v else viol["what"]
        if not v:
            plan, t = viol["plan"], viol["trace"]
        def store(plan, t, w, before=()):
            with open(dst, "w") as f:
                json.dump({"property": prop, "seed": seed, "run": viol["run"], "key": viol["key"], "what": what, "trace": t, "before": list(before),
                           "plan": plan, "operations": [" ".join(map(str, x)) for x in w.tokens[:200]] if w else []}, f, indent=1)
            a = subprocess.run([sys.executable] + [__file__, prop, tier, str(seed), "1", "0", dst], stdout=subprocess.PIPE, env=dict(os.environ), cwd=TMP)
            return a.returncode, a.stdout.decode(errors="replace")
        code, text = store(plan, t, w)
        if code != 1 and plan != viol["plan"]:
            plan, t = viol["plan"], viol["trace"]
            code, text = store(plan, t, None)
        before = []
        if code != 1:  # depends on what the same process did before: find which of the worker's earlier runs are needed
            plan, t = viol["plan"], viol["trace"]
            past = list(range(viol["run"] % workers, viol["run"], workers))
            k = 1
            while code != 1 and past and time.time() - T_START < 700:
                before = [plan_for(sc, prop, seed, i) for i in past[-k:]]
                code, text = store(plan, t, None, before)
                if k >= len(past):
                    break
                k *= 4
            size = len(before) // 2
            while code == 1 and size and time.time() - T_START < 700:
                j = 0
                while j < len(before) and len(before) > 1:
                    c = before[:j] + before[j + size:]
                    if c and store(plan, t, None, c)[0] == 1:
                        before = c
                    else:
                        j += size
                size //= 2
            if code == 1:
                code, text = store(plan, t, None, before)
                print(f"{prop}: needs {len(before)} earlier run(s) in the same process")
        same = code == 1 and ("trace " + t) in text
        print(f"{prop}: {viol['key']}: {what} (seed {seed}, run {viol['run']}, minimised in {tried} executions); "
              f"replay in a fresh process: {'same violation, same trace' if same else 'DIFFERS'}")
        if code != 1:
            print("not reproducible:\n" + text[-2000:])
            sys.exit(2)
        print(f"VIOLATION property={prop} replay={dst}")
        cov["violation"] = {"key": viol["key"], "what": what, "run": viol["run"], "same_trace_in_fresh_process": same}
        rc = 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": sc.assumptions, "wall_s": round(time.time() - T_START, 2), "violations": rc}, f, indent=1)
    os.replace(p + ".tmp", p)
    if rc == 0:
        print(f"{prop}: held on {tot['runs']} simulated runs, {tot['distinct']} distinct interleavings, {dt:.1f} s")
        if det is False:
            print("WARNING: the same seeds gave different executions")
    sys.stdout.flush()
    devnull.close()
    os._exit(rc)


class Scenario:
    quick, thorough, det_runs = 20000, 400000, 400
    cpu_limit = 60
    fixed_lists = ()
    fixed_dicts = ()
    rule = ("One case = one seeded plan (input data, storage behaviour, faults, schedule) executed by the real code; non-trivial: "
            "more than three simulated operations; distinct: by the sequence of operations on the simulated resources and their "
            "kind of outcome, without sizes.")
    components = ""
    assumptions = ["PyPy 3.9 and numpy behave as CPython/numpy documentation says"]

    def setup(self, tmp):
        pass


sys.modules.setdefault("engine", sys.modules[__name__])
if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(2)
