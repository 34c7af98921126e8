"""Driver side: worker pool, comparison, minimisation, evidence and verdicts."""
import hashlib
import json
import math
import os
import queue
import random
import shutil
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

VERIF = B.VERIF
WORK = B.WORK
# keep glibc's heap from being returned to the kernel and faulted in again all the time
MALLOC = {"MALLOC_TOP_PAD_": "33554432", "MALLOC_TRIM_THRESHOLD_": "536870912", "MALLOC_MMAP_THRESHOLD_": "1073741824"}
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.monotonic()


def elapsed():
    return time.monotonic() - T0


def digest(x, n=16):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:n]


def subseed(*parts):
    return int(hashlib.sha256(json.dumps(parts).encode()).hexdigest()[:15], 16)


def rng(*parts):
    return random.Random(subseed(SEED, *parts))


class HarnessError(Exception):
    pass


def scratch(name):
    d = os.path.join(WORK, "run", f"{name}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Worker:
    def __init__(self, paths, flavour, cwd, extra=None):
        env = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LD_PRELOAD": paths["simrt"], "PYTHONPATH": paths[flavour],
               "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C", "TZ": "UTC", **MALLOC}
        env.update(extra or {})
        self.args = (paths, flavour, cwd)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()

        def fds():
            os.dup2(r1, 103)
            os.dup2(w2, 104)
            os.dup2(103, 3)
            os.dup2(104, 4)
            os.closerange(5, 256)

        self.err = open(os.path.join(cwd, f"worker-{os.getpid()}-{id(self)}.err"), "wb")
        self.p = subprocess.Popen([B.PY, os.path.join(VERIF, "lib", "worker.py")], env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=fds, close_fds=False)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "w")
        self.r = os.fdopen(r2, "r")

    def call(self, job):
        self.w.write(json.dumps(job) + "\n")
        self.w.flush()
        ln = self.r.readline()
        if not ln:
            self.p.wait()
            raise HarnessError("worker ended: " + open(self.err.name, errors="replace").read()[-1500:])
        res = json.loads(ln)
        if "harness" in res:
            raise HarnessError(res["harness"])
        e = res.get("end")
        if e == ["exit", 97] or e == ["exit", 96]:
            raise HarnessError("simulator refused: " + open(self.err.name, errors="replace").read()[-1500:])
        return res

    def close(self):
        try:
            self.w.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.r.close()


class Pool:
    """A pool of simulated processes of one flavour."""

    def __init__(self, paths, flavour, n=NCPU, name="pool"):
        self.cwd = scratch(name)
        self.free = queue.Queue()
        self.paths, self.flavour = paths, flavour
        self.n = n
        self.lock = threading.Lock()
        self.jobs = 0
        self.live = []
        for _ in range(n):
            w = Worker(paths, flavour, self.cwd)
            self.live.append(w)
            self.free.put(w)

    def call(self, job):
        w = self.free.get()
        try:
            with self.lock:
                self.jobs += 1
            try:
                return w.call(job)
            except (HarnessError, OSError, ValueError):
                w.close()
                with self.lock:
                    self.live.remove(w)
                    w = Worker(self.paths, self.flavour, self.cwd)
                    self.live.append(w)
                return w.call(job)     # once more on a new process, then give up
        finally:
            self.free.put(w)

    def close(self):
        for w in self.live:
            w.close()
        shutil.rmtree(self.cwd, ignore_errors=True)


def pmap(fn, items, n=NCPU, stop=None):
    """Run fn over items on n threads, in order of submission; results in order.  stop() ends early."""
    items = list(items)
    out = [None] * len(items)
    it = iter(range(len(items)))
    lk = threading.Lock()
    errs = []

    def body():
        while True:
            with lk:
                if errs or (stop and stop()):
                    return
                i = next(it, None)
            if i is None:
                return
            try:
                out[i] = fn(items[i])
            except BaseException as e:  # noqa: BLE001
                errs.append(e)
                return
    ts = [threading.Thread(target=body) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


# ------------------------------------------------------------------ comparing
def close(a, b, rtol, atol):
    if a == b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def flat(v):
    if isinstance(v, list):
        for x in v:
            yield from flat(x)
    elif isinstance(v, dict):
        for k in sorted(v):
            yield k
            yield from flat(v[k])
    else:
        yield v


def same(a, b, rtol=1e-9, arel=1e-12):
    """Equality of two outcomes.  Exceptions compare by type, deaths as deaths."""
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1] == b[1]
    if a[0] in ("died", "timeout", "gone"):
        return True
    return same_val(a[1], b[1], rtol, arel)


def same_val(x, y, rtol=1e-9, arel=1e-12):
    fx, fy = list(flat(x)), list(flat(y))
    if len(fx) != len(fy):
        return False
    nums = [abs(v) for v in fx if isinstance(v, float) and math.isfinite(v)]
    # bulk results: absolute tolerance relative to the largest value of the same result (not of the coordinates)
    if isinstance(x, list) and x and isinstance(x[0], list) and len(x[0]) >= 4:
        nums = [abs(r[-1]) for r in x if isinstance(r[-1], float) and math.isfinite(r[-1])]
    atol = arel * max(nums, default=0.0)
    for p, q in zip(fx, fy):
        if isinstance(p, (int, float)) and isinstance(q, (int, float)):
            if not close(p, q, rtol, atol):
                return False
        elif p != q:
            return False
    return True


def short(o, n=160):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "…"


def ddmin(ops, test, budget=60, keep=0, secs=45):
    """Smallest sublist (greedily) for which test() still holds; the first `keep` ops stay."""
    cur = list(ops)
    if TIER == "quick" and elapsed() > 240:
        return cur
    n = 2
    end = time.monotonic() + secs
    while len(cur) - keep >= 2 and budget > 0 and time.monotonic() < end:
        body = cur[keep:]
        size = max(1, len(body) // n)
        hit = False
        for s in range(0, len(body), size):
            cand = cur[:keep] + body[:s] + body[s + size:]
            budget -= 1
            if budget < 0 or time.monotonic() > end:
                break
            if test(cand):
                cur, hit = cand, True
                n = max(2, n - 1)
                break
        if not hit:
            if size == 1:
                break
            n = min(len(body), n * 2)
    return cur


# ------------------------------------------------------------------ verdicts
CURRENT = None


def watchdog(ck):
    """On a machine much slower than expected: what was found so far."""
    while elapsed() < LIMIT:
        time.sleep(1)
        if ck.done:
            return
    try:
        print(f"{ck.pid}: stopped after {LIMIT} s")
        ck.cov["stopped_early"] = True
        code = ck.finish()
        sys.stdout.flush()
    finally:
        subprocess.run(["pkill", "-P", str(os.getpid())], check=False)
        os._exit(code)


LIMIT = 780 if TIER == "quick" else 6 * 3600


class Check:
    def __init__(self, pid, level, rule):
        global CURRENT
        CURRENT = self
        self.done = False
        threading.Thread(target=watchdog, args=(self,), daemon=True).start()
        self.pid, self.level, self.rule = pid, level, rule
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": []}
        self.distinct = set()
        self.viol = []
        self.known = self._known()
        self.known_seen = {}
        self.lock = threading.Lock()
        self.assumptions = []
        self.sim = {}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.replay_dir = os.path.join(WORK, "replay")
        os.makedirs(self.replay_dir, exist_ok=True)

    def _known(self):
        out = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for ln in open(p):
                if ln.startswith("finding: "):
                    f = ln[len("finding: "):].rstrip("\n").split(" ", 2)
                    prop = f[0].split("=", 1)[1]
                    key = f[1].split("=", 1)[1]
                    if prop == self.pid:
                        out[key] = f[2]
        return out

    def count(self, n=1):
        with self.lock:
            self.cov["evaluations"] += n

    def seen(self, key, n=1):
        """One evaluation, distinct by key."""
        with self.lock:
            self.cov["evaluations"] += n
            self.distinct.add(key if isinstance(key, str) else digest(key))

    def sample(self, x, cap=4):
        with self.lock:
            if len(self.cov["samples"]) < cap:
                self.cov["samples"].append(x)

    def add(self, name, n=1):
        with self.lock:
            self.sim[name] = self.sim.get(name, 0) + n

    def absorb(self, stats):
        """Adds up the simulator's own counters."""
        if not stats:
            return
        with self.lock:
            for sec in ("omp", "mem", "io", "clk"):
                for k, v in (stats.get(sec) or {}).items():
                    if isinstance(v, (int, float)) and not isinstance(v, bool):
                        key = f"{sec}.{k}"
                        self.sim[key] = self.sim.get(key, 0) + v
                    elif isinstance(v, dict):
                        for k2, v2 in v.items():
                            if isinstance(v2, (int, float)):
                                key = f"{sec}.{k}.{k2}"
                                self.sim[key] = self.sim.get(key, 0) + v2

    def violation(self, key, what, case):
        """Record one violation (deduplicated by key). Returns True when it is new and not a known finding."""
        with self.lock:
            if key in self.known:
                if key not in self.known_seen:
                    self.known_seen[key] = what
                return False
            for v in self.viol:
                if v["key"] == key:
                    v["count"] += 1
                    return False
            self.viol.append({"key": key, "what": what, "case": case, "count": 1})
            return True

    def finish(self):
        self.done = True
        n = len(self.distinct)
        self.cov["distinct_nontrivial"] = n
        secs = max(elapsed(), 1e-3)
        self.cov["runs_per_hour"] = int(self.cov["evaluations"] * 3600 / secs)
        if self.sim:
            self.cov["simulator"] = {k: self.sim[k] for k in sorted(self.sim)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(elapsed(), 2), "violations": len(self.viol)}
        for key, what in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {key}: {self.known[key]}")
        code = 0
        for i, v in enumerate(self.viol[:8]):
            path = os.path.join(self.replay_dir, f"{self.pid}-{digest(v['key'], 10)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "key": v["key"], "what": v["what"], "case": v["case"]}, f, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {v['key']}: {v['what']}".replace("\n", " | "))
            code = 1
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {self.cov['evaluations']} simulated runs, {n} distinct, {len(self.viol)} violation(s), "
              f"{len(self.known_seen)} known finding(s), {secs:.0f} s")
        sys.stdout.flush()
        return code
