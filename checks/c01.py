"""C01: results do not depend on thread count, thread interleaving or what fresh memory holds."""
import re
import subprocess
import threading

import cli as K
import gen as G
import hist
import model as M
import simlib as S

NEEDS = "own"
FAST = ["local", "lensing", "flat", "doppler", "twobins", "fftlog", "binned", "crossonly", "gsl1d", "userpk", "userpk_flat", "halofit", "neutrino", "userpk_halofit"]
SLOW = ["doppler2", "potential", "integrated"]
BULK = [["q", "a", "corrfunc_bulk"], ["q", "a", "multipoles_bulk"], ["q", "a", "average_multipoles_bulk"], ["q", "a", "covariance_bulk"],
        ["q", "a", "average_covariance_bulk"]]
POL = ["rw", "rw", "pct", "burst", "mix", "mix", "serial"]


class context:
    def __init__(self):
        self.H = hist.Hist("c01s", S.NCPU, "sched")
        self.P = None
        self.C = K.Cli("c01c")
        self.lock = threading.Lock()
        self.memo = {}

    def plain(self):
        """As shipped, and as shipped with marked uninitialised variables (one thread each)."""
        with self.lock:
            if self.P is None:
                paths = S.B.Builder().build({"hist", "pat"})
                self.P = (S.Pool(paths, "hist", max(2, S.NCPU // 2), "c01h"), S.Pool(paths, "pat", max(2, S.NCPU // 2), "c01p"))
        return self.P

    def close(self):
        self.H.close()
        self.C.close()
        for p in self.P or ():
            p.close()


def config(threads, seed, policy="mix", fill=0, team=0, extra=""):
    return (f"seed={seed}\nmem.light={1 if fill == 0 else 0}\n" + (f"mem.fill={fill}\n" if fill else "") +
            f"mem.on=1\nomp.max_threads={threads}\nomp.team={team}\nomp.policy={policy}\nomp.race=1\n" + extra)


def place(text, lib):
    """The functions the two addresses of a race belong to."""
    out = []
    for m in re.finditer(r"(\S*?)\+(0x[0-9a-f]+)", text):
        if "coffe" not in m.group(1):
            out.append(m.group(1).rsplit("/", 1)[-1])
            continue
        r = subprocess.run(["addr2line", "-f", "-s", "-e", lib, hex(int(m.group(2), 16) - 1)], capture_output=True, text=True).stdout.split("\n")
        out.append(re.sub(r"\._omp_fn.*|\.(isra|part|constprop).*", "", r[0]) if r and r[0] != "??" else "?")
    return "/".join(sorted(set(out))) or "?"


def sched_so(W):
    import glob
    return glob.glob(W.H.paths["sched"] + "/coffe/coffe*.so")[0]


def case(r, i):
    """A configuration and the questions asked of it."""
    slow = i % 60 == 3 if S.TIER == "quick" else i % 9 == 3
    base = SLOW[i // 9 % 3] if slow else r.choice(FAST)
    m = M.from_cfg(base)
    n = r.choice([0, 0, 1, 2, 4])
    for _ in range(n):
        op = G.change(r, m, G.HOT, hot=1.0, divergent=0.0)
        if op is not None and not (slow and op[0] == "set" and op[2] in ("sep", "mu", "l")):
            G.note(m, op)
    if not slow:
        m.s["sep"] = sorted({round(r.uniform(20, 220), 3) for _ in range(r.choice([1, 2, 3, 5, 7]))})
        m.s["mu"] = [round(r.uniform(-0.95, 0.95), 3) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.6:
            m.s["l"] = r.choice([[0], [0, 2], [0, 2, 4], [1, 3, 0], [4]])
    else:
        m.s.update(sep=[60.0, 110.0][: r.choice([1, 2])], mu=[0.0, 0.5], l=[0, 2], integration_sampling=100, background_sampling=100)
    qs = r.sample(BULK, 1 if slow else r.choice([1, 1, 2, 3]))
    if slow and qs[0][2].startswith("av") and base != "doppler2":
        qs = [BULK[r.randrange(2)]]
    if r.random() < 0.3:
        qs = qs + [["q", "a", "integral", {"r": round(r.uniform(5, 200), 2), "n": r.choice([0, 1, 2]), "l": 0}]]
    return base, m.fresh("a", m.pk[-1] if m.pk[-1] is not None else m.pk[0]), qs


def run(W, pre, qs, sim, **kw):
    try:
        res = W.H.pool.call({"ops": pre + qs, "timeout": kw.pop("timeout", 120), "sim": sim, **kw})
    except S.HarnessError as e:
        if "deadlock" not in str(e):
            raise
        return [["died", "deadlock"]], {"sim": {"violations": [{"kind": "deadlock", "msg": "every worker thread waits for another"}]}}
    return res["out"][len(pre):], res.get("info", {})


def differ(a, b, qs):
    """The first question whose answer is another one."""
    for i, q in enumerate(qs):
        x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
        if x is None or y is None or x[0] == "timeout" or y[0] == "timeout":
            return None
        if not S.same(x[:2], y[:2], 1e-8, 1e-10):
            return i
    return None


def problems(W, qs, want, out, info):
    bad = []
    so = None
    for v in (info.get("sim") or {}).get("violations", []):
        if v["kind"] in ("race", "deadlock"):
            so = so or sched_so(W)
            bad.append((f"{v['kind']}:{place(v['msg'], so)}", v["msg"]))
    d = differ(want, out, qs)
    if d is not None:
        bad.append((f"value:{qs[d][2]}", f"{qs[d][2]} gives {delta(want[d], out[d])}"))
    return bad


def delta(a, b):
    """Where two results part."""
    try:
        fa, fb = list(S.flat(a[1])), list(S.flat(b[1]))
        for i, (p, q) in enumerate(zip(fa, fb)):
            if isinstance(p, float) and isinstance(q, float) and not S.close(p, q, 1e-8, 0):
                return f"{q!r} instead of {p!r} (number {i} of {len(fa)})"
    except Exception:
        pass
    return f"{S.short(b, 90)} instead of {S.short(a, 90)}"


def smaller(W, pre, qs, key, c):
    """Fewer questions, fewer threads, a shorter list of preemptions."""
    def hit(p, q, **kw):
        w, _ = run(W, p, q, config(1, 1))
        o, i = run(W, p, q, config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"], kw.get("extra", "")))
        return any(k == key for k, _ in problems(W, q, w, o, i))
    for q in qs:
        if len(qs) > 1 and hit(pre, [q]):
            qs = [q]
            break
    keep = 1
    pre = S.ddmin(pre, lambda p: hit(p, qs), budget=24, keep=keep, secs=30)
    for t in (2, 3):
        if t < c["threads"]:
            old = c["threads"]
            c["threads"] = t
            if hit(pre, qs):
                break
            c["threads"] = old
    # the recorded decisions, then as few of them as are needed
    _, info = run(W, pre, qs, config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"]), trace=True)
    dec = (info.get("trace") or "").split()
    if 0 < len(dec) <= 5000:
        def with_dec(d):
            return hit(pre, qs, extra="omp.replay=" + " ".join(d) + "\n")
        if with_dec(dec):
            dec = S.ddmin(dec, with_dec, budget=80, secs=60)
            c["replay"] = " ".join(dec)
    return pre, qs


def main():
    ck = S.Check("C01", "exploration", "each evaluation is one computation of one or more bulk results by simulated worker threads under one seeded schedule, team size and initial "
                 "memory content, watched by a happens-before race detector and compared with the same computation by one thread; distinct by configuration and the "
                 "hash of the interleavings reached")
    W = context()
    inter = set()
    try:
        budget = 90 if S.TIER == "quick" else 3600
        teams = {}

        def report(key, text, pre, qs, c):
            with ck.lock:
                if len(ck.viol) >= 5 or any(v["key"] == key for v in ck.viol):
                    return
                if key.startswith("value") and any(v["key"].startswith("race") for v in ck.viol):
                    return
            o, i = run(W, pre, qs, config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"]))
            w, _ = run(W, pre, qs, config(1, 1))
            if not any(k == key for k, _ in problems(W, qs, w, o, i)):
                ck.add("unconfirmed")
                return
            if S.elapsed() < 300:
                pre, qs = smaller(W, pre, qs, key, c)
            what = f"{text} ({c['threads']} threads, policy {c['policy']}, memory content {c['fill']})"
            ck.violation(key, what, {"pre": pre, "qs": qs, **c})

        def one(i):
            r = S.rng("c01", i)
            if len(ck.viol) >= 5:
                return
            if r.random() < 0.06:
                return cli_case(W, ck, r, i)
            base, pre, qs = case(r, i)
            want, _ = run(W, pre, qs, config(1, 1))
            if not want or len(want) < len(qs) or any(o[0] == "timeout" for o in want):
                ck.add("not_completed")
                return
            ck.add("answers_" + want[0][0])
            if i % 12 == 0 and base not in SLOW:
                alone(W, ck, r, pre, qs)
            slow = base in SLOW
            for k in range(2 if slow else r.choice([3, 4, 6])):
                c = {"threads": r.choice([2, 2, 3, 4, 5, 8, 16, 32]), "seed": r.randrange(1 << 30), "policy": r.choice(POL), "fill": r.choice([0, 0, 1, 2, 3]),
                     "team": r.choice([0, 0, 0, 2, 3])}
                if k == 0 and r.random() < 0.2:
                    c["threads"] = 1
                    c["fill"] = r.choice([1, 2, 3])
                if S.elapsed() > budget + 10:
                    return
                again = k == 1 and r.random() < 0.15
                out, info = run(W, pre, qs, config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"]), seen=True)
                ck.absorb(info.get("sim"))
                omp = (info.get("sim") or {}).get("omp") or {}
                with ck.lock:
                    inter.update(info.get("seen") or [])
                    teams[c["threads"]] = teams.get(c["threads"], 0) + 1
                ck.seen([S.digest([pre, qs]), omp.get("distinct"), (info.get("seen") or [])[:40], c["fill"]])
                ck.sample({"configuration": base, "questions": [q[2] for q in qs], **c, "preemptions": omp.get("preempt")}, 4)
                for key, text in problems(W, qs, want, out, info):
                    report(key, text, pre, qs, c)
                if again:
                    _, j = run(W, pre, qs, config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"]), seen=True)
                    ck.add("repeated_runs")
                    if j.get("seen") != info.get("seen"):
                        ck.add("repeated_runs_unlike")
        S.pmap(one, range(1000000), stop=lambda: S.elapsed() > budget or len(ck.viol) >= 5)
        ck.cov["distinct_interleavings"] = len(inter)
        ck.cov["runs_by_threads"] = {str(k): teams[k] for k in sorted(teams)}
        ck.assumptions = ["preemption happens at memory accesses of the library's own C code (outside the thread's own stack), at synchronisation, allocation, FFT planning and "
                          "GSL workspace calls; GSL, FFTW and libconfig run between these points without interruption",
                          "accesses made inside GSL and FFTW are represented by one access to the planner, error handler, workspace or accelerator concerned",
                          "memory is sequentially consistent; reorderings are covered through the race detector only"]
    finally:
        W.close()
    return ck.finish()


def alone(W, ck, r, pre, qs):
    """The build as shipped, one thread: fresh memory and uninitialised variables hold something else."""
    h, p = W.plain()
    fill = r.choice([1, 2, 3])
    a = h.call({"ops": pre + qs, "timeout": 60, "sim": "seed=1\nomp.max_threads=1\n"})["out"][len(pre):]
    b = p.call({"ops": pre + qs, "timeout": 60, "sim": f"seed=1\nomp.max_threads=1\nmem.fill={fill}\nmem.on=1\n"})["out"][len(pre):]
    ck.seen(["alone", S.digest([pre, qs]), fill])
    d = differ(a, b, qs)
    if d is not None:
        def test(ops):
            x = h.call({"ops": ops + [qs[d]], "timeout": 60, "sim": "seed=1\nomp.max_threads=1\n"})["out"][len(ops):]
            y = p.call({"ops": ops + [qs[d]], "timeout": 60, "sim": f"seed=1\nomp.max_threads=1\nmem.fill={fill}\nmem.on=1\n"})["out"][len(ops):]
            return differ(x, y, [qs[d]]) is not None
        if test(pre):
            small = S.ddmin(pre, test, budget=24, keep=1, secs=30)
            ck.violation(f"memory:{qs[d][2]}", f"{qs[d][2]} gives {delta(a[d], b[d])} when uninitialised memory holds marked values", {"pre": small, "qs": [qs[d]], "alone": fill})


SCEN = ["corr", "corr-rsd", "corr-len", "corr-flat", "multi-rsd", "multi-len", "multi-bias", "avg-rsd", "avg", "covm", "cova"]


def cli_case(W, ck, r, i):
    sc = r.choice(SCEN)
    s, f, base = W.C.base(sc)
    n, pol = r.choice([2, 3, 4, 7, 16]), r.choice(POL)
    seed = r.randrange(1 << 30)
    key, text = cli_judge(W, sc, n, pol, seed)
    ck.seen(["cli", sc, n, pol, seed])
    ck.add("program_runs")
    if key:
        ck.violation(key, text, {"scenario": sc, "n": n, "policy": pol, "seed": seed})


def cli_judge(W, sc, n, pol, seed):
    s, f, base = W.C.base(sc)
    if base["code"] != 0:
        return None, None
    r = W.C.once(s, f, f"seed={seed}\nio.root=@D@\nio.log=1\nomp.policy={pol}\n", args=("-n", str(n)))
    a, b = K.results(base["tree"], f), K.results(r["tree"], f)
    if r["code"] != base["code"]:
        return f"program:{sc.split('-')[0]}", f"coffe-cli -n {n} ends with {r['code']} instead of {base['code']}: {r['err'][-200:]}"
    d = numbers(a, b)
    return (f"program:{sc.split('-')[0]}", f"coffe-cli -n {n}: {d}") if d else (None, None)


def numbers(a, b):
    """The first difference beyond rounding between two sets of result files."""
    if sorted(a) != sorted(b):
        return "other files: " + ", ".join(sorted(set(a) ^ set(b)))
    for k in sorted(a):
        if a[k] == b[k]:
            continue
        x, y = a[k].split("\n"), b[k].split("\n")
        if len(x) != len(y):
            return f"{k} has {len(y)} lines instead of {len(x)}"
        for j, (p, q) in enumerate(zip(x, y)):
            if p == q:
                continue
            try:
                u, v = [float(t) for t in p.split()], [float(t) for t in q.split()]
            except ValueError:
                if "-n" in p and "-n" in q:
                    continue
                return f"line {j + 1} of {k} is {q[:80]!r} instead of {p[:80]!r}"
            if len(u) != len(v) or not all(S.close(c, d, 1e-7, 1e-12) for c, d in zip(u, v)):
                return f"line {j + 1} of {k} is {q[:80]!r} instead of {p[:80]!r}"
    return None


def replay(W, c):
    if "scenario" in c:
        key, text = cli_judge(W, c["scenario"], c["n"], c["policy"], c["seed"])
        if text:
            print("  " + text)
        return bool(key)
    if "alone" in c:
        h, p = W.plain()
        n = len(c["pre"])
        a = h.call({"ops": c["pre"] + c["qs"], "timeout": 60, "sim": "seed=1\nomp.max_threads=1\n"})["out"][n:]
        b = p.call({"ops": c["pre"] + c["qs"], "timeout": 60, "sim": f"seed=1\nomp.max_threads=1\nmem.fill={c['alone']}\nmem.on=1\n"})["out"][n:]
        d = differ(a, b, c["qs"])
        if d is not None:
            print("  " + delta(a[d], b[d]))
        return d is not None
    want, _ = run(W, c["pre"], c["qs"], config(1, 1))
    extra = f"omp.replay={c['replay']}\n" if c.get("replay") else ""
    out, info = run(W, c["pre"], c["qs"], config(c["threads"], c["seed"], c["policy"], c["fill"], c["team"], extra))
    bad = problems(W, c["qs"], want, out, info)
    for k, t in bad[:3]:
        print(f"  {k}: {t}")
    return bool(bad)
