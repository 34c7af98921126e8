"""C16: results do not depend on the clock, time zone, locale or environment."""
import calendar
import ctypes
import os
import re
import resource
import shutil
import subprocess
import time

import c01
import cli as K
import gen as G
import hist
import model as M
import simlib as S

NEEDS = "own"
DAY = 86400
STARTS = [0, 1, 59, 86399, 951782399, 1078012799, 1111885199, 1130633999, 1483228799, 1709164799, 1711846799, 2147483646, 2147483647, 4102444799]
ZONES = ["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "XYZ+11:59:59", "CET-1CEST,M3.5.0,M10.5.0/3", "", ":nonsense", "Europe/Berlin"]
ENV = {"GSL_RNG_SEED": ["7", "123456789", "x"], "GSL_RNG_TYPE": ["ranlux", "mt19937", "taus"], "GSL_IEEE_MODE": ["round-down", "double-precision,mask-all"],
       "OMP_NUM_THREADS": ["1", "7", "0", "x"], "OMP_SCHEDULE": ["dynamic,1", "guided"], "OMP_DYNAMIC": ["true"], "OMP_STACKSIZE": ["16K"],
       "LANG": ["de_DE.UTF-8", "C.utf8", "xx"], "LC_ALL": ["de_DE.UTF-8", "POSIX", "xx", None], "LC_NUMERIC": ["de_DE.UTF-8"], "LANGUAGE": ["de"], "HOME": [None, "/", "/nonexistent"],
       "PATH": [None, ""], "USER": ["nobody"], "TMPDIR": ["/nonexistent"], "TEMP": ["."], "PWD": ["/elsewhere"], "OLDPWD": ["/x"], "COLUMNS": ["3"], "TERM": ["dumb"],
       "POSIXLY_CORRECT": ["1"], "MALLOC_ARENA_MAX": ["1"], "MALLOC_PERTURB_": ["165"], "MALLOC_CHECK_": ["3"], "CFLAGS": ["-O0"], "COFFE_PATH": ["/tmp"], "COFFE_SEED": ["5"],
       "DEBUG": ["1"], "VERBOSE": ["1"], "CUBACORES": ["4"], "OPENBLAS_NUM_THREADS": ["9"], "SOURCE_DATE_EPOCH": ["1"], "HOSTNAME": ["x"], "SHELL": ["/bin/false"],
       "FILLER": ["y" * 1, "y" * 77, "y" * 5003, "y" * 60001]}
NAMES = ["x", "with space", "s\u00fc\u00df", "a" * 120, "-n", "%s%n", "$TIME", "1e3"]
LOCDIR = os.path.join(S.WORK, "locale")
FMT = re.compile(r"^(\d{4,}-\d\d-\d\d-\d\d-\d\d-\d\d)_(.*)$")


def locales():
    """A locale with another decimal point, compiled from the system's sources."""
    d = os.path.join(LOCDIR, "de_DE.UTF-8")
    if not os.path.exists(d) and shutil.which("localedef"):
        os.makedirs(LOCDIR, exist_ok=True)
        tmp = f"{d}.{os.getpid()}"
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", "--no-archive", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
        if os.path.isdir(tmp):
            os.rename(tmp, d)
    return os.path.isdir(d)


class context:
    def __init__(self):
        self.C = K.Cli("c16")
        self.H = hist.Hist("c16h", max(2, S.NCPU // 2))
        self.comma = locales()

    def close(self):
        self.C.close()
        self.H.close()


def clock(r):
    step = r.choice([0, 1, 1000, 10**6, 10**9, 3600 * 10**9, -10**9, 10**12])
    jumps = ",".join(f"{r.randint(1, 12)}:{r.choice([1, -1]) * r.choice([1, 60, 3600, DAY, 400 * DAY, 20 * 365 * DAY])}" for _ in range(r.choice([0, 1, 2, 4])))
    start = r.choice(STARTS) if r.random() < 0.6 else r.randrange(2**31)
    # keep the clock's value representable as a year of four digits
    if abs(step) >= 3600 * 10**9:
        start = max(start, 5 * 10**8)
    return f"clk.on=1\nclk.start={start}\nclk.step={step}\n" + (f"clk.jumps={jumps}\n" if jumps else "")


def world(r, comma):
    """One environment to run in."""
    env = {k: r.choice(ENV[k]) for k in r.sample(sorted(ENV), r.choice([0, 2, 5, 12, len(ENV)]))}
    env["TZ"] = r.choice(ZONES)
    if comma:
        env["LOCPATH"] = LOCDIR
        if r.random() < 0.5:
            env["LC_ALL"] = "de_DE.UTF-8"
    w = {"env": env, "clock": clock(r) if r.random() < 0.8 else "", "fill": r.choice([0, 1, 2, 3]) if r.random() < 0.2 else None, "name": r.choice(NAMES), "aslr": r.random() < 0.3,
         "stack": r.choice([None, None, 3 << 20, 64 << 20]), "umask": r.choice([None, None, 0o077, 0o000])}
    return w


def pre(w):
    def f():
        if w.get("aslr"):
            ctypes.CDLL(None).personality(0x0040000)
        if w.get("stack"):
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (w["stack"], resource.getrlimit(resource.RLIMIT_STACK)[1]))
            except (ValueError, OSError):
                pass
        if w.get("umask") is not None:
            os.umask(w["umask"])
    return f


def sim(w):
    return "seed=1\nio.root=@D@\nio.log=1\n" + w.get("clock", "") + (f"mem.fill={w['fill']}\nmem.on=1\n" if w.get("fill") is not None else "")


def run(C, sc, w):
    s, f = K.scenario(sc)
    top = C.fresh_dir()
    d = os.path.join(top, w.get("name", "x"))
    os.makedirs(d)
    try:
        C.put(d, s, f)
        env = dict(w.get("env", {}))
        return s, f, C.go(d, sim(w), env=env, pre=pre(w))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def plainnames(t, out):
    """The files without their time stamp: ({name: content}, the set of stamps)."""
    res, stamps = {}, set()
    for k, v in t.items():
        a, b = os.path.split(k.rstrip("/"))
        m = FMT.match(b) if not k.endswith("/") else None
        if m:
            stamps.add(m.group(1))
            k = os.path.join(a, "TIME_" + m.group(2))
        res[k] = v
    return res, stamps


def compare(sc, base, got, f):
    """What differs between two runs apart from the time stamp."""
    if got["code"] != base["code"]:
        return f"the program ends with {got['code']} instead of {base['code']}: {got['err'][-160:]}"
    a, _ = plainnames(K.results(base["tree"], f), sc)
    b, st = plainnames(K.results(got["tree"], f), sc)
    if len(st) > 1:
        return "files of one run carry different time stamps: " + ", ".join(sorted(st))
    return c01.numbers(a, b)


def smaller(w, bad):
    """The same world with everything that does not matter as usual."""
    w = dict(w)
    for k, v in (("clock", ""), ("fill", None), ("name", "x"), ("aslr", False), ("stack", None), ("umask", None)):
        if w.get(k) not in (v, None):
            t = {**w, k: v}
            if bad(t):
                w = t
    ks = S.ddmin(sorted(w["env"]), lambda ks: bad({**w, "env": {k: w["env"][k] for k in ks}}), budget=20, secs=30)
    if not ks or bad({**w, "env": {k: w["env"][k] for k in ks}}):
        w["env"] = {k: w["env"][k] for k in ks}
    if len(w["env"]) == 1 and bad({**w, "env": {}}):
        w["env"] = {}
    return w


# ------------------------------------------------------------------ the time stamp
def stamp(t):
    return time.strftime("%Y-%m-%d-%H-%M-%S", time.gmtime(t))


def stamp_run(C, sc, extra, start, step=1000):
    s, f = K.scenario(sc)
    return s, f, C.once(s, f, f"seed=1\nio.root=@D@\nio.log=1\nclk.on=1\nclk.start={start}\nclk.step={step}\n" + extra)


def stamp_problem(C, sc, extra, start, delta, late, step=1000):
    """(problem, result) with one jump by delta somewhere; late: after the settings were read for certain."""
    s, f, r = stamp_run(C, sc, extra, start, step)
    if r["code"] != 0:
        return (f"the program ends with {r['code']}: {r['err'][-160:]}", r)
    t = K.results(r["tree"], f)
    names, stamps = plainnames(t, sc)
    files = [k for k in t if not k.endswith("/")]
    if len(stamps) != 1:
        return (f"{len(stamps)} time stamps in the files of one run: " + ", ".join(sorted(files)), r)
    if any(not os.path.basename(k).startswith("TIME_") for k in names if not k.endswith("/")):
        return ("a file lacks the time stamp: " + ", ".join(sorted(files)), r)
    st = stamps.pop()
    try:
        v = calendar.timegm(time.strptime(st, "%Y-%m-%d-%H-%M-%S"))
    except ValueError:
        return (f"the time stamp {st} is not a time", r)
    # the clock advances by `step` with every reading
    slack = 2 + abs(step) * 200 // 10**9
    near = [start] if late else [start, start + delta]
    if not any(abs(v - x) <= slack for x in near):
        return (f"the time stamp is {st}; the settings were read at {stamp(start)}" + (f" and the clock was later moved to {stamp(start + delta)}" if late else ""), r)
    return (None, r)


def stamps(C, ck, r, rounds):
    scs = ["corr-time", "multi-time", "avg-time", "covm-time", "cova-time", "corr-time-nopk", "multi-time-bias", "corr-time-deep"]
    jobs = []
    for n in range(rounds):
        sc = scs[n % len(scs)]
        start = r.choice([1700000000, 1709164799, 951782399, 86400 * 365, 2147483000])
        _, f, b = stamp_run(C, sc, "", start)
        log = ((b.get("stats") or {}).get("io") or {}).get("log") or []
        reads = ((b.get("stats") or {}).get("clk") or {}).get("reads") or 0
        regions = ((b.get("stats") or {}).get("omp") or {}).get("regions") or 0
        first = next((i + 1 for i, e in enumerate(log) if e[0] == "mkdir" or (e[3] and os.path.basename(e[3]) not in f and not e[3].endswith("s.cfg") and FMT.match(os.path.basename(e[3])))),
                     None)
        ck.absorb(b.get("stats"))
        for _ in range(2):
            jobs.append((sc, start, r.choice([0, 1000, 10**6, -1000]), "", 0, True))
        ds = [1, -1, 60, -3600, DAY, -DAY, 400 * DAY]
        for k in ([*range(1, reads + 1)] if S.TIER != "quick" else r.sample(range(1, reads + 1), min(5, reads))):
            d = r.choice(ds[2:])
            jobs.append((sc, start, 1000, f"clk.jumps={k}:{d}\n", d, False))
        if first:
            ks = range(first, len(log) + 1)
            for k in ks if S.TIER != "quick" else sorted({first, len(log), *r.sample(ks, min(5, len(ks)))}):
                d = r.choice(ds[2:])
                jobs.append((sc, start, 1000, f"clk.jump_io={k}:{d}\n", d, True))
        if regions:
            for k in {1, regions}:
                d = r.choice(ds[2:])
                jobs.append((sc, start, 1000, f"clk.jump_region={k}:{d}\n", d, True))
    return jobs


def main():
    ck = S.Check("C16", "exploration", "each evaluation is one run of the program or one history of the library in another simulated world (clock value, rate and jumps, time zone, "
                 "locale, environment variables, directory, limits, memory layout and content), whose results were compared with those of the reference world; or one "
                 "program run with the clock moved at a chosen clock reading, file operation or parallel region, whose time stamps were checked; distinct by scenario and world")
    W = context()
    C = W.C
    try:
        budget = 75 if S.TIER == "quick" else 2000
        r0 = S.rng("c16s")

        def st(j):
            sc, start, step, extra, d, late = j
            if len(ck.viol) >= 6:
                return
            p, r = stamp_problem(C, sc, extra, start, d, late, step)
            ck.absorb(r.get("stats"))
            ck.seen(["stamp", *j])
            ck.add("clock_moved_" + (extra.split("=")[0].replace("clk.", "") or "not_at_all"))
            if p:
                p2, _ = stamp_problem(C, sc, extra, start, d, late, step)
                if p2:
                    ck.violation(f"stamp:{'late' if late else 'any'}:{extra.split('=')[0].replace('clk.', '')}", f"{sc}: {p}",
                                 {"kind": "stamp", "sc": sc, "start": start, "step": step, "extra": extra, "d": d, "late": late})
        S.pmap(st, stamps(C, ck, r0, 8 if S.TIER == "quick" else 40))
        ck.cov["stamps_wall_s"] = round(S.elapsed(), 1)
        scs = [x for x in K.ALL + K.MORE] + ["corr-len", "avg-len", "corr-len-mc", "multi-len-vegas", "covm-fftlog"]

        def prog(r):
            sc = "corr-div" if r.random() < 0.01 else r.choice(scs) if r.random() < 0.8 else r.choice(["corr-len-mc", "multi-len-vegas", "multi-len", "corr-len"])
            s, f, base = C.base(sc)
            w = world(r, W.comma)
            _, _, got = run(C, sc, w)
            ck.absorb(got.get("stats"))
            ck.seen(["program", sc, w])
            ck.add("program_runs")
            t = compare(sc, base, got, f)
            ck.sample({"scenario": sc, **{k: v for k, v in w.items() if k != "env"}, "environment": sorted(w["env"])}, 3)
            if t:
                def bad(x):
                    return bool(compare(sc, base, run(C, sc, x)[2], f))
                if not bad(w):
                    ck.add("unconfirmed")
                    return
                with ck.lock:
                    if len(ck.viol) >= 6:
                        return
                small = smaller(w, bad)
                ck.violation("program:" + blame(small), f"{sc} in another world ({blame(small)}): {t}", {"kind": "program", "sc": sc, "world": small})

        def lib(r):
            base, p, ops = G.history(r, W.H.settings, r.randint(3, 8), pq=0.5, divergent=0.0, base=r.choice(["local", "lensing", "flat", "userpk_flat", "twobins", "fftlog", "binned",
                                                                                                             "userpk", "halofit", "doppler", "gsl1d"]))
            ops = ops + [["save", "a", "o.cfg"], ["fs", "read", "o.cfg"], ["load", "b", "o.cfg"], ["all", "b"], ["allb", "b"], r.choice(M.queries()[7:])]
            w = world(r, W.comma)
            want = W.H.pool.call({"ops": p + ops, "timeout": 60, "sim": "seed=1\n"})["out"]
            got = libworld(W, p + ops, w)
            ck.absorb((got.get("info") or {}).get("sim"))
            ck.seen(["library", p, ops, w])
            ck.add("library_histories")
            i = apart(want, got["out"])
            if i is not None:
                def bad(x):
                    return apart(want, libworld(W, p + ops, x)["out"]) is not None
                if not bad(w):
                    ck.add("unconfirmed")
                    return
                small = smaller(w, bad)
                op = (p + ops)[i]
                ck.violation("library:" + blame(small), f"{S.short(op, 80)} gives {S.short(got['out'][i], 120)} instead of {S.short(want[i], 120)} ({blame(small)})",
                             {"kind": "library", "ops": p + ops, "world": small})

        def one(i):
            if len(ck.viol) >= 6:
                return
            r = S.rng("c16", i)
            (prog if r.random() < 0.6 else lib)(r)
        start = S.elapsed()
        S.pmap(one, range(1000000), stop=lambda: S.elapsed() > max(budget, start + 20) or len(ck.viol) >= 6)
        ck.cov["comma_locale"] = W.comma
        ck.assumptions = ["the time stamp is in local time; its value is checked with TZ=UTC",
                          "numbers may differ in the last digits (1e-7) between memory layouts"]
    finally:
        W.close()
    return ck.finish()


def blame(w):
    """What is special about a world."""
    out = [k for k, v in (("clock", w.get("clock")), ("memory", w.get("fill") is not None), ("directory", w.get("name", "x") != "x"), ("aslr", w.get("aslr")),
                          ("stack", w.get("stack")), ("umask", w.get("umask") is not None)) if v]
    return "+".join(out + sorted(k for k in w.get("env", {}) if k not in ("LOCPATH",)))[:80] or "chance"


def libworld(W, ops, w):
    loc = (w["env"].get("LC_ALL") or "C")
    env = {k: (v if v is not None else None) for k, v in w["env"].items()}
    job = {"ops": ops, "timeout": 90, "env": env, "sim": "seed=2\n" + w.get("clock", "") + (f"mem.fill={w['fill']}\nmem.on=1\n" if w.get("fill") is not None else "")}
    if loc == "de_DE.UTF-8" and W.comma:
        job["locale"] = loc
    if w.get("umask") is not None:
        job["host"] = {"umask": w["umask"]}
    return W.H.pool.call(job)


def apart(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if "timeout" in (x[0], y[0]):
            return None
        if not S.same(x[:2], y[:2], 1e-7, 1e-10):
            return i
    return None


def replay(W, c):
    if c["kind"] == "stamp":
        p, _ = stamp_problem(W.C, c["sc"], c["extra"], c["start"], c["d"], c["late"], c["step"])
        if p:
            print("  " + p)
        return bool(p)
    if c["kind"] == "program":
        s, f, base = W.C.base(c["sc"])
        t = compare(c["sc"], base, run(W.C, c["sc"], c["world"])[2], f)
        if t:
            print("  " + t)
        return bool(t)
    want = W.H.pool.call({"ops": c["ops"], "timeout": 60, "sim": "seed=1\n"})["out"]
    return apart(want, libworld(W, c["ops"], c["world"])["out"]) is not None
