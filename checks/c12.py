"""C12: running out of memory never produces a wrong result."""
import cli as K
import hist
import model as M
import simlib as S

NEEDS = "hist"
BAD = ("exc", "died")
PQ = M.queries()


# ------------------------------------------------------------------ the library
def q(i):
    return PQ[i]


# (configuration, operations before, operation under failure)
def targets(tier):
    out = []
    for c in ("local", "flat", "userpk_flat", "fftlog", "twobins", "halofit", "lensing"):
        out.append((c, [], q(0)))
        out.append((c, [q(0)], q(4)))
        out.append((c, [q(4)], q(7)))
        out.append((c, [], q(7)))
        out.append((c, [q(4)], q(8)))
        out.append((c, [q(4)], q(9)))
        out.append((c, [], q(10)))
        out.append((c, [], q(11)))
        out.append((c, [q(4)], q(5)))
        out.append((c, [q(4)], q(6)))
        out.append((c, [], q(2)))
        out.append((c, [], q(3)))
        out.append((c, [], q(1)))
    for op in (["set", "a", "sep", [30.0, 50.0, 70.0]], ["set", "a", "mu", [0.1, 0.2, 0.3]], ["set", "a", "l", [0, 4]], ["set", "a", "z_mean", [0.7]],
               ["set", "a", "deltaz", [0.07]], ["set", "a", "z_min", [0.7]], ["set", "a", "z_max", [1.2]], ["set", "a", "number_density1", [2e-3]],
               ["set", "a", "number_density2", [3e-3]], ["set", "a", "pixelsize", [12.0]], ["set", "a", "fsky", [0.25]], ["set", "a", "covariance_populations", [1, 2, 2, 1]],
               ["set", "a", "omega_m", 0.31], ["set", "a", "has_lensing", True], ["set", "a", "h", 0.71],
               ["setm", "a", {"sep": [40.0, 90.0], "mu": [0.3], "omega_m": 0.29}],
               ["bias", "a", "galaxy_bias1", [0.0, 1.0, 2.0, 5.0, 10.0], [1.0, 1.3, 1.5, 1.9, 2.4]],
               ["bias", "a", "evolution_bias2", [0.0, 1.0, 2.0, 5.0, 15.0], [0.0, 0.3, 0.5, 0.9, 1.4]], ["pk", "a", *M.table(1)],
               ["reset", "a"], ["save", "a", "m.cfg"], ["load", "a", "pre.cfg"], ["new", "b", {"h": 0.7, "sep": [50.0], "fsky": [0.2]}],
               ["bv", "a", "galaxy_bias1", 0.4], ["bt", "a", "galaxy_bias2"], ["get", "a", "sep"], ["params", "a"]):
        out.append(("local", [q(0), q(7), ["save", "a", "pre.cfg"]], op))
    return out


def after(op):
    if op[0] == "q":
        return [op]
    if op[0] == "save":
        return [["load", "c", "m.cfg"], ["all", "c"], ["allb", "c"]]
    if op[0] == "load":
        return [["all", "a"], ["allb", "a"], q(7)]
    if op[0] == "new":
        return [["all", "b"]]
    return [["all", "a"], ["allb", "a"], q(7)]


def suffix(op, mask, k, sticky):
    return [["sim", f"mem.light=1\nmem.on=1\nmem.fail_mask={mask}\nmem.fail_sticky={int(sticky)}\nmem.fail_at={k}\n"], op,
            ["sim", "mem.fail_sticky=0\nmem.fail_at=-1\n"], *after(op)]


def outcome(op, sub):
    """(what the operation under failure gave, what is seen afterwards)"""
    o = sub["out"]
    first = o[1] if len(o) > 1 else o[-1]
    return first, o[3:]


def judge(op, ref, old, got):
    """Text if what happened under failure is neither a failure nor the right answer."""
    r1, ra = ref
    g1, ga = got
    if g1[0] == "timeout":
        return None
    if g1[0] not in BAD and not S.same(r1, g1):
        return f"{S.short(op, 90)} gave {S.short(g1, 90)} instead of {S.short(r1, 90)}"
    if g1[0] == "died":
        return None
    for j, (a, b) in enumerate(zip(ra, ga)):
        if b[0] in BAD or b[0] == "timeout":
            if b[0] == "exc" and g1[0] not in BAD and a[0] == "ok":
                return f"{S.short(op, 90)} reported success, and yet {S.short(after(op)[j], 60)} gave {S.short(b, 80)} instead of {S.short(a, 80)} afterwards"
            if b[0] == "died":
                break
            continue
        # after a failure: as if the operation had not happened, or had happened
        ok = S.same(a, b) or (g1[0] in BAD and old is not None and S.same(old[j], b)) or (a[0] == "exc" and b[0] == "exc")
        if not ok:
            return f"after {S.short(op, 90)} {'failed' if g1[0] in BAD else 'succeeded'}, {S.short(after(op)[j], 60)} gave {S.short(b, 80)} instead of {S.short(a, 80)}"
    return None


def name(op):
    return op[2] if op[0] in ("q", "set", "bias") else op[0]


def lib_points(r, n, mask, cap):
    """Which requests to fail: all of them if there are few."""
    if n <= cap:
        return list(range(1, n + 1))
    pts = set(range(1, cap // 4 + 1)) | {n - i for i in range(cap // 8)}
    while len(pts) < cap:
        pts.add(r.randint(1, n) if r.random() < 0.6 else int(n ** r.random()) or 1)
    return sorted(pts)


def prefix(c, pre):
    m = M.from_cfg(c)
    return m.fresh("a", m.pk[0]) + pre


def run_target(H, ck, t, mask, cap, viol):
    c, pre, op = t
    pf = prefix(c, pre)
    simarg = "seed=3\n"
    if True:
        job = {"mode": "tree", "prefix": pf, "suffixes": [suffix(op, mask, 1 << 60, False), [["sim", "seed=3\n"], ["sim", "seed=3\n"], ["sim", "seed=3\n"], *after(op)]],
               "timeout": 60, "sim": simarg}
        res = H.pool.call(job)
        subs = res["info"].get("sub", [])
        if len(subs) < 2 or any(o[0] != "ok" for o in res["out"][:len(pf)]):
            ck.add("targets_not_built")
            return
        ref = outcome(op, subs[0])
        old = subs[1]["out"][3:] if op[0] != "q" else None
        if old is not None and len(old) < len(after(op)):
            old = None
        n = ((subs[0]["info"].get("sim") or {}).get("mem") or {}).get("eligible")
        if n is None:
            n = elig(H, pf, op, mask)
        if not n:
            return
        r = S.rng("c12", c, name(op), len(pre), mask)
        pts = lib_points(r, n, mask, cap)
        pts = [(k, False) for k in pts] + [(k, True) for k in sorted(set(r.choice(pts) for _ in range(max(2, len(pts) // 6))))]
        for i in range(0, len(pts), 40):
            part = pts[i:i + 40]
            res = H.pool.call({"mode": "tree", "prefix": pf, "suffixes": [suffix(op, mask, k, s) for k, s in part], "timeout": 30, "sim": simarg})
            for (k, s), sub in zip(part, res["info"].get("sub", [])):
                got = outcome(op, sub)
                ck.seen(["lib", c, len(pre), name(op), mask, k, s])
                ck.add("requests_failed")
                ck.add("library:" + ("raised" if got[0][0] == "exc" else "ended" if got[0][0] == "died" else "unharmed" if got[0][0] == "ok" else got[0][0]))
                b = judge(op, ref, old, got)
                if b:
                    ck.violation(f"{name(op)}:{'own' if mask == 1 else 'lib'}", f"[{c}] request {k} of {n} fails{' and all after it' if s else ''}: {b}",
                                 {"kind": "lib", "t": [c, pre, op], "mask": mask, "k": k, "sticky": s})
                    if len(ck.viol) > 6:
                        return


def elig(H, pf, op, mask):
    r = H.pool.call({"ops": pf + suffix(op, mask, 1 << 60, False)[:2], "timeout": 60, "sim": "seed=3\n"})
    return ((r["info"].get("sim") or {}).get("mem") or {}).get("eligible", 0)


def replay_lib(H, case):
    c, pre, op = case["t"]
    pf = prefix(c, pre)
    res = H.pool.call({"mode": "tree", "prefix": pf, "suffixes": [suffix(op, case["mask"], 1 << 60, False), [["sim", "seed=3\n"]] * 3 + after(op),
                                                                   suffix(op, case["mask"], case["k"], case["sticky"])], "timeout": 60, "sim": "seed=3\n"})
    subs = res["info"]["sub"]
    old = subs[1]["out"][3:] if op[0] != "q" else None
    return judge(op, outcome(op, subs[0]), old, outcome(op, subs[2]))


# ------------------------------------------------------------------ the program
def mem(mask, k, sticky):
    return f"seed=1\nmem.libc=1\nmem.light=1\nmem.on=1\nmem.fail_mask={mask}\nmem.fail_sticky={int(sticky)}\nmem.fail_at={k}\n"


CLOCK = "clk.on=1\nclk.start=1700000000\nclk.step=1000\n"


def cli_base(C, sc):
    s, f = K.scenario(sc)
    return s, f, C.once(s, f, "seed=1\n" + CLOCK)


def cli_judge(base, r):
    if r["code"] != 0 or "MemoryError" in r["err"]:
        return None
    d = K.diff(base["tree"], r["tree"])
    return d and "the program exits with status zero and " + d


def cli_one(C, sc, mask, k, sticky):
    s, f, base = cli_base(C, sc)
    return cli_judge(base, C.once(s, f, mem(mask, k, sticky) + CLOCK))


def run_cli(C, ck, sc, mask, cap):
    s, f, base = cli_base(C, sc)
    if base["code"] != 0:
        ck.violation("cli:baseline", f"[{sc}] the program fails without any fault: {base['err'][-200:]}", {"kind": "cli", "sc": sc, "mask": mask, "k": -1, "sticky": False})
        return []
    n = C.once(s, f, mem(mask, 1 << 60, False) + CLOCK)["stats"]["mem"]["eligible"]
    r = S.rng("c12cli", sc, mask)
    pts = lib_points(r, n, mask, cap)
    pts = [(k, False) for k in pts] + [(k, True) for k in sorted(set(r.choice(pts) for _ in range(max(2, len(pts) // 8))))]
    return [(sc, mask, k, st, n, s, f, base) for k, st in pts]


def cli_job(C, ck, j):
    sc, mask, k, st, n, s, f, base = j
    r = C.once(s, f, mem(mask, k, st) + CLOCK)
    ck.seen(["cli", sc, mask, k, st])
    ck.add("requests_failed")
    ck.add("program:" + ("unharmed" if r["code"] == 0 else "killed" if r["code"] != 1 else "reported"))
    b = cli_judge(base, r)
    if b:
        ck.violation(f"cli:{sc}:{mask}", f"[{sc}] request {k} of {n} fails{' and all after it' if st else ''}: {b}", {"kind": "cli", "sc": sc, "mask": mask, "k": k, "sticky": st})


def main():
    quick = S.TIER == "quick"
    ck = S.Check("C12", "exploration", "each evaluation is one run in which one numbered memory request (or all from one on) was refused, of the library, of the numerical and "
                 "configuration libraries, or (for the program) of the C library, compared with the run without the failure; distinct by "
                 "(configuration, operation, class of request, number)")
    H = hist.Hist("c12")
    C = K.Cli("c12")
    try:
        ts = targets(S.TIER)
        jobs = []
        for t in ts:
            heavy = name(t[2]) in ("integral", "covariance_bulk", "average_covariance_bulk", "corrfunc_bulk", "average_multipoles_bulk", "multipoles_bulk")
            jobs.append((t, 1, (60 if heavy else 40) if quick else 400))
            jobs.append((t, 2, (14 if heavy else 10) if quick else 200))
        S.rng("c12o").shuffle(jobs)
        T1 = S.elapsed()
        S.pmap(lambda j: run_target(H, ck, j[0], j[1], j[2], None), jobs, stop=lambda: S.elapsed() > (75 if quick else 1500))
        ck.cov["library_wall_s"] = round(S.elapsed() - T1, 1)
        todo = []
        for sc in K.ALL + (["corr-bias", "multi-deep-few"] if quick else K.MORE):
            for mask, cap in ((1, 60 if quick else 1000), (2, 30 if quick else 600), (4, 110 if quick else 300)):
                todo.append((sc, mask, cap))
        lists = S.pmap(lambda a: run_cli(C, ck, *a), todo)
        js = [j for li in lists for j in li]
        S.rng("c12c").shuffle(js)
        S.pmap(lambda j: cli_job(C, ck, j), js, stop=lambda: S.elapsed() > (150 if quick else 3600) or len(ck.viol) > 6)
        ck.sample(["lib", "local", "corrfunc_bulk", "own request 3 of 5"])
        ck.sample(["cli", "corr-bias", "libc request 12 of 106"])
        ck.assumptions = ["requests of the Python interpreter and NumPy are not refused", "requests of the numerical libraries, which are many and alike, are sampled beyond the first ones",
                          "ending the process counts as stopping with a failure"]
    finally:
        H.close()
        C.close()
    return ck.finish()


def replay(H, case):
    if case["kind"] == "lib":
        b = replay_lib(H, case)
    else:
        C = K.Cli("c12r")
        try:
            b = cli_one(C, case["sc"], case["mask"], case["k"], case["sticky"])
            if case["k"] < 0:
                b = "baseline" if cli_base(C, case["sc"])[2]["code"] else None
        finally:
            C.close()
    if b:
        print("  " + b)
    return bool(b)
