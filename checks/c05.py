"""C05: a rejected change or a failed call leaves the object as it was."""
import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
OBS = [["all", "a"], ["allb", "a"]] + G.Q
FULL = ["local", "userpk", "userpk_halofit", "twobins", "flat", "userpk_flat", "doppler", "fftlog", "binned", "halofit", "crossonly", "neutrino"]


def failed(o):
    return o[0] == "exc"


def name(op):
    return op[2] if op[0] in ("set", "q", "bias", "bv", "get") else op[0]


def groups_of(H, r, quick, c):
    """Every kind of call that must fail, each one alone."""
    m = M.from_cfg(c)
    out = []
    for n in H.settings:
        cur = m.s.get(n, M.DEFAULTS.get(n))
        vals = G.bad_values(n, cur, r)
        if quick and len(vals) > 7 and n not in M.LISTS:
            vals = r.sample(vals, 5)
        out += [["set", "a", n, v] for v in vals]
    for b in M.BIASES:
        t = G.bad_biases(r, m.b.get(b))
        out += [["bias", "a", b, x, y] for x, y in (r.sample(t, 6) if quick else t)]
    out += [["pk", "a", x, y] for x, y in G.bad_pks()]
    out += G.bad_calls()
    # several settings at once, one of them wrong, in every place
    good = [("h", 0.7), ("sep", [44.0, 99.0]), ("omega_m", 0.27), ("has_lensing", True), ("covariance_populations", [2, 1, 2, 1]),
            ("pk_type", "linear"), ("mu", [0.1]), ("sigma8", 0.9)]
    wrong = [("fsky", [3.0]), ("h", G.S("x")), ("sep", [-1.0]), ("omega_baryon", 5.0), ("l", [77]), ("no_such", 1), ("z_mean", G.partway([1.0, 1.0], 1, "ValueError")),
             ("galaxy_bias1", 1.0), ("m_ncdm", -3.0), ("k_max", G.NAN), ("covariance_populations", [1, 2, 3, 4, 1])]
    for w in wrong:
        for at in (0, 2, 3):
            d = [g for g in r.sample(good, 4) if g[0] != w[0]][:3]
            d.insert(min(at, len(d)), w)
            out.append(["setm", "a", dict(d)])
    for w in wrong:
        out.append(["new", "b", dict([w, ("h", 0.7)])])
    for bad in ("no/such/file.cfg", ".", "/dev/null"):
        out.append(["load", "b", bad])
    for txt in ("not a settings file {", "h = 0.5;\nsep = \"x\";\n", "omega_m = -3.0;\n", "\x00\x01\x02", "h = 0.6;\nno_such_thing = 4;\nz_mean = [\n"):
        out.append(("load_text", txt))
    return out


def seq_of(op):
    if op[0] == "load_text":
        return [["fs", "write", "bad.cfg", op[1]], ["load", "b", "bad.cfg"]]
    return [op]


def trial(H, pre, seq, obs, armed=None):
    """(outcomes of the tried calls, what follows with them, what follows without)."""
    t = H.pool.call({"mode": "tree", "prefix": pre, "suffixes": [obs, seq + obs], "timeout": 30})
    subs = t["info"].get("sub", [])
    if len(subs) != 2:
        return None
    return subs[0]["out"], subs[1]["out"]


def wrong(want, got, n):
    """First difference between what follows the failed calls and what should."""
    if got and got[-1][0] == "timeout":
        return None
    if got and got[-1][0] == "died" and len(got) <= n:
        return "died", f"the call ends the process: {got[-1]}"
    g = got[n:]
    for i in range(min(len(want), len(g))):
        if "timeout" in (want[i][0], g[i][0]):
            return None
        if not S.same(want[i], g[i]):
            return i, f"{S.short(g[i])} instead of {S.short(want[i])}"
    return None


def report(H, ck, key, pre, seq, obs, what):
    with ck.lock:
        if key in ck.known:
            ck.known_seen.setdefault(key, what)
            return
        if any(v["key"] == key for v in ck.viol) or len(ck.viol) >= 8:
            return

    def bad(p, q, o):
        x = trial(H, p, q, o)
        if not x or len(x[1]) < len(q):
            return x is not None and len(x[1]) and x[1][-1][0] == "died"
        if not any(failed(r) for r in x[1][:len(q)]):
            return False
        return wrong(x[0], x[1], len(q)) is not None
    if not bad(pre, seq, obs):
        ck.add("unconfirmed")
        return
    if S.elapsed() < 240:
        small = [o for o in obs]
        for o in obs:
            if bad(pre, seq, [o]):
                small = [o]
                break
        obs = small
        pre = S.ddmin(pre, lambda p: p and p[0][0] == "new" and bad(p, seq, obs), budget=16, keep=1)
    ck.violation(key, what, {"pre": pre, "seq": seq, "obs": obs})


def replay(H, case):
    if case.get("kind") == "probe":
        return H.pool.call({"ops": case["ops"], "timeout": 60, "stats": False})["out"][-1][0] == "died"
    if case.get("kind") == "history":
        r = hist_fails(H, case["ops"], case["marks"])
        if r:
            print("  " + r[1])
        return bool(r)
    x = trial(H, case["pre"], case["seq"], case["obs"])
    w = wrong(x[0], x[1], len(case["seq"])) if x else None
    if w:
        print("  " + w[1])
    return bool(w)


def systematic(H, ck, configs):
    quick = S.TIER == "quick"
    jobs = []
    for ci, c in enumerate(configs):
        m = M.from_cfg(c)
        pre = m.fresh("a", m.pk[0])
        tries = groups_of(H, S.rng("c05", c), quick, c)
        S.rng("c05s", c).shuffle(tries)
        if quick and ci:
            tries = tries[:150]
        # on an object which has computed everything, each failing call by itself
        jobs += [(c, True, pre + OBS, tries[i:i + 20]) for i in range(0, len(tries), 20)]
        # on one which has computed nothing
        some = tries if not quick else [t for t in tries if t[0] in ("bias", "pk", "setm", "q")][:60]
        jobs += [(c, False, pre, some[i:i + 20]) for i in range(0, len(some), 20)]
        # the provider failing in the computations: first everything with the fault, then without it
        for kind in (0, 1, 2):
            for at in (1, 2, 3):
                for q in G.Q[2:]:
                    jobs.append((c, "prov", pre, [("prov", at, kind, q)]))
    if quick:
        provs = [j for j in jobs if j[1] == "prov"]
        keep = S.rng("c05p").sample(provs, 40)
        jobs = [j for j in jobs if j[1] != "prov"] + keep

    def one(j):
        c, warm, pre, tries = j
        if warm == "prov":
            for _, at, kind, q in tries:
                seq = [["prov", at, kind], q, ["prov", 0, 0]]
                judge(c, "prov", pre, seq, OBS, None, None, q)
            return
        seqs = [seq_of(t) for t in tries]
        # what follows a failed call: the whole object, cheaply when everything has been computed before
        obs = OBS
        t = H.pool.call({"mode": "tree", "prefix": pre, "suffixes": [obs] + [s + obs for s in seqs], "timeout": 30})
        subs = t["info"].get("sub", [])
        if len(subs) != len(seqs) + 1:
            raise S.HarnessError(f"configuration {c} does not run: {t['out'][-1:]}")
        for s, sub in zip(seqs, subs[1:]):
            judge(c, warm, pre, s, obs, subs[0]["out"], sub["out"], s[-1])

    def judge(c, warm, pre, s, obs, want, got, op):
        if want is None:
            x = trial(H, pre, s, obs)
            if not x:
                raise S.HarnessError(f"configuration {c} does not run")
            want, got = x
            ck.add("provider_failures_armed")
        tried = got[:len(s)]
        if not any(failed(r) or r[0] == "died" for r in tried):
            ck.add("accepted")
            return
        ck.add("failed_calls")
        ck.seen([c, warm, s], n=len(obs))
        w = wrong(want, got, len(s))
        if w:
            oname = name(obs[w[0]]) if w[0] != "died" else "died"
            report(H, ck, f"{name(op)}->{oname}", pre, s, obs, f"after a failed {op[0]} {S.short(op[2:], 90)} in configuration {c}: {oname}: {w[1]}")
    S.pmap(one, jobs)


def hist_run(H, ops):
    return H.pool.call({"ops": ops, "timeout": 12, "stats": False})["out"]


def hist_fails(H, ops, marks, outs=None):
    """A history containing calls that failed, against the same history without them."""
    outs = outs if outs is not None else hist_run(H, ops)
    drop = [marks[i] and i < len(outs) and (failed(outs[i]) or ops[i][0] == "prov") for i in range(len(ops))]
    # a provider fault without any failed call in between changed nothing; keep it out on both sides
    if outs and outs[-1][0] == "timeout":
        return None
    if outs and outs[-1][0] == "died":
        i = len(outs) - 1
        base = hist_run(H, [o for k, o in enumerate(ops[:i + 1]) if not drop[k] or k == i])
        if marks[i] or base[-1][0] != "died":
            return i, f"{ops[i][0]} {S.short(ops[i][2:], 60)} ends the process: {outs[-1]}"
        return None
    base = hist_run(H, [o for o, d in zip(ops, drop) if not d])
    mine = [o for o, d in zip(outs, drop) if not d]
    pos = [i for i, d in enumerate(drop) if not d]
    if len(base) != len(mine):
        return (0, "the history without the failed calls does not end the same way") if base[-1][0] != "timeout" else None
    for i, (a, b) in enumerate(zip(base, mine)):
        if "timeout" in (a[0], b[0]):
            return None
        if not S.same(a, b):
            return pos[i], f"{name(ops[pos[i]])}: {S.short(b)} instead of {S.short(a)}"
    return None


def random_part(H, ck, budget):
    start = S.elapsed()

    def one(i):
        r = S.rng("c05r", i)
        base, pre, good = G.history(r, H.settings, r.randint(4, 8), divergent=0.0)
        w = M.from_cfg(base)
        ops, marks = list(pre), [False] * len(pre)
        for g in good + r.sample(OBS, 5):
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.random()
                if x < 0.5:
                    n = r.choice(G.HOT if r.random() < 0.6 else H.settings)
                    cur = w.s.get(n, M.DEFAULTS.get(n))
                    ops.append(["set", "a", n, r.choice(G.bad_values(n, cur, r))])
                elif x < 0.65:
                    b = r.choice(M.BIASES)
                    xy = r.choice(G.bad_biases(r, w.b.get(b)))
                    ops.append(["bias", "a", b, *xy])
                elif x < 0.72:
                    ops.append(["pk", "a", *r.choice(G.bad_pks())])
                elif x < 0.85:
                    ops.append(r.choice(G.bad_calls()))
                else:
                    ops += [["prov", r.choice([1, 1, 2, 3]), r.choice([0, 1, 2])], r.choice(G.Q), ["prov", 0, 0]]
                    marks += [True, True]
                marks.append(True)
            ops.append(g)
            marks.append(False)
            G.note(w, g)
        for _ in range(5):
            outs = hist_run(H, ops)
            # changes that were accepted after all are not failed calls: leave them out altogether
            acc = [marks[k] and k < len(outs) and outs[k][0] == "ok" and ops[k][0] in ("set", "setm", "bias", "pk") for k in range(len(ops))]
            if not any(acc):
                break
            ops = [o for o, a in zip(ops, acc) if not a]
            marks = [m for m, a in zip(marks, acc) if not a]
        else:
            return
        n = sum(1 for i_, o in enumerate(outs) if marks[i_] and failed(o))
        if n == 0:
            return
        # accepted "bad" changes belong to the history; what failed is taken out
        mk = [m and k < len(outs) and (failed(outs[k]) or ops[k][0] == "prov" or outs[k][0] == "died") for k, m in enumerate(marks)]
        ck.seen(ops, n=len(ops) - n)
        ck.add("failed_calls", n)
        ck.add("random_histories")
        bad = hist_fails(H, ops, mk, outs)
        if bad:
            with ck.lock:
                if len(ck.viol) >= 6:
                    return
            if not hist_fails(H, ops, mk):
                ck.add("unconfirmed")
                return
            pairs = [list(p) for p in zip(ops, mk)]
            if S.elapsed() < 240:
                pairs = S.ddmin(pairs, lambda p: p and p[0][0][0] == "new" and hist_fails(H, [x[0] for x in p], [x[1] for x in p]), budget=16, keep=1)
            ck.violation("history->" + name(ops[bad[0]]), f"in a history with failed calls, {bad[1]}",
                         {"kind": "history", "ops": [p[0] for p in pairs], "marks": [p[1] for p in pairs]})
    S.pmap(one, range(100000), stop=lambda: S.elapsed() - start > budget)


# computations at allowed points; one that ends the whole process can neither fail properly nor leave anything as it was
POINTS = [("z0", 0.0, 10.0, 1.0), ("z0", 0.0, 100.0, 0.0), ("near", 0.01, 1500.0, 1.0), ("r0", 0.9, 0.0, 0.5), ("far", 14.99, 1500.0, 1.0), ("far", 15, 10.0, 0.4),
          ("", 5.0, 1500.0, 0.3), ("", 0.9, 80.0, 1.0), ("", 0.9, 80.0, -1.0), ("", 1.0, 1500.0, -1.0), ("bias-range", 12.0, 30.0, 0.1), ("", 0.3, 1e-3, 0.2)]
PROBES = ([(n, "local", {}, ["q", "a", "corrfunc", {"z": z, "r": r, "mu": mu}]) for n, z, r, mu in POINTS]
          + [(n, "local", {}, ["q", "a", "multipole", {"z": z, "r": r, "l": 2}]) for n, z, r, mu in POINTS]
          + [("", "local", {}, ["q", "a", "multipole", {"z": 1.0, "r": 60.0, "l": n}]) for n in range(11)]
          + [(n, "flat", {}, ["q", "a", "corrfunc", {"z": z, "r": r, "mu": mu}]) for n, z, r, mu in POINTS if n in ("", "far", "bias-range")]
          + [(n or "table", "local", {"has_g4": True}, ["q", "a", "corrfunc", {"z": z, "r": r, "mu": mu}]) for n, z, r, mu in POINTS[6:7]]
          + [("table", "local", {"has_d2": True}, ["q", "a", "multipole", {"z": 1.5, "r": 60.0, "l": 0}]),
             ("", "local", {"has_g4": True, "z_min": [1.5], "z_max": [1.9]}, ["q", "a", "average_multipoles_bulk"]),
             ("", "local", {"has_g1": True, "sep": [60.0, 300.0], "deltaz": [0.02]}, ["q", "a", "multipoles_bulk"])])


def probes(H, ck):
    def one(p):
        n, c, extra, q = p
        m = M.from_cfg(c)
        pre = m.fresh("a", m.pk[0]) + ([["setm", "a", extra]] if extra else [])
        ops = pre + [q, ["all", "a"]]
        outs = H.pool.call({"ops": ops, "timeout": 60, "stats": False})["out"]
        ck.add("extreme_points")
        ck.seen(["probe", c, extra, q])
        if outs[-1][0] == "died":
            ck.violation("exit:" + (n or f"{c}:{name(q)}"), f"{name(q)} at {q[3:]} ends the process: {outs[-1]}", {"kind": "probe", "ops": ops})
    S.pmap(one, PROBES)


def main():
    ck = S.Check("C05", "fault_enumeration", "each evaluation is one answer (all settings, all bias tables or one computed quantity) of an object after failed "
                 "calls compared with its answer without them; only calls which really failed count; distinct by (configuration, warm or cold, failing "
                 "call) or whole history")
    H = hist.Hist("c05")
    try:
        probes(H, ck)
        systematic(H, ck, FULL[:3] if S.TIER == "quick" else FULL)
        ck.cov["systematic_wall_s"] = round(S.elapsed(), 1)
        random_part(H, ck, 20 if S.TIER == "quick" else 1200)
        ck.assumptions = ["the external Boltzmann code is the deterministic stand-in of stub/class_stub.c, made to fail on demand"]
    finally:
        H.close()
    return ck.finish()
