"""C03: results reflect the current settings, not the history of the object."""
import json

import hist
import model as M
import simlib as S

Q = M.queries()


def qname(q):
    return q[2]


def expect(H, m, qs, got, ck=None):
    """Compare results with those of a fresh object; returns the list of query positions that differ, narrows m.pk."""
    best, alts = None, []
    for pk in list(m.pk):
        want = H.fresh(m, pk, qs)
        # no answer within the time allowed is no verdict
        bad = [i for i in range(len(got)) if "timeout" not in (got[i][0], want[i][0]) and not S.same(got[i], want[i])]
        if bad:
            # the oracle asks in one fixed order: a difference must hold against a fresh object asked nothing else
            bad = [i for i in bad if not S.same(got[i], H.fresh(m, pk, [qs[i]], isolated=True)[0])]
        if not bad:
            alts.append(pk)
        if best is None or len(bad) < len(best[0]):
            best = (bad, want)
    if alts:
        m.pk = alts
        return [], None
    return best


def run_ops(H, m, ops):
    """Job for a history; returns outcomes."""
    return H.pool.call({"ops": ops, "timeout": 60, "stats": False})["out"]


def judge(H, m0, ops, outs, ck=None):
    """Walk a history; returns the list of (op index, key, text)."""
    m = m0.clone()
    res = []
    i = 0
    n = len(ops)
    while i < n and i < len(outs):
        op, r = ops[i], outs[i]
        if op[0] == "q":
            j = i
            while j < n and ops[j][0] == "q" and j < len(outs):
                j += 1
            qs, got = ops[i:j], outs[i:j]
            bad, want = expect(H, m, qs, got)
            for b in bad:
                res.append((i + b, qname(qs[b]), f"{S.short(got[b])} but a fresh object with the same settings gives {S.short(want[b])}"))
            if ck:
                ck.count(len(qs))
            i = j
            if any(g[0] in ("died", "timeout") for g in got):
                break
            continue
        if op[0] == "all":
            pass
        elif r[0] == "timeout":
            break
        elif r[0] == "died":
            res.append((i, "crash", f"{op[0]} {op[2] if len(op) > 2 else ''} ended the process: {r}"))
            break
        else:
            M.apply(m, op, r[0] == "ok")
        i += 1
    return res


def sys_values(H, m, name):
    """Two changes of a setting from state m: a small one and an ordinary one."""
    cur = m.s.get(name, M.DEFAULTS.get(name))
    r = S.rng("c03", name)
    out = []
    for _ in range(20):
        v = M.gen_value(r, name, m)
        if v is not None and v != cur:
            out.append(v)
            break
    if name in M.BOOLS:
        return [not cur]
    if isinstance(cur, float) and cur != 0 and name not in ("k_min", "k_max"):
        out.append(cur * (1 + 3e-6))
    if isinstance(cur, list) and cur and isinstance(cur[0], float):
        w = list(cur)
        w[-1] = w[-1] * (1 + 2e-5) if name != "fsky" else w[-1] * 0.99
        out.append(w)
        if len(cur) > 1:
            out.append(list(reversed(cur)))
    if name in M.ENUMS:
        return [e for e in M.ENUMS[name] if e != cur]
    return out


CORE = {"sep", "mu", "l", "z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky", "has_density", "has_rsd",
        "has_lensing", "has_d1", "has_only_cross_correlations", "has_flatsky_local", "has_flatsky_nonlocal", "has_flatsky_local_nonlocal", "omega_m",
        "h", "sigma8", "n_s", "w0", "covariance_populations", "covariance_cosmic", "covariance_poisson", "has_binned_covariance",
        "covariance_integration_method", "pk_type", "k_max", "k_min"}


def systematic(H, ck, configs):
    jobs = []
    for c in configs:
        m = M.from_cfg(c)
        pre = m.fresh("a", m.pk[0]) + Q
        changes = []
        for name in H.settings:
            if name in M.DIVERGENT and c != configs[0] and S.TIER == "quick":
                continue
            vals = sys_values(H, m, name)
            if c != configs[0] and S.TIER == "quick":
                # one change of each setting is enough away from the first configuration; unusual ones rotate with the seed
                if c not in configs[:2] and name not in CORE and S.rng("c03rot", c, name).random() < 0.75:
                    continue
                vals = [S.rng("c03v", c, name).choice(vals)] if vals else []
            for v in vals:
                changes.append(["set", "a", name, v])
        r = S.rng("c03b", c)
        for b in M.BIASES:
            if b in m.b:
                x, y = m.b[b]
                changes.append(["bias", "a", b, x, [round(v * 1.1, 6) for v in y]])
                changes.append(["bias", "a", b, *M.gen_bias(r)])
        changes.append(["pk", "a", *M.table(1)])
        if m.pk[0] is not None:
            t = M.table(0)
            changes.append(["pk", "a", t[0], [v * 1.2 for v in t[1]]])
        changes.append(["reset", "a"])
        r.shuffle(changes)
        step = 6
        for i in range(0, len(changes), step):
            jobs.append((c, m, pre, changes[i:i + step]))

    def one(j):
        c, m, pre, chg = j
        suff = [[op] + Q for op in chg]
        t = H.pool.call({"mode": "tree", "prefix": pre, "suffixes": suff, "timeout": 60})
        subs = t["info"].get("sub", [])
        if len(subs) != len(suff):
            dead = t["out"][-1] if t["out"] else None
            raise S.HarnessError(f"configuration {c} does not run: {dead}")
        for op, sub in zip(chg, subs):
            bad = judge(H, m, [op] + Q, sub["out"], ck)
            tag = op[2] if op[0] in ("set", "bias") else op[0]
            ck.seen([c, op])
            ck.add("setting_output_pairs", len(Q))
            for i, out, txt in bad:
                ops = pre + [op, ([op] + Q)[i]]
                report(H, ck, f"{tag}->{out}", f"after changing {tag} in configuration {c}: {txt}", m, ops, len(pre) - len(Q))
    S.pmap(one, jobs, stop=lambda: len(ck.viol) > 4 or (ck.viol and S.elapsed() > 240))


def fails(H, ops, key_out):
    """Does this history, from nothing, end in a wrong answer to its last query?"""
    m = M.Model()
    outs = run_ops(H, m, ops)
    if len(outs) < len(ops):
        return None
    bad = judge(H, m, ops, outs)
    return [b for b in bad if b[1] == key_out]


def report(H, ck, key, what, m, ops, keep=0):
    if key in ck.known:
        ck.violation(key, what, None)
        return
    with ck.lock:
        if any(v["key"] == key for v in ck.viol) or len(ck.viol) >= 6:
            return
    out = key.split("->")[-1]
    if not fails(H, ops, out):
        # the same history must give the same verdict, or it is not reported
        ck.add("unconfirmed")
        return
    small = S.ddmin(ops, lambda o: o and o[0][0] == "new" and bool(fails(H, o, out)), budget=25, keep=1)
    ck.violation(key, what, {"ops": small, "out": out})


def gen_history(H, r, length):
    base = r.choice(["local", "local", "lensing", "flat", "twobins", "fftlog", "userpk", "binned", "doppler", "halofit", "crossonly",
                     "neutrino", "userpk_flat", "gsl1d"])
    m = M.from_cfg(base)
    ops = m.fresh("a", m.pk[0])
    w = m.clone()
    names = [n for n in H.settings]
    hot = ["sep", "mu", "l", "z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky", "has_density", "has_rsd",
           "has_lensing", "has_only_cross_correlations", "has_flatsky_local", "omega_m", "h", "sigma8", "covariance_populations",
           "covariance_cosmic", "has_binned_covariance", "covariance_integration_method"]
    prov = False
    for _ in range(length):
        x = r.random()
        if x < 0.42:
            name = r.choice(hot if r.random() < 0.6 else names)
            v = M.gen_value(r, name, w)
            if v is None or (name in ("has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5") and v and r.random() < 0.8):
                continue
            op = ["set", "a", name, v]
        elif x < 0.47:
            nz = r.choice([1, 2])
            op = ["setm", "a", {n: M.gen_value(r, n, w, nz=nz, nm=nz) for n in
                                ("z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky")}]
        elif x < 0.55:
            op = ["bias", "a", r.choice(M.BIASES), *M.gen_bias(r)]
        elif x < 0.58:
            op = ["pk", "a", *M.table(r.randrange(3))]
        elif x < 0.60:
            op = ["setm", "a", {n: M.gen_value(r, n, w) for n in r.sample(hot, 3)}]
        elif x < 0.63:
            bad = [["set", "a", "sep", [-1.0]], ["set", "a", "omega_m", 2.0], ["set", "a", "l", [11]], ["set", "a", "h", {"$": "str", "v": "x"}],
                   ["set", "a", "mu", [1.5]], ["bias", "a", "galaxy_bias1", [1.0, 0.0], [1.0, 1.0]], ["set", "a", "fsky", [2.0]],
                   ["set", "a", "pk_type", {"$": "str", "v": "nope"}]]
            op = r.choice(bad)
        elif x < 0.65:
            op = ["prov", 1, r.choice([0, 1])]
            prov = True
        else:
            q = r.choice(Q)
            if r.random() < 0.15 and q[2].endswith("_bulk") and not prov:
                q = q + [{"recompute": True}]
            op = q
            if prov:
                ops.append(op)
                op = ["prov", 0, 0]
                prov = False
        ops.append(op)
        if op[0] in ("set", "setm", "bias", "pk", "reset") and op not in ([],):
            try:
                M.apply(w, op, not (op[0] == "set" and isinstance(op[3], dict)))
            except Exception:
                pass
    if prov:
        ops.append(["prov", 0, 0])
    tail = r.sample(Q, 4)
    return base, ops + tail


def strip_prov(ops):
    return ops


def random_part(H, ck, budget, start):
    count = [0]

    def one(i):
        r = S.rng("c03r", i)
        base, ops = gen_history(H, r, r.randint(6, 14))
        outs = run_ops(H, None, ops)
        m = M.Model()
        bad = judge_prov(H, m, ops, outs, ck)
        ck.seen([ops])
        ck.add("random_histories")
        ck.sample(ops[-12:], 2)
        for i_, out, txt in bad[:1]:
            cut = ops[:i_ + 1]
            report(H, ck, f"history->{out}", f"after a history of {len(cut)} operations: {txt}", m, cut)
    S.pmap(one, range(100000), stop=lambda: S.elapsed() - start > budget or len(ck.viol) > 6)


def judge_prov(H, m, ops, outs, ck):
    """Like judge, but a query asked while the provider is made to fail has no expected value."""
    keep_ops, keep_outs = [], []
    armed = False
    for op, r in zip(ops, outs):
        if op[0] == "prov":
            armed = op[1] != 0
            if r[0] in ("died", "timeout"):
                break
            continue
        if armed and op[0] == "q":
            if r[0] in ("died", "timeout"):
                break
            if ck:
                ck.add("provider_failures_armed")
            continue
        keep_ops.append((op))
        keep_outs.append(r)
    pos = [i for i, op in enumerate(ops) if op in keep_ops]
    res = judge(H, m, keep_ops, keep_outs, ck)
    # translate positions back
    idx = []
    armed = False
    for i, op in enumerate(ops):
        if op[0] == "prov":
            armed = op[1] != 0
            continue
        if armed and op[0] == "q":
            continue
        idx.append(i)
    return [(idx[a], b, c) for a, b, c in res]


def fails(H, ops, key_out):  # noqa: F811
    m = M.Model()
    outs = run_ops(H, m, ops)
    bad = judge_prov(H, m, ops, outs, None)
    return [b for b in bad if b[1] == key_out]


def replay(H, case):
    bad = fails(H, case["ops"], case["out"])
    for b in bad:
        print("  op %d (%s): %s" % b)
    return bool(bad)


QUICK = ["local", "flat", "doppler", "userpk", "twobins"]
MORE = ["lensing", "doppler2", "potential", "fftlog", "binned", "halofit", "crossonly", "userpk_flat", "userpk_halofit", "gsl1d", "neutrino", "integrated"]


def main():
    ck = S.Check("C03", "exploration", "each evaluation is one answer of an object with a history compared with the answer of a fresh object in "
                 "the model's state; non-trivial: the history changed a setting after something had been computed; distinct by (configuration, "
                 "change) or by the whole history")
    H = hist.Hist("c03")
    try:
        systematic(H, ck, QUICK + (MORE if S.TIER == "thorough" else []))
        start = S.elapsed()
        ck.cov["systematic_wall_s"] = round(start, 1)
        random_part(H, ck, 25 if S.TIER == "quick" else 1500, start)
        ck.cov["distinct_oracle_states"] = len(H.memo)
        ck.assumptions = ["the external Boltzmann code is the deterministic stand-in of stub/class_stub.c",
                          "parallel loops run on one simulated thread (C01 varies them)"]
    finally:
        H.close()
    return ck.finish()
