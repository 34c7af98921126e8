"""C06: the density parameters stay mutually consistent under any sequence of changes."""
import math

import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
IND = ["h", "m_ncdm", "omega_m", "omega_baryon", "omega_gamma"]
VALS = {
    "h": [0.67, 0.5, 0.9, 0.7, 1.0, 0.3, 0.67 * (1 + 1e-13), 2.0, 0.0, 1e-3, -0.5, 101.0],
    "m_ncdm": [0.0, 0.06, 0.3, 1.2, 0.06 * (1 + 1e-12), -0.1, 5.0, 1e-9, 99.0, 1e3],
    "omega_m": [0.3, 0.2, 0.35, 1.0, 0.95, 0.3 * (1 + 1e-14), 1.2, 0.05, 0.0, -0.1, 0.9999, 200.0],
    "omega_baryon": [0.05, 0.02, 0.1, 0.0, 0.3, 0.05 * (1 - 1e-14), 1.5, -0.01, 0.25],
    "omega_cdm": [0.25, 0.2, 0.3, 0.9, 0.0, 0.25 * (1 + 1e-14), 1.1, -0.05, 0.94],
    "omega_gamma": [9e-5, 5e-3, 0.0, 0.1, 0.7, 9e-5 * (1 + 1e-13), 0.9, -1e-4, 3.0],
}
BAD = [{"$": "nan"}, {"$": "inf"}, {"$": "str", "v": "0.3"}, {"$": "none"}, [0.3], {"$": "num", "v": 0.3}, {"$": "obj"}]
OTHER = ["w0", "wa", "n_s", "sigma8", "T_cmb", "N_ur", "N_ncdm", "YHe", "k_max", "has_lensing", "sep", "z_mean"]
ROUND = 4e-13


def near(a, b, scale=1.0):
    return abs(a - b) <= ROUND * max(1.0, abs(scale), abs(a), abs(b))


def invariants(v):
    """What is inconsistent in one listing of all the settings."""
    out = []
    big = max(abs(v[k]) for k in ("omega_m", "omega_cdm", "omega_baryon", "omega_nu", "omega_gamma", "omega_de"))
    if not all(math.isfinite(v[k]) for k in ("omega_m", "omega_cdm", "omega_baryon", "omega_nu", "omega_gamma", "omega_de", "h", "m_ncdm")):
        return ["not finite"]
    if not near(v["omega_m"], v["omega_cdm"] + v["omega_baryon"] + v["omega_nu"], big):
        out.append(f"omega_m = {v['omega_m']!r} but cdm + baryon + nu = {v['omega_cdm'] + v['omega_baryon'] + v['omega_nu']!r}")
    if not near(1, v["omega_m"] + v["omega_gamma"] + v["omega_de"], big):
        out.append(f"the components sum to {v['omega_m'] + v['omega_gamma'] + v['omega_de']!r}")
    nu = v["m_ncdm"] / 93.14 / v["h"] / v["h"] if v["h"] else float("nan")
    if not abs(v["omega_nu"] - nu) <= 1e-12 * max(abs(nu), 1e-300):
        out.append(f"omega_nu = {v['omega_nu']!r} for a mass of {v['m_ncdm']} eV and h = {v['h']} (should be {nu!r})")
    for k in ("m", "cdm", "baryon", "nu", "gamma", "de"):
        if "big_omega_" + k in v and v["big_omega_" + k] != v["omega_" + k]:
            out.append(f"big_omega_{k} differs from omega_{k}")
    return out


def given(op):
    if op[0] == "set":
        return {op[2]: op[3]}
    if op[0] in ("setm", "new"):
        return dict(op[2]) if len(op) > 2 else {}
    return {}


def judge(ops, outs):
    """(position, key, text) of the first inconsistency."""
    prev = None
    last = []
    bg = None
    for i, (op, r) in enumerate(zip(ops, outs)):
        if r[0] == "timeout":
            return None
        if r[0] == "died":
            return i, "died", f"{op} ends the process: {r}"
        if op[0] == "q":
            bg = (op[3]["z"], r)
            continue
        if op[0] != "all":
            last.append((op, r[0] == "ok"))
            if op[0] in ("new", "load"):
                prev = None
            continue
        if r[0] != "ok":
            return i, "listing", f"the settings cannot be read: {r}"
        v = r[1]
        bad = invariants(v)
        if bad:
            return i, "consistency", f"after {S.short([o for o, _ in last], 200)}: {bad[0]}"
        want = {}
        conflict = False
        for op2, ok in last:
            if ok:
                g = given(op2)
                conflict |= "omega_cdm" in g and ("omega_m" in g or "omega_baryon" in g or "h" in g or "m_ncdm" in g)
                want.update(g)
        for k, x in want.items():
            if isinstance(x, dict) or k not in v or not isinstance(x, (int, float)) or isinstance(x, bool):
                continue
            if conflict and k in ("omega_m", "omega_cdm"):
                continue
            if not near(v[k], x, max(abs(v["omega_m"]), abs(v["omega_de"]))):
                return i, "readback", f"{k} was set to {x!r} and reads {v[k]!r}"
        if prev is not None:
            may = set(want)
            if may & set(IND + ["omega_cdm"]):
                may |= {"omega_cdm", "omega_de", "omega_nu", "big_omega_cdm", "big_omega_de", "big_omega_nu"}
            if "omega_cdm" in want:
                may |= {"omega_m", "big_omega_m"}
            may |= {"big_" + k for k in want}
            if any(o[0] == "reset" for o, _ in last):
                may |= {k for k in v if k.startswith("has_")}
            for k in v:
                if k not in may and not S.same_val(v[k], prev[k], 0.0, 0.0):
                    what = S.short([o for o, _ in last], 160)
                    return i, "independence", f"{k} went from {S.short(prev[k], 60)} to {S.short(v[k], 60)} after {what}"
        # the expansion follows the densities which are reported
        if bg is not None and bg[1][0] == "ok" and not last and v["m_ncdm"] == 0 and v["w0"] == -1.0 and v["wa"] == 0.0:
            z, hub = bg[0], bg[1][1][1]
            e2 = v["omega_m"] * (1 + z) ** 3 + v["omega_gamma"] * (1 + z) ** 4 + v["omega_de"]
            if e2 > 0:
                w = math.sqrt(e2) * v["h"] / 2997.92458
                if not abs(hub - w) <= 1e-5 * w:
                    return i, "expansion", f"the expansion rate at z = {z} is {hub!r}, the densities give {w!r}"
        bg = None
        prev = v
        last = []
    return None


def value(r, k):
    x = r.random()
    if x < 0.25:
        return r.choice(VALS[k])
    if x < 0.32:
        return r.choice(BAD)
    lo, hi = {"h": (0.4, 1.0), "m_ncdm": (0.0, 1.0), "omega_m": (0.1, 0.6), "omega_baryon": (0.01, 0.1), "omega_cdm": (0.05, 0.5), "omega_gamma": (0, 0.01)}[k]
    return round(r.uniform(lo, hi), 5)


def history(r, length, H):
    ks = list(VALS)
    start = {k: value(r, k) for k in r.sample(ks, r.choice([0, 0, 0, 2]))}
    ops = [["new", "a"], ["set", "a", "background_sampling", 400], ["set", "a", "integration_1d_type", "exponential"],
           ["all", "a"]]
    if start:
        ops += [["setm", "a", start], ["all", "a"]]
    nosave = True
    for _ in range(length):
        x = r.random()
        if x < 0.70:
            k = r.choice(ks)
            ops.append(["set", "a", k, value(r, k)])
        elif x < 0.82:
            d = {k: value(r, k) for k in r.sample(ks, r.choice([2, 3, 4]))}
            if r.random() < 0.3:
                d[r.choice(["fsky", "w0", "n_s"])] = r.choice([0.5, {"$": "str", "v": "x"}])
            ops.append(["setm", "a", d])
        elif x < 0.90:
            k = r.choice(OTHER)
            v = M.gen_value(r, k, M.Model())
            ops.append(["set", "a", k, v])
        elif x < 0.91:
            ops.append(["q", "a", "bg", {"z": r.choice([0.0, 0.5, 2.0])}])
        elif x < 0.94 and nosave:
            ops.append(["reset", "a"])
        elif x < 0.97:
            ops += [["save", "a", "c06.cfg"], ["load", "a", "c06.cfg"]]
        else:
            ops.append(["params", "a"])
        ops.append(["all", "a"])
        if ops[-2][0] in ("save", "load"):
            pass
    return ops


def clean(ops, outs):
    return judge(ops, outs)


def run(H, ops):
    return H.pool.call({"ops": ops, "timeout": 60, "stats": False})["out"]


def fails(H, ops, key=None):
    b = judge(ops, run(H, ops))
    return b if b and (key is None or b[1] == key) else None


def replay(H, case):
    b = fails(H, case["ops"])
    if b:
        print("  op %d (%s): %s" % b)
    return bool(b)


def pairs(H):
    """Every ordered pair of density changes, also across h and mass changes."""
    out = []
    ks = list(VALS)
    for a in ks:
        for b in ks:
            for c in ("h", "m_ncdm", "omega_m"):
                r = S.rng("c06p", a, b, c)
                ops = [["new", "a"], ["all", "a"]]
                for k in (a, b, c, a, b):
                    ops += [["set", "a", k, value(r, k)], ["all", "a"]]
                out.append(ops)
    for k in ks:
        for v in VALS[k] + BAD:
            ops = [["new", "a"], ["all", "a"], ["set", "a", "m_ncdm", 0.3], ["all", "a"], ["set", "a", k, v], ["all", "a"], ["set", "a", "h", 0.71], ["all", "a"]]
            out.append(ops)
    return out


def main():
    ck = S.Check("C06", "exploration", "each evaluation is one listing of all settings after one change, checked for consistency, read-back and independence; "
                 "distinct by whole history")
    H = hist.Hist("c06")
    try:
        def one(ops):
            outs = run(H, ops)
            ck.seen(ops, n=sum(1 for o in ops if o[0] == "all"))
            ck.add("changes_accepted", sum(1 for o, r in zip(ops, outs) if o[0] in ("set", "setm") and r[0] == "ok"))
            ck.add("changes_rejected", sum(1 for o, r in zip(ops, outs) if o[0] in ("set", "setm") and r[0] == "exc"))
            b = judge(ops, outs)
            if b:
                with ck.lock:
                    if any(v["key"] == b[1] for v in ck.viol):
                        return
                if not fails(H, ops, b[1]):
                    ck.add("unconfirmed")
                    return
                small = S.ddmin(ops, lambda o: o and o[0][0] == "new" and bool(fails(H, o, b[1])), budget=30, keep=1)
                ck.violation(b[1], (fails(H, small, b[1]) or b)[2], {"ops": small})
        S.pmap(one, pairs(H))
        start = S.elapsed()
        budget = 25 if S.TIER == "quick" else 900

        def rnd(i):
            r = S.rng("c06", i)
            ops = history(r, r.randint(6, 24), H)
            ck.sample([o for o in ops if o[0] != "all"][:6], 3)
            one(ops)
        S.pmap(rnd, range(1000000), stop=lambda: S.elapsed() - start > budget)
        ck.assumptions = ["consistency is judged to double rounding relative to the largest component"]
    finally:
        H.close()
    return ck.finish()
