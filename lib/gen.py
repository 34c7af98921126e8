"""Generators shared by the checks: reads, invalid values, histories."""
import model as M

Q = M.queries()
HOT = ["sep", "mu", "l", "z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky", "has_density", "has_rsd",
       "has_lensing", "has_only_cross_correlations", "has_flatsky_local", "omega_m", "h", "sigma8", "covariance_populations",
       "covariance_cosmic", "has_binned_covariance", "covariance_integration_method"]


def reads(readable, save="out.cfg"):
    """Every kind of read-only operation (they may fail, and must change nothing either way)."""
    r = [["get", "a", n] for n in readable]
    r += [["params", "a"], ["all", "a"], ["allb", "a"], ["save", "a", save], ["save", "a", "no/such/directory/out.cfg"]]
    for b in M.BIASES:
        r += [["bv", "a", b, 0.75], ["bv", "a", b, 12.5], ["bv", "a", b, -1.0], ["bv", "a", b, {"$": "str", "v": "x"}], ["bt", "a", b]]
    for z in (0.0, 1.3, 14.9, 15.5, -0.5, {"$": "nan"}, {"$": "str", "v": "z"}):
        r.append(["q", "a", "bg", {"z": z}])
    for a in ({"r": 10.0, "n": 0, "l": 0}, {"r": 150.0, "n": 1, "l": 1}, {"r": 1e6, "n": 0, "l": 0}, {"r": 0.0, "n": 2, "l": 2},
              {"r": 50.0, "n": 7, "l": 9}, {"r": {"$": "none"}, "n": 0, "l": 0}):
        r.append(["q", "a", "integral", a])
    for a in ({"k": 0.1, "z": 0.0}, {"k": 1e-9, "z": 0.3}, {"k": 1e9, "z": 0.3}, {"k": 0.2, "z": -2.0}):
        r.append(["q", "a", "pkz", a])
    for a in ({"k": 0.1, "z1": 0.0, "z2": 2.0}, {"k": 0.02, "z1": 1.0, "z2": 1.0, "approximation": "arithmetic"},
              {"k": 0.02, "z1": 1.0, "z2": 1.5, "approximation": "nonsense"}, {"k": -1.0, "z1": 1.0, "z2": 1.5}):
        r.append(["q", "a", "cross", a])
    for a in ({"z": 0.8, "r": 40.0, "mu": -0.2}, {"z": 1.7, "r": 90.0, "mu": 1.0}, {"z": 1.0, "r": 30.0, "mu": 3.0}, {"z": -1.0, "r": 30.0, "mu": 0.0},
              {"z": 1.0, "r": {"$": "str", "v": "x"}, "mu": 0.0}, {"z": 0.9, "r": 60.0, "mu": 0.0}):
        r.append(["q", "a", "corrfunc", a])
    for a in ({"z": 0.8, "r": 40.0, "l": 0}, {"z": 1.7, "r": 90.0, "l": 4}, {"z": 1.0, "r": 30.0, "l": 11}, {"z": 40.0, "r": 30.0, "l": 0}):
        r.append(["q", "a", "multipole", a])
    for a in ({"z_mean": 1.0, "deltaz": 0.1}, {"z_mean": 14.95, "deltaz": 0.3}, {"z_mean": 0.3, "deltaz": 0.5}):
        r.append(["q", "a", "maxsep", a])
    return r


def S(v):
    return {"$": "str", "v": v}


NAN, INF, NONE = {"$": "nan"}, {"$": "inf"}, {"$": "none"}


def partway(vals, after, exc):
    return {"$": "partway", "v": vals, "after": after, "exc": exc}


def badgen(vals, after):
    return {"$": "badgen", "v": vals, "after": after}


def num(v):
    return {"$": "num", "v": v}


def bad_values(name, cur, r):
    """Values a setting should refuse, of every kind (the program decides; what it accepts is not a failed call)."""
    out = [S("nonsense"), NONE, {"$": "obj"}]
    if name in M.LISTS:
        v = list(cur) if cur else [1.0]
        out += [v + [S("x")], v + [NONE], v + [-17.5], [-17.5] + v, v + [1e9], [[x] for x in v] + [[[1]]], 3.25, num(1.0)]
        out += [partway(v + v[-1:], len(v), "ValueError"), partway(v + v[-1:], len(v), "RuntimeError"), badgen(v + v[-1:], len(v)), {"$": "baditer"}]
        out += [v + [num(v[-1])], [num(v[0])] + v[1:], v + [NAN], v + [{"$": "inf", "s": -1}], [v[0] if v else 1.0, NAN]]
        if name == "l":
            out += [v + [2.5], v + [-2], v + [1 << 40]]
        if name == "covariance_populations":
            out += [[1, 2], [1, 2, 3, 4, 1], [1, 1, 1, 9], [0, 1, 1, 1], [1, 2, 3, num(4)], [1, 2, 3, 1 << 40]]
    elif name in M.BOOLS:
        out += [{"$": "boolbomb"}, num(1), 7, -3, [], 0.5]
    elif name in M.ENUMS:
        out += [-1, 99, 1.5, S("LINEAR-ish"), num(1), []]
    else:
        out += [0, -1.0e3, 1e12, NAN, INF, {"$": "inf", "s": -1}, num(cur if isinstance(cur, (int, float)) else 1), [1.0], 1 << 70, {"$": "boolbomb"}]
    return out


def bad_biases(r, cur):
    x, y = cur if cur else ([0.0, 1.0, 2.0, 3.0, 4.0, 10.0], [1.0, 1.2, 1.4, 1.6, 1.8, 2.0])
    n = len(x)
    sw = list(x)
    sw[1], sw[2] = sw[2], sw[1]
    dup = list(x)
    dup[2] = dup[1]
    return [[x, y[:-1]], [x[:-1], y], [sw, y], [dup, y], [x[:1], y[:1]], [[], []], [x, S("abc")], [NONE, y], [x, NONE], [x, y[:-1] + [S("b")]],
            [x, partway(y, n - 1, "ValueError")], [partway(x, n // 2, "RuntimeError"), y], [x, badgen(y, 2)], [x, y[:-1] + [num(1.0)]],
            [[-5.0] + x[1:], y], [x, y[:-1] + [NAN]], [x[:-1] + [NAN], y], [x[:-1] + [{"$": "inf"}], y], [[[v] for v in x], [[v, v] for v in y]], [x[0], y[0]]]


def bad_pks():
    k, p = M.table(0)
    n = len(k)
    sw = list(k)
    sw[4], sw[5] = sw[5], sw[4]
    dup = list(k)
    dup[7] = dup[6]
    neg = list(p)
    neg[3] = -1.0
    return [[k, p[:-1]], [k[:-2], p], [sw, p], [dup, p], [k[:2], p[:2]], [[], []], [S("abc"), p], [k, NONE], [k, p[:-1] + [S("b")]],
            [partway(k, n - 1, "ValueError"), p], [k, partway(p, n // 2, "RuntimeError")], [k, badgen(p, 5)], [k, p[:-1] + [num(1.0)]],
            [[-1.0] + k[1:], p], [k, neg], [k, p[:-1] + [NAN]], [k[:-1] + [NAN], p], [k[:40], p[:40]], [k[40:], p[40:]], [k[0], p[0]],
            [list(reversed(k)), p]]


def bad_calls():
    """Computations with arguments that must be refused."""
    return [["q", "a", "bg", {"z": -3.0}], ["q", "a", "bg", {"z": 99.0}], ["q", "a", "pkz", {"k": 1e9, "z": 0.0}],
            ["q", "a", "integral", {"r": 1e8, "n": 0, "l": 0}], ["q", "a", "integral", {"r": 50.0, "n": 5, "l": 5}],
            ["q", "a", "corrfunc", {"z": 1.0, "r": 50.0, "mu": 4.0}], ["q", "a", "corrfunc", {"z": 30.0, "r": 50.0, "mu": 0.1}],
            ["q", "a", "corrfunc", {"z": 1.0, "r": -4.0, "mu": 0.1}], ["q", "a", "multipole", {"z": 1.0, "r": 50.0, "l": 12}],
            ["q", "a", "multipole", {"z": NAN, "r": 50.0, "l": 0}], ["q", "a", "corrfunc", {"z": 1.0, "r": NAN, "mu": 0.1}],
            ["q", "a", "maxsep", {"z_mean": 20.0, "deltaz": 0.1}], ["q", "a", "maxsep", {"z_mean": 0.1, "deltaz": 0.4}],
            ["bv", "a", "galaxy_bias1", 44.0], ["bv", "a", "evolution_bias2", S("q")], ["save", "a", "no/such/directory/f.cfg"],
            ["get", "a", "no_such_setting"], ["set", "a", "no_such_setting", 1.0], ["q", "a", "cross", {"k": 0.1, "z1": -4.0, "z2": 1.0}]]


def change(r, w, names, hot=0.6, obj="a", divergent=0.2):
    """One valid change of the object's state, or None."""
    x = r.random()
    if x < 0.70:
        name = r.choice(HOT if r.random() < hot else names)
        v = M.gen_value(r, name, w)
        if v is None or (name in M.DIVERGENT and v and r.random() >= divergent):
            return None
        return ["set", obj, name, v]
    if x < 0.78:
        nz = r.choice([1, 2])
        return ["setm", obj, {n: M.gen_value(r, n, w, nz=nz, nm=nz) for n in
                              ("z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky")}]
    if x < 0.90:
        return ["bias", obj, r.choice(M.BIASES), *M.gen_bias(r)]
    if x < 0.95:
        return ["pk", obj, *M.table(r.randrange(3))]
    if x < 0.97:
        return ["reset", obj]
    return ["setm", obj, {n: M.gen_value(r, n, w) for n in r.sample(HOT, 3)}]


def note(w, op):
    """Track a (presumably successful) change in the generator's model."""
    try:
        M.apply(w, op, True)
    except Exception:
        pass


LIGHT = ["local", "local", "lensing", "flat", "twobins", "userpk", "binned", "doppler", "halofit", "crossonly", "neutrino", "userpk_flat", "userpk_halofit", "gsl1d",
         "fftlog", "default"]


def history(r, names, length, base=None, obj="a", pq=0.4, divergent=0.2):
    """A random valid history: (operations that build the object, operations that follow)."""
    base = base or r.choice(LIGHT[:-1])
    m = M.from_cfg(base)
    pre = m.fresh(obj, m.pk[0])
    w = m.clone()
    ops = []
    while len(ops) < length:
        if r.random() < pq:
            q = r.choice(Q)
            ops.append([q[0], obj] + q[2:])
            continue
        op = change(r, w, names, obj=obj, divergent=divergent)
        if op is None:
            continue
        ops.append(op)
        note(w, op)
    return base, pre, ops
