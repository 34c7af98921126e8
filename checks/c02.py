"""C02: bulk results are the complete ordered grid and do not depend on the batch."""
import itertools
import math

import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
FAST = ["local", "local", "lensing", "flat", "doppler", "twobins", "fftlog", "binned", "crossonly", "gsl1d", "userpk", "userpk_flat", "halofit", "neutrino", "userpk_halofit"]
SLOW = ["doppler2", "potential", "integrated"]
BINS = ["z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky"]
DIMS = {  # coordinates of a result, outermost loop first, and the position of each in a row
    "corrfunc_bulk": [("bin", "z_mean"), "mu", "sep"],
    "multipoles_bulk": [("bin", "z_mean"), "l", "sep"],
    "average_multipoles_bulk": [("bin", "z_min", "z_max"), "l", "sep"],
    "covariance_bulk": [("bin", "z_mean"), "l", "sep", "l", "sep"],
    "average_covariance_bulk": [("bin", "z_min", "z_max"), "l", "sep", "l", "sep"],
}
BULK = list(DIMS)


def expected(q, s):
    """The labels of the complete grid in order (row layout: bin, separations, mu or multipoles)."""
    bins = list(zip(*[s[n] for n in DIMS[q][0][1:]]))
    out = []
    if "covariance" in q:
        for b in bins:
            for l1, r1, l2, r2 in itertools.product(s["l"], s["sep"], s["l"], s["sep"]):
                out.append([*b, r1, r2, l1, l2])
    else:
        inner = s["mu"] if q == "corrfunc_bulk" else s["l"]
        for b in bins:
            for x, r in itertools.product(inner, s["sep"]):
                out.append([*b, r, x])
    return out


def grid_problem(q, s, rows):
    want = expected(q, s)
    if len(rows) != len(want):
        return f"{q} returns {len(rows)} elements for a grid of {len(want)}"
    for i, (w, r) in enumerate(zip(want, rows)):
        if len(r) != len(w) + 1 or not all(S.close(float(a), float(b), 1e-12, 0) for a, b in zip(w, r)):
            return f"element {i} of {q} is labelled {r[:-1]} instead of {w}"
    return None


def lab(x):
    return f"{x:.10g}"


def points(q, s, rows):
    """{(bin parameters, coordinates): value}; the parameters of a bin are part of what identifies it."""
    per = len(rows) // max(1, len(s[DIMS[q][0][1]]))
    out = {}
    for i, r in enumerate(rows):
        b = i // per
        key = [lab(s[n][b]) for n in params(q)]
        out[tuple(key + [lab(x) for x in r[len(DIMS[q][0]) - 1:-1]])] = r[-1]
    return out


def params(q):
    if q in ("corrfunc_bulk", "multipoles_bulk"):
        return ["z_mean"]
    if q == "average_multipoles_bulk":
        return ["z_min", "z_max"]
    return (["z_mean", "deltaz"] if q == "covariance_bulk" else ["z_min", "z_max"]) + ["number_density1", "number_density2", "pixelsize", "fsky"]


def bins(r, n):
    """Survey parameters of n redshift bins, all different."""
    zs = sorted(round(r.uniform(0.4, 1.7), 3) for _ in range(n))
    if r.random() < 0.4:
        r.shuffle(zs)
    out = []
    for z in zs:
        d = round(r.uniform(0.05, 0.25), 3)
        out.append([z, d, round(z - r.uniform(0.04, 0.2), 3), round(z + r.uniform(0.04, 0.2), 3), round(r.uniform(1e-4, 5e-3), 6), round(r.uniform(1e-4, 5e-3), 6),
                    round(r.uniform(15, 60), 2), round(r.uniform(0.05, 1), 3)])
    return out


def case(r, i):
    slow = i % 60 == 7 if S.TIER == "quick" else i % 10 == 7
    base = SLOW[i // 10 % 3] if slow else r.choice(FAST)
    m = M.from_cfg(base)
    for _ in range(0 if slow else r.choice([0, 1, 2, 3])):
        op = G.change(r, m, G.HOT, hot=1.0, divergent=0.0)
        if op is not None and op[0] != "setm" and op[2:3] not in ([n] for n in BINS) and op[0] != "pk":
            G.note(m, op)
    if m.s.get("covariance_integration_method") == "fftlog":
        base = "fftlog"
    if slow:
        m.s.update(integration_sampling=100, background_sampling=100)
    n = 1 if slow else r.choice([1, 2, 2, 3])
    grid = {"bins": bins(r, n),
            "sep": r.sample(range(15, 240), 2 if slow else r.choice([2, 3, 4, 5])),
            "mu": [round(x, 3) for x in r.sample([-0.9, -0.55, -0.2, 0.0, 0.1, 0.35, 0.6, 0.83, 0.97], 2 if slow else r.choice([2, 3]))],
            "l": r.sample([0, 2, 4] if r.random() < 0.7 else [0, 1, 2, 3, 4, 5], 2 if slow else r.choice([1, 2, 3]))}
    grid["sep"] = [round(x + r.random(), 3) for x in grid["sep"]]
    if r.random() < 0.6:
        grid["sep"].sort()
    if r.random() < 0.6:
        grid["l"].sort()
    qs = r.sample(BULK[:3] if slow else BULK, 1 if slow else r.choice([1, 2, 3, 5]))
    return base, m, grid, qs, slow


def build(m, grid):
    """The model's settings with this grid, as operations."""
    w = m.clone()
    w.s.update({n: [b[k] for b in grid["bins"]] for k, n in enumerate(BINS)})
    w.s.update({n: list(grid[n]) for n in ("sep", "mu", "l")})
    w.s.update(dict(grid.get("other", [])))
    return w, w.fresh("a", w.pk[-1] if w.pk[-1] is not None else w.pk[0])


def variation(r, grid, slow, q):
    """Another batch which shares points with this one."""
    g = {k: list(v) for k, v in grid.items()}
    kind = r.choice(["subset", "subset", "one", "permute", "extend", "reverse", "other"])
    if kind == "other":
        # coordinates of other results than the one asked for
        n = r.choice([k for k in (1, 2, 3) if k != len(g["bins"])])
        b = bins(r, n)
        other = ["z_mean"] if q.startswith("average") else ["z_min", "z_max"]
        if q in ("corrfunc_bulk", "multipoles_bulk", "average_multipoles_bulk"):
            other += ["number_density1", "number_density2", "pixelsize", "fsky"]
        g["other"] = [[o, [x[BINS.index(o)] for x in b]] for o in other]
        return kind, g
    for k in g:
        if kind == "subset" and len(g[k]) > 1 and r.random() < 0.7:
            g[k] = r.sample(g[k], r.randint(1, len(g[k]) - 1))
        elif kind == "one":
            g[k] = [r.choice(g[k])]
        elif kind == "permute":
            r.shuffle(g[k])
        elif kind == "reverse":
            g[k].reverse()
        elif kind == "extend" and r.random() < 0.7 and not (slow and k != "sep"):
            new = {"bins": lambda: bins(r, 1)[0], "sep": lambda: round(r.uniform(12, 260), 3), "mu": lambda: round(r.uniform(-0.99, 0.99), 4),
                   "l": lambda: r.choice([x for x in range(7) if x not in g["l"]])}[k]()
            g[k].insert(r.randint(0, len(g[k])), new)
    return kind, g


def ask(H, pre, qs, threads, seed):
    r = H.pool.call({"ops": pre + [["q", "a", q] for q in qs], "timeout": 150, "sim": f"seed={seed}\nomp.max_threads={threads}\nomp.policy=mix\n"})
    return r["out"][len(pre):], (r.get("info") or {}).get("sim")


def tol(base, vals):
    """Relative to the value, and to the largest value of the batch (cancellation in adaptive integrals)."""
    big = max((abs(v) for v in vals if isinstance(v, float) and math.isfinite(v)), default=0.0)
    if base in SLOW:
        return 3e-2, 2e-3 * big
    # the two-dimensional FFT treats its two multipoles in turn, and which comes first follows the batch
    return (3e-4, 2e-6 * big) if base == "fftlog" else (1e-8, 1e-10 * big)


def unlike(base, q, a, b):
    """Where two batches give the same point different values."""
    both = sorted(set(a) & set(b))
    rt, at = tol(base, [a[k] for k in both] + list(a.values()))
    for k in both:
        if not S.close(float(a[k]), float(b[k]), rt, at):
            return f"{q} at {', '.join(k)} is {b[k]!r} instead of {a[k]!r}"
    return None


def judge_pair(H, base, m, g1, g2, q, threads, seed):
    """(kind, text) of what is wrong with this result in two batches, or None; and how many points were compared."""
    w1, p1 = build(m, g1)
    o1, _ = ask(H, p1, [q], 1, 1)
    w2, p2 = build(m, g2)
    o2, _ = ask(H, p2, [q], threads, seed)
    return judge_outs(base, q, w1, o1[:1], w2, o2[:1])


def judge_outs(base, q, w1, o1, w2, o2):
    a, b = (o1 or [None])[0], (o2 or [None])[0]
    if a is None or b is None or a[0] == "timeout" or b[0] == "timeout":
        return None, 0
    for w, o in ((w1, a), (w2, b)):
        if o[0] == "ok":
            t = grid_problem(q, w.s, o[1])
            if t:
                return ("grid", t), 0
    if a[0] != "ok" or b[0] != "ok":
        return None, 0
    pa, pb = points(q, w1.s, a[1]), points(q, w2.s, b[1])
    t = unlike(base, q, pa, pb)
    return (("batch", t) if t else None), len(set(pa) & set(pb))


def singles(r, q, w, rows, k):
    """Single-point questions with the value the batch gave."""
    if q not in ("corrfunc_bulk", "multipoles_bulk") or not rows:
        return []
    out = []
    for row in r.sample(rows, min(k, len(rows))):
        arg = {"z": row[0], "r": row[1], ("mu" if q == "corrfunc_bulk" else "l"): row[2]}
        out.append((["q", "a", "corrfunc" if q == "corrfunc_bulk" else "multipole", arg], row[-1]))
    return out


def main():
    ck = S.Check("C02", "exploration", "each evaluation compares one bulk result under one batch, distributed over seeded simulated threads, with the result under another batch "
                 "sharing points with it (subset, permutation, extension, single point) after checking completeness, order and labels; distinct by configuration, "
                 "both batches and the result asked for")
    H = hist.Hist("c02")
    try:
        budget = 55 if S.TIER == "quick" else 3000

        def report(kind, text, base, m, g1, g2, q, threads, seed):
            key = f"{kind}:{q}"
            with ck.lock:
                if len(ck.viol) >= 6 or any(v["key"] == key for v in ck.viol):
                    return
            bad, _ = judge_pair(H, base, m, g1, g2, q, threads, seed)
            if not bad:
                ck.add("unconfirmed")
                return
            a, b = {k: list(v) for k, v in g1.items()}, {k: list(v) for k, v in g2.items()}
            if S.elapsed() < 240 or S.TIER != "quick":
                for g in (a, b):
                    for k in g:
                        def test(v, g=g, k=k):
                            if not v:
                                return False
                            old, g[k] = g[k], v
                            hit = judge_pair(H, base, m, a, b, q, threads, seed)[0]
                            g[k] = old
                            return bool(hit) and hit[0] == kind
                        g[k] = S.ddmin(g[k], test, budget=10, secs=15)
                threads = 1 if (judge_pair(H, base, m, a, b, q, 1, 1)[0] or [0])[0] == kind else threads
            bad, _ = judge_pair(H, base, m, a, b, q, threads, seed)
            ck.violation(key, (bad or (0, text))[1], {"base": base, "s": m.s, "b": m.b, "pk": m.pk, "g1": a, "g2": b, "q": q, "threads": threads, "seed": seed})

        def one(i):
            r = S.rng("c02", i)
            base, m, grid, qs, slow = case(r, i)
            w1, p1 = build(m, grid)
            o1, _ = ask(H, p1, qs, 1, 1)
            for x in o1:
                ck.add("answers_" + x[0])
            ck.sample({"configuration": base, "grid": grid, "questions": qs}, 3)
            # the single points, on the same object and on a fresh one
            pts = [x for q, o in zip(qs, o1) if o[0] == "ok" for x in singles(r, q, w1, o[1], 2 if slow else 3)]
            if pts:
                for ops in ([["q", "a", q] for q in qs], []):
                    res = H.pool.call({"ops": p1 + ops + [p[0] for p in pts], "timeout": 150, "stats": False})["out"][len(p1) + len(ops):]
                    for (op, v), o in zip(pts, res):
                        ck.seen([S.digest(m.key(None)), op, grid, len(ops)])
                        ck.add("single_points")
                        if o[0] in ("timeout", "died"):
                            continue
                        rt, at = tol(base, [v])
                        if o[0] != "ok" or not S.close(float(o[1]), float(v), rt, at + 1e-10 * scale(o1, qs, op)):
                            ck.violation(f"single:{op[2]}", f"{op[2]} at {op[3]} is {S.short(o[1])}, but {v!r} in the batch",
                                         {"single": op, "pre": p1, "ops": ops, "bulk": op[2] + ("_bulk" if op[2] == "corrfunc" else "s_bulk"), "base": base})
            for _ in range(1 if slow else r.choice([2, 3])):
                if S.elapsed() > budget + 15 or len(ck.viol) >= 6:
                    return
                q0 = r.choice(qs)
                kind, g2 = variation(r, grid, slow, q0)
                threads, seed = r.choice([1, 2, 3, 4, 8]), r.randrange(1 << 30)
                w2, p2 = build(m, g2)
                o2, sim = ask(H, p2, qs, threads, seed)
                if kind == "other" and o1[qs.index(q0)][0] == "ok":
                    ck.add("batches_other_" + o2[qs.index(q0)][0])
                ck.absorb(sim)
                for j, q in enumerate(qs):
                    if kind == "other" and q != q0:
                        continue
                    bad, n = judge_outs(base, q, w1, o1[j:j + 1], w2, o2[j:j + 1])
                    if n or bad:
                        ck.seen([S.digest(m.key(None)), grid, g2, q])
                        ck.add("points_compared", n)
                        ck.add("batches_" + kind)
                    if bad:
                        report(*bad, base, m, grid, g2, q, threads, seed)
        S.pmap(one, range(1000000), stop=lambda: S.elapsed() > budget or len(ck.viol) >= 6)
        ck.assumptions = ["values are compared to 1e-8 of the value or 1e-10 of the largest of the batch; to 3e-4 or 2e-6 for the covariance by two-dimensional FFT; to 3e-2 or 2e-3 where the infrared-divergent terms or integrated potential "
                          "terms are on, whose interpolation tables reach as far as the batch needs",
                          "threads are preempted at synchronisation, allocation and loop-chunk requests only (C01 preempts at every access)"]
    finally:
        H.close()
    return ck.finish()


def scale(outs, qs, op):
    for q, o in zip(qs, outs):
        if q.startswith(op[2]) and o[0] == "ok":
            return max((abs(r[-1]) for r in o[1] if math.isfinite(r[-1])), default=0.0)
    return 0.0


def replay(H, c):
    if "single" in c:
        bulk = H.pool.call({"ops": c["pre"] + [["q", "a", c["bulk"]]], "timeout": 150})["out"][-1]
        op = c["single"]
        v = [r[-1] for r in bulk[1] if r[0] == op[3]["z"] and r[1] == op[3]["r"] and r[2] == op[3].get("mu", op[3].get("l"))]
        o = H.pool.call({"ops": c["pre"] + c["ops"] + [op], "timeout": 150})["out"][-1]
        rt, at = tol(c["base"], [r[-1] for r in bulk[1]])
        print(f"  alone: {S.short(o)}; in the batch: {v}")
        return o[0] != "ok" or not v or not S.close(float(o[1]), float(v[0]), rt, at)
    m = M.Model()
    m.s, m.b, m.pk = c["s"], c["b"], c["pk"]
    bad, _ = judge_pair(H, c["base"], m, c["g1"], c["g2"], c["q"], c["threads"], c["seed"])
    if bad:
        print("  " + bad[1])
    return bool(bad)
