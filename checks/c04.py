"""C04: reading never changes the object: the same history with and without extra reads."""
import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
OBS = [["all", "a"], ["allb", "a"], ["q", "a", "pkz", {"k": 0.02, "z": 0.5}]] + G.Q
FULL = ["local", "flat", "userpk", "userpk_flat", "userpk_halofit", "halofit", "fftlog", "twobins", "doppler", "crossonly", "binned"]


def outcomes(H, ops, cwd=True):
    return H.pool.call({"ops": ops, "timeout": 25, "stats": False})["out"]


def diff(base, got):
    """Positions where the two lists of outcomes differ."""
    if len(base) != len(got):
        n = min(len(base), len(got))
        return [i for i in range(n) if not S.same(base[i], got[i])] or [n - 1 if n else 0]
    return [i for i in range(len(base)) if "timeout" not in (base[i][0], got[i][0]) and not S.same(base[i], got[i])]


def name(op):
    return op[2] if op[0] in ("q", "get", "bv", "bt") else op[0]


def run_pair(H, ops, marks):
    """Outcomes with the marked (read) operations and without them."""
    wo = [o for o, k in zip(ops, marks) if not k]
    a = outcomes(H, wo)
    b_all = outcomes(H, ops)
    b = [x for x, k in zip(b_all, marks) if not k]
    died = len(b_all) < len(ops) or (b_all and b_all[-1][0] == "died")
    return wo, a, b, b_all, died


def fails(H, ops, marks):
    wo, a, b, b_all, died = run_pair(H, ops, marks)
    if a and a[-1][0] in ("died", "timeout"):
        # without the reads it does not get to the end either: nothing to compare beyond that
        b = b[:len(a)]
    elif died and b_all[-1][0] == "died":
        return len(b_all) - 1, f"{name(ops[len(b_all) - 1])} ends the process: {b_all[-1]}"
    if b_all and b_all[-1][0] == "timeout":
        return None
    d = diff(a[:len(b)], b)
    if d:
        return d[0], f"{name(wo[d[0]])} gives {S.short(b[d[0]])} instead of {S.short(a[d[0]])}"
    return None


def report(H, ck, key, ops, marks):
    r = fails(H, ops, marks)
    if not r:
        ck.add("unconfirmed")
        return
    with ck.lock:
        if any(v["key"] == key for v in ck.viol) or len(ck.viol) >= 6:
            return
    pairs = [list(p) for p in zip(ops, marks)]
    small = pairs
    if S.elapsed() < 200 and len(ck.viol) < 2:
        small = S.ddmin(pairs, lambda p: p and p[0][0][0] == "new" and bool(fails(H, [x[0] for x in p], [x[1] for x in p])), budget=16, keep=1)
    r = fails(H, [x[0] for x in small], [x[1] for x in small])
    ck.violation(key, f"with the extra reads {[name(x[0]) for x in small if x[1]][:4]}: {r[1] if r else ''}", {"pairs": small})


def replay(H, case):
    r = fails(H, [x[0] for x in case["pairs"]], [x[1] for x in case["pairs"]])
    if r:
        print("  " + r[1])
    return bool(r)


def systematic(H, ck, configs):
    jobs = []
    for c in configs:
        m = M.from_cfg(c)
        pre = m.fresh("a", m.pk[0])
        rd = G.reads(H.readable)
        obs = OBS
        S.rng("c04", c).shuffle(rd)
        # on an object which has computed everything: each read by itself
        jobs += [(c, pre + obs, obs, [[r] for r in rd[i:i + 24]]) for i in range(0, len(rd), 24)]
        # on one which has computed nothing: reads in groups, then everything
        jobs.append((c, pre, obs, [rd[i:i + 14] for i in range(0, len(rd), 14)]))

    def one(j):
        c, pre, obs, groups = j
        t = H.pool.call({"mode": "tree", "prefix": pre, "suffixes": [obs] + [g + obs for g in groups], "timeout": 60})
        subs = t["info"].get("sub", [])
        if len(subs) != len(groups) + 1:
            raise S.HarnessError(f"configuration {c} does not run: {t['out'][-1:]}")
        want = subs[0]["out"]
        for g, sub in zip(groups, subs[1:]):
            got = sub["out"]
            ck.seen([c, len(pre), g], n=len(obs))
            ck.add("reads_inserted", len(g))
            bad = None
            if got and got[-1][0] == "died" and len(got) <= len(g):
                bad = f"{name(g[len(got) - 1])}:died"
            else:
                d = diff(want[:len(got) - len(g)], got[len(g):])
                if d and got[-1][0] != "timeout":
                    bad = f"{name(obs[d[0]])}"
            if bad:
                ops = pre + g + obs
                report(H, ck, f"reads->{bad}", ops, [False] * len(pre) + [True] * len(g) + [False] * len(obs))
        ck.sample([c, len(pre), groups[0][:3]], 2)
    S.pmap(one, jobs)


def random_part(H, ck, budget):
    start = S.elapsed()

    def one(i):
        r = S.rng("c04r", i)
        base, pre, ops = G.history(r, H.settings, r.randint(4, 9), divergent=0.0)
        rd = G.reads(H.readable) + G.Q * 4
        seq, marks = list(pre), [False] * len(pre)
        for op in ops + r.sample(OBS, 5):
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                seq.append(r.choice(rd))
                marks.append(True)
            seq.append(op)
            marks.append(False)
        ck.seen(seq, n=len(ops) + 5)
        ck.add("random_histories")
        ck.add("reads_inserted", sum(marks))
        if fails(H, seq, marks):
            report(H, ck, "history", seq, marks)
    S.pmap(one, range(100000), stop=lambda: S.elapsed() - start > budget)


def main():
    ck = S.Check("C04", "exploration", "each evaluation is one outcome compared between a history and the same history with read-only calls "
                 "(getters, listings, saves, bias values, repeated and out-of-range computations, also failing ones) inserted; distinct by "
                 "(configuration, prefix, reads) or whole history")
    H = hist.Hist("c04")
    try:
        systematic(H, ck, FULL[:4] if S.TIER == "quick" else FULL)
        random_part(H, ck, 25 if S.TIER == "quick" else 1200)
        ck.assumptions = ["the external Boltzmann code is the deterministic stand-in of stub/class_stub.c"]
    finally:
        H.close()
    return ck.finish()
