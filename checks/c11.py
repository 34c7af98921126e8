"""C11: memory is released exactly once and never used afterwards."""
import re

import gen as G
import hist
import model as M
import simlib as S
import c05
import c09

NEEDS = "hist"
CFGS = ["local", "local", "lensing", "flat", "twobins", "userpk", "userpk_flat", "userpk_halofit", "binned", "doppler", "fftlog", "halofit", "crossonly", "neutrino", "gsl1d"]
IO = ["eio", "enospc", "eacces", "emfile", "short", "enoent"]


def nested(r, op):
    """The same change, through an iterator which uses the object while it is being read."""
    inner = r.choice([["set", op[1], op[2], op[3][:1] or op[3]], ["get", op[1], op[2]], ["del", op[1]], ["q", op[1], "multipoles_bulk"], ["set", op[1], "sep", [33.0, 44.0, 55.0]],
                      ["all", op[1]], ["set", op[1], "h", 0.71]])
    return ["set", op[1], op[2], {"$": "reenter", "v": op[3], "at": r.randrange(len(op[3])), "ops": [inner]}]


def plan(r, H):
    n = r.choice([1, 1, 1, 2])
    seqs = []
    for c in range(n):
        o = f"o{c}"
        base, pre, ops = G.history(r, H.settings, r.randint(4, 10), base=r.choice(CFGS), obj=o, pq=0.45, divergent=0.0)
        w = M.from_cfg(base)
        out = list(pre)

        def mine(op):
            return c09.rename(op, o)
        for op in ops:
            x = r.random()
            if op[0] == "set" and isinstance(op[3], list) and op[3] and x < 0.25:
                op = nested(r, op)
            if x > 0.75 and op[0] == "q":
                out += [["prov", r.choice([1, 1, 2, 3, 5]), r.choice([0, 1, 2])], op, ["prov", 0, 0]]
            else:
                out.append(op)
            x = r.random()
            if x < 0.2:
                name = r.choice(G.HOT if r.random() < 0.5 else H.settings)
                out.append(["set", o, name, r.choice(G.bad_values(name, w.s.get(name, M.DEFAULTS.get(name)), r))])
            elif x < 0.28:
                b = r.choice(M.BIASES)
                out.append(["bias", o, b, *r.choice(G.bad_biases(r, w.b.get(b)))])
            elif x < 0.34:
                out.append(["pk", o, *r.choice(G.bad_pks())])
            elif x < 0.4:
                out.append(mine(r.choice(G.bad_calls())))
            elif x < 0.5:
                out += [["simroot", f"io.fault={r.randint(1, 30)}:{r.choice(IO)}\n"] if r.random() < 0.5 else ["prov", 0, 0], ["save", o, o + ".cfg"],
                        ["load", o if r.random() < 0.5 else o + "x", o + ".cfg"], ["sim", "io.root=\n"]]
            elif x < 0.58:
                out += [["del", o], ["new", o, {"h": 0.7, "sep": [50.0, 60.0], **({"fsky": [9.0]} if r.random() < 0.4 else {})}]]
            elif x < 0.64:
                out += [["q", o, q, {"recompute": True}] for q in r.sample(["corrfunc_bulk", "multipoles_bulk", "average_multipoles_bulk", "covariance_bulk"], 2)]
            elif x < 0.7:
                out.append(mine(r.choice(G.reads(H.readable))))
            G.note(w, op)
        seqs.append(out)
    if n == 1:
        return seqs[0]
    return [o for _, o in c09.flatten(c09.merge(r, seqs, False))]


def expand(ops):
    return [["sim", "io.root=@CWD@\n" + op[1]] if op[0] == "simroot" else op for op in ops]


def where(text, paths):
    """A stable name for the place an address belongs to: the function, not the offset."""
    import subprocess
    m = re.search(r"(coffe\S*\.so|coffe-cli)\+(0x[0-9a-f]+)", text)
    if not m:
        return "library"
    lib = paths["cli"] if m.group(1) == "coffe-cli" else find_so(paths)
    out = subprocess.run(["addr2line", "-f", "-e", lib, hex(int(m.group(2), 16) - 1)], capture_output=True, text=True).stdout.split("\n")
    return out[0] if out and out[0] != "??" else "?"


def find_so(paths):
    import glob
    return glob.glob(paths["hist"] + "/coffe/coffe*.so")[0]


def judge(H, ops, seed, fill=1, compare=True, ck=None):
    """[(kind, where, text)] of everything wrong with the memory use of this history."""
    res = H.pool.call({"ops": expand(ops), "leak": True, "timeout": 25, "sim": f"seed={seed}\nmem.on=1\nmem.fill={fill}\n"})
    info = res.get("info", {})
    bad = []
    sim = info.get("sim") or {}
    if ck:
        ck.absorb(sim)
    for v in sim.get("violations", []):
        bad.append((v["kind"], where(v["msg"], H.paths), v["msg"]))
    if info.get("leaks"):
        lines = [x for x in info["leaktext"].split("\n") if x]
        own = [x for x in lines if "coffe" in x] or lines
        bad.append(("leak", where(own[0], H.paths), f"{info['leaks']} blocks never released, such as {own[0][:200]}"))
    last = res["out"][-1]
    if compare or last[0] == "died":
        plain = H.pool.call({"ops": expand(ops), "timeout": 25, "stats": False, "sim": f"seed={seed}\n"})["out"]
        for i, (a, b) in enumerate(zip(res["out"], plain)):
            if "timeout" in (a[0], b[0]):
                break
            if not S.same(a[:2], b[:2]):
                bad.append(("content", c05.name(ops[i]), f"{c05.name(ops[i])}: {S.short(a, 100)} when released and fresh memory hold marked values, {S.short(b, 100)} otherwise"))
                break
        if last[0] == "died" and last[1] in (-11, -7, -4, 139):
            bad.append(("death", c05.name(ops[len(res["out"]) - 1]), f"{S.short(ops[len(res['out']) - 1], 100)} ends the process by signal {last[1]}"))
    return bad, res["out"]


def systematic(H):
    """Every setting changed twice (longer and shorter) with computations in between; every kind of failing call."""
    out = []
    r = S.rng("c11s")
    for c in ("local", "userpk_flat", "twobins", "fftlog") if S.TIER == "quick" else ["local", "userpk_flat", "twobins", "fftlog", "binned", "halofit", "crossonly", "userpk_halofit"]:
        m = M.from_cfg(c)
        pre = m.fresh("a", m.pk[0])
        tries = [c05.seq_of(t) for t in c05.groups_of(H, r, True, c)]
        # what is accepted after all is not a failing call (and may make what follows impossible)
        pr = [t for t in tries if t[-1][0] != "q"]
        outs = H.pool.call({"ops": pre + [o for t in pr for o in t], "timeout": 30, "stats": False})["out"][len(pre):]
        it = iter(outs)
        acc = [id(t) for t in pr if [next(it, ["died"]) for _ in t][-1][0] != "exc"]
        tries = [t for t in tries if id(t) not in acc]
        r.shuffle(tries)
        if S.TIER == "quick":
            tries = tries[:240]
        for i in range(0, len(tries), 80):
            out.append(pre + M.queries() + [o for t in tries[i:i + 80] for o in t] + M.queries()[5:])
        w = m.clone()
        seq = []
        for n in H.settings:
            if n == "integration_1d_type" and c != "twobins":
                continue        # GSL's adaptive integrator everywhere: once is enough
            for _ in range(2):
                v = M.gen_value(r, n, w)
                if v is not None and n not in M.DIVERGENT:
                    seq.append(["set", "a", n, v])
            seq.append(r.choice(G.Q))
        for i in range(0, len(seq), 40):
            out.append(pre + seq[i:i + 40] + [r.choice(M.queries())])
        for b in M.BIASES:
            seq = [["bias", "a", b, *M.gen_bias(r)] for _ in range(3)]
            out.append(pre + seq[:1] + [M.queries()[7]] + seq[1:] + [["del", "a"], ["new", "a"]] + [["bias", "a", b, *M.gen_bias(r)]])
        out.append(pre + [x for q in M.queries()[7:] for x in (q, [*q, {"recompute": True}], [*q, {"recompute": True}])])
        for kind in (0, 1, 2):
            for at in (1, 2, 3, 4):
                out.append(pre + [["prov", at, kind], M.queries()[2], ["prov", 0, 0], ["prov", at, kind], M.queries()[3], M.queries()[8], ["prov", 0, 0]] + M.queries()[2:4])
    return out


def main():
    ck = S.Check("C11", "exploration", "each evaluation is one history of creating, configuring, computing, failing, loading and discarding objects in which every block of "
                 "memory of the library and of the numerical libraries below it was tracked (guard bytes, poisoned quarantine, single release, nothing left at the "
                 "end) and whose results were compared with those under plain memory; distinct by history")
    H = hist.Hist("c11")
    try:
        budget = 50 if S.TIER == "quick" else 2400

        def one(j):
            ops, seed, fill = j
            bad, outs = judge(H, ops, seed, fill, ck=ck)
            ck.seen(ops)
            ck.add("operations", len(outs))
            ck.add("operations_failed", sum(1 for o in outs if o[0] == "exc"))
            if outs[-1][0] in ("died", "timeout"):
                ck.add("ended_early_" + outs[-1][0])
            ck.sample(ops[-3:], 2)
            for kind, place, text in bad:
                key = f"{kind}:{place}"
                with ck.lock:
                    if len(ck.viol) >= 6 or any(v["key"] == key for v in ck.viol):
                        continue

                def again(o):
                    return any((k, p) == (kind, place) for k, p, _ in judge(H, o, seed, fill, kind == "content")[0])
                if not again(ops):
                    ck.add("unconfirmed")
                    continue
                small = S.ddmin(ops, again, budget=40, secs=60) if S.elapsed() < 300 else ops
                ck.violation(key, text, {"ops": small, "seed": seed, "fill": fill, "kind": kind, "place": place})
        jobs = [(ops, i, 1 + i % 3) for i, ops in enumerate(systematic(H))]
        S.pmap(one, jobs)
        ck.cov["systematic_wall_s"] = round(S.elapsed(), 1)
        start = S.elapsed()

        def rnd(i):
            r = S.rng("c11", i)
            one((plan(r, H), i, r.choice([1, 1, 2, 3])))
        S.pmap(rnd, range(1000000), stop=lambda: S.elapsed() > max(budget, start + 15))
        ck.assumptions = ["blocks requested by Python itself and by NumPy are not tracked; the FFT library's planner cache is dropped before counting what is left",
                          "writes are detected within 32 bytes of a block and anywhere inside released blocks still in quarantine (128 MB)"]
    finally:
        H.close()
    return ck.finish()


def replay(H, case):
    bad = judge(H, case["ops"], case["seed"], case["fill"], case["kind"] == "content")[0]
    hit = [b for b in bad if (b[0], b[1]) == (case["kind"], case["place"])]
    for b in hit[:1]:
        print("  " + b[2])
    return bool(hit)
