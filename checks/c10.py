"""C10: calls leave the process-wide state as they found it."""
import gen as G
import hist
import model as M
import simlib as S
import c05

NEEDS = "hist"
CFGS = ["local", "lensing", "flat", "twobins", "userpk", "binned", "doppler", "fftlog", "halofit", "crossonly", "gsl1d"]
HOSTS = [{}, {"gsl": "off"}, {"gsl": "own"}, {"fe": 0x400}, {"fe": 0xc00, "gsl": "own"}, {"umask": 0o77, "sigpipe": 1}, {"stdin": 0}, {"stdout": 0}, {"nproc": 3}]
IO = ["eio", "enospc", "eacces", "emfile", "short", "enoent"]


def wrap(op, r, kind):
    """An operation with a fault armed for it alone."""
    if kind == "prov":
        return [["prov", r.choice([1, 1, 2, 3, 5]), r.choice([0, 1, 2])], op, ["prov", 0, 0]]
    if kind == "mem":
        at = int(1.6 ** r.uniform(0, 16)) + r.randrange(3)
        return [["sim", f"mem.on=1\nmem.fail_mask={r.choice([1, 2, 3])}\nmem.fail_sticky={r.choice([0, 0, 1])}\nmem.fail_at={at}\n"], op,
                ["sim", "mem.fail_at=-1\nmem.fail_sticky=0\n"]]
    if kind == "io":
        return [["simroot", f"io.fault={r.randint(1, 12)}:{r.choice(IO)}\n"], op, ["sim", "io.root=\n"]]
    return [op]


def plan(r, H):
    base, pre, ops = G.history(r, H.settings, r.randint(3, 8), base=r.choice(CFGS), pq=0.5, divergent=0.0)
    out = list(pre)
    w = M.from_cfg(base)
    if r.random() < 0.3:
        out.append(["set", "a", "verbose", True])
    for op in ops:
        kind = r.choice(["", "", "", "prov", "prov", "io", "io", "mem"])
        if op[0] == "q" and kind == "io":
            kind = "prov"
        out += wrap(op, r, kind)
        G.note(w, op)
        x = r.random()
        if x < 0.25:
            n = r.choice(G.HOT if r.random() < 0.4 else H.settings)
            out.append(["set", "a", n, r.choice(G.bad_values(n, w.s.get(n, M.DEFAULTS.get(n)), r))])
        elif x < 0.35:
            b = r.choice(M.BIASES)
            out.append(["bias", "a", b, *r.choice(G.bad_biases(r, w.b.get(b)))])
        elif x < 0.42:
            out.append(["pk", "a", *r.choice(G.bad_pks())])
        elif x < 0.6:
            out.append(r.choice(G.bad_calls()))
        elif x < 0.7:
            out += wrap(["save", "a", "s.cfg"], r, r.choice(["", "io", "io"])) + wrap(["load", "b", "s.cfg"], r, r.choice(["", "io", "mem"]))
        elif x < 0.75:
            out += [["fs", "write", "bad.cfg", r.choice(["h = {", "sep = [1.0, \"x\"];\n", "\x00\xff", "h=3;\nomega_m = \"a\";\n"])], ["load", "b", "bad.cfg"]]
        elif x < 0.8:
            out += [["del", "b"], ["new", "b", {"h": 0.7}], ["del", "b"], ["new", "b", {"h": G.S("x")}]]
        elif x < 0.9:
            out.append(r.choice(G.reads(H.readable)))
    out += [["del", "a"]]
    return base, out


def systematic(r, H, base, warm):
    """Every failing call, and every provider failure in every computation, on one configuration."""
    m = M.from_cfg(base)
    pre = m.fresh("a", m.pk[0])
    tries = []
    for op in c05.groups_of(H, r, True, base):
        tries += [c05.seq_of(op)]
    for q in G.Q + G.bad_calls():
        tries.append([q])
    r.shuffle(tries)
    out = [pre + (c05.OBS if warm else []) + [o for t in tries[i:i + 60] for o in t] for i in range(0, len(tries), 60)]
    return out


def expand(ops):
    return [["sim", "io.root=@CWD@\n" + op[1]] if op[0] == "simroot" else op for op in ops]


def judge(H, ops, host, seed):
    """([(position, what, before, after)], outcomes)."""
    res = H.pool.call({"ops": expand(ops), "watch": True, "timeout": 20, "stats": True, "host": host, "sim": f"seed={seed}\nmem.light=1\nmem.on=1\n"})
    return res.get("info", {}).get("watch") or res.get("watch") or [], res["out"], res.get("info", {})


def main():
    ck = S.Check("C10", "fault_enumeration", "each evaluation is one call, with or without a fault inside it, around which the whole process-wide state (numerical-library "
                 "error handler, floating-point environment, working directory, locale, signals, generators, descriptors, threads, limits) was compared; distinct by "
                 "(call, outcome)")
    H = hist.Hist("c10")
    try:
        budget = 55 if S.TIER == "quick" else 1800

        def one(j):
            base, ops, host, seed = j
            bad, outs, info = judge(H, ops, host, seed)
            ck.absorb(info.get("sim"))
            for op, o in zip(ops, outs):
                if op[0] in ("prov", "sim", "simroot", "fs"):
                    continue
                ck.seen([op, o[0], o[1] if o[0] == "exc" else 0])
                ck.add("calls_failed" if o[0] == "exc" else "calls_succeeded" if o[0] == "ok" else "calls_died_or_timed_out")
            ck.add("histories")
            ck.add("host_variants_" + "_".join(host) if host else "host_plain")
            for i, what, x, y in bad[:1]:
                key = f"{c05.name(ops[i])}:{what}"
                with ck.lock:
                    if len(ck.viol) >= 6 or any(v["key"] == key for v in ck.viol):
                        continue
                again = [b for b in judge(H, ops, host, seed)[0] if b[1] == what]
                if not again:
                    ck.add("unconfirmed")
                    continue
                small = S.ddmin(ops[:i + 1], lambda p: any(b[1] == what for b in judge(H, p, host, seed)[0]), budget=30) if S.elapsed() < 300 else ops
                again = [b for b in judge(H, small, host, seed)[0] if b[1] == what] or again
                ck.violation(key, f"{c05.name(small[again[0][0]])} changes {what} from {S.short(again[0][2], 100)} to {S.short(again[0][3], 100)}",
                             {"ops": small, "host": host, "seed": seed, "what": what})

        jobs = []
        for k, base in enumerate(CFGS[:3] if S.TIER == "quick" else CFGS):
            for warm in (True, False):
                r = S.rng("c10s", base, warm)
                hs = systematic(r, H, base, warm)
                if S.TIER == "quick" and not (k == 0 and warm):
                    hs = hs[:2]
                jobs += [(base, h, r.choice(HOSTS), i) for i, h in enumerate(hs)]
        S.pmap(one, jobs)
        ck.cov["systematic_wall_s"] = round(S.elapsed(), 1)
        start = S.elapsed()

        def rnd(i):
            r = S.rng("c10", i)
            base, ops = plan(r, H)
            one((base, ops, r.choice(HOSTS), i))
        S.pmap(rnd, range(1000000), stop=lambda: S.elapsed() > max(budget, start + 15))
        ck.assumptions = ["messages written to the standard streams are not part of their state; descriptors, flags and stream objects are"]
    finally:
        H.close()
    return ck.finish()


def replay(H, case):
    bad = [b for b in judge(H, case["ops"], case["host"], case["seed"])[0] if b[1] == case["what"]]
    for b in bad[:1]:
        print(f"  {c05.name(case['ops'][b[0]])} changes {b[1]} from {b[2]} to {b[3]}")
    return bool(bad)
