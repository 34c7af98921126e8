"""C08: loading a configuration is deterministic."""
import os

import shutil
import threading


import hist
import model as M
import simlib as S

NEEDS = "hist"
HASHES = ["0", "1", "2", "3", "17", "101", "4242", "random"]
LEGACY = {"only_cross_correlations": ["0", "1"], "covariance_z_mean": ["[0.8]", "[0.9, 1.1]", "[]"], "covariance_deltaz": ["[0.2]", "[0.1, 0.2]"],
          "covariance_fsky": ["[0.3]", "[0.2, 2.5]"], "covariance_pixelsize": ["[20.0]"], "covariance_step_size": ["10"], "covariance_zmin": ["[0.5, 0.9]"],
          "covariance_zmax": ["[0.9, 1.3]"], "covariance_window": ["1", "0"], "covariance_density": ["[1e-3]", "[1e-3, 2e-3]"], "multipoles": ["[0, 2, 4]", "[2]", "[44]"],
          "flatsky_local": ["1", "0"], "flatsky_local_nonlocal": ["1"], "flatsky_nonlocal": ["1", "0"], "covariance_integration_bins": ["500"],
          "covariance_minimum_separation": ["5.5"], "correlation_contributions": ['["den", "rsd"]', '["len"]', '["den", "g4", "d1"]']}
DENS = {"omega_m": ["0.3", "1.0", "0.95", "0.2", "1.2", "0.0"], "omega_baryon": ["0.05", "0.2", "0.45", "0.0", "1.4"], "omega_gamma": ["9e-5", "0", "0.02", "0.6", "0.9"],
        "h": ["0.7", "0.5", "1.0", "0"], "m_ncdm": ["0.06", "0.5", "0", "-0.2"], "omega_cdm": ["0.2", "0.9"], "w0": ["-0.9"], "wa": ["0.1"], "A_s": ["2.2e-9"], "sigma8": ["0.7"]}
BAD = ['"text"', "[1, x]", "1e400", "nan", "-1", "[[1]]", "", "[-5.0]", "True", "99"]


def lit(v):
    if isinstance(v, bool):
        return str(int(v))
    return str(v)


def gen_lines(r, H, names):
    """A list of `key = value` lines with distinct keys."""
    m = M.from_cfg(r.choice(["local", "twobins", "flat"]))
    d = {}
    if r.random() < 0.7:
        for k in r.sample(list(DENS), r.choice([1, 2, 3, 5])):
            d[k] = r.choice(DENS[k])
    for k in r.sample(names, r.choice([0, 2, 6, 15])):
        v = M.gen_value(r, k, m)
        if v is not None and k not in d:
            d[k] = lit(v)
    if r.random() < 0.6:
        for k in r.sample(list(LEGACY), r.choice([1, 3, 6])):
            d[k] = r.choice(LEGACY[k])
            # ... in conflict with its replacement
            new = {"multipoles": ("l", "[1]"), "only_cross_correlations": ("has_only_cross_correlations", r.choice("01")), "covariance_z_mean": ("z_mean", "[1.3]"),
                   "covariance_density": (r.choice(["number_density1", "number_density2"]), "[7e-4]"), "flatsky_local": ("has_flatsky_local", r.choice("01")),
                   "correlation_contributions": (r.choice(["has_density", "has_g4"]), r.choice("01")), "covariance_window": ("has_binned_covariance", "0"),
                   "covariance_fsky": ("fsky", "[0.9]")}.get(k)
            if new and r.random() < 0.6:
                d[new[0]] = new[1]
    if r.random() < 0.4:
        for b in r.sample(M.BIASES, r.choice([1, 2, 4])):
            x, y = M.gen_bias(r)
            kind = r.random()
            if kind < 0.5:
                d[b + "_redshifts"], d[b + "_values"] = str(x), str(y if r.random() < 0.85 else y[:-1])
            elif kind < 0.75:
                d["input_" + b] = '"bias.dat"'
                d[b] = str(y[0])
            else:
                d["read_" + b], d["input_" + b] = "1", r.choice(['"bias.dat"', '"missing.dat"'])
            if kind > 0.4 and r.random() < 0.4:
                d[b + "_redshifts"], d[b + "_values"] = str(x), str(y)
    if r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(list(d) + names + list(DENS))
            d[k] = r.choice(BAD)
    if r.random() < 0.2:
        d["unknown_option"] = "7"
    end = r.choice(["", ";"])
    return [f"{k} = {v}{end}" for k, v in d.items()]


def outcome(outs):
    """What a load gave: the whole object or how it failed."""
    load, al, ab = outs
    if load[0] == "ok":
        return ["ok", [al[1], ab[1]]]
    msg = load[2] if len(load) > 2 else ""
    if load[0] == "exc" and ("ParsingError" in load[1] or "Duplicate" in load[1] or "Source" in msg or "<string>" in msg):
        msg = ""
    return [load[0], load[1], msg]


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return S.same_val(a[1], b[1], 0.0, 0.0)
    return a[1:] == b[1:]


class Farm:
    """One simulated process per hash seed."""

    def __init__(self, H):
        self.H = H
        self.cwd = S.scratch("c08")
        with open(os.path.join(self.cwd, "bias.dat"), "w") as f:
            for i in range(12):
                f.write(f"{i} {1 + 0.1 * i}\n")
        self.w = {}
        for h in HASHES:
            d = os.path.join(self.cwd, "h" + h)
            os.makedirs(d)
            shutil.copy(os.path.join(self.cwd, "bias.dat"), d)
            self.w[h] = [S.Worker(H.paths, "hist", d, {"PYTHONHASHSEED": h}), threading.Lock(), d]

    def load(self, h, texts):
        ops = []
        for i, t in enumerate(texts):
            ops += [["fs", "write", "c.cfg", t], ["load", "a", "c.cfg"], ["all", "a"], ["allb", "a"], ["del", "a"]]
        w, lk, d = self.w[h]
        with lk:
            out = w.call({"ops": ops, "timeout": 60, "stats": False, "cwd": d})["out"]
        res = []
        for i in range(len(texts)):
            part = out[5 * i:5 * i + 5]
            if len(part) < 4:
                res.append(["died", str(out[-1]), ""])
                break
            res.append(outcome(part[1:4]))
        return res

    def close(self):
        for w, _, _ in self.w.values():
            w.close()
        shutil.rmtree(self.cwd, ignore_errors=True)


def variants(r, lines, n):
    out = ["\n".join(lines) + "\n"]
    out.append("\n".join(reversed(lines)) + "\n")
    for _ in range(n - 2):
        p = list(lines)
        r.shuffle(p)
        out.append("\n".join(p) + "\n")
    return out


def check_lines(F, r, lines, hashes, nperm):
    """(key, text) if any order of lines or any hash seed gives something else."""
    texts = variants(r, lines, nperm)
    ref = None
    for h in hashes:
        res = F.load(h, texts)
        for t, o in zip(texts, res):
            if ref is None:
                ref = (h, t, o)
                continue
            if not equal(ref[2], o):
                what = "line order" if h == ref[0] else "hash seed" if t == ref[1] else "line order or hash seed"
                if ref[2][0] == "ok" and o[0] == "ok":
                    a = {**ref[2][1][0], **ref[2][1][1]}
                    b = {**o[1][0], **o[1][1]}
                    k = [x for x in a if not S.same_val(a[x], b.get(x), 0.0, 0.0)][0]
                    return k, f"{k} is {S.short(a[k], 60)} or {S.short(b.get(k), 60)}, depending on the {what}", (h, t, ref)
                return "failure", f"{S.short(ref[2][:1] + ref[2][1:] if ref[2][0] != 'ok' else 'an object', 120)} or " \
                                  f"{S.short(o if o[0] != 'ok' else 'an object', 120)}, depending on the {what}", (h, t, ref)
    return None


def replay(H, case):
    F = Farm(H)
    try:
        b = check_lines(F, S.random.Random(case["r"]), case["lines"], case["hashes"], case["n"])
        if b:
            print("  %s: %s" % b[:2])
        return bool(b)
    finally:
        F.close()


def main():
    ck = S.Check("C08", "exploration", "each evaluation is one load of one ordering of the lines of a configuration under one hash seed, compared with the first "
                 "one; distinct by set of lines")
    H = hist.Hist("c08", 2)
    F = Farm(H)
    try:
        budget = 25 if S.TIER == "quick" else 600
        start = S.elapsed()
        nperm = 5

        def one(i):
            r = S.rng("c08", i)
            lines = gen_lines(r, H, H.settings)
            if not lines:
                return
            hs = r.sample(HASHES[:-1], 3)
            pr = r.randrange(1 << 40)
            b = check_lines(F, S.random.Random(pr), lines, hs, nperm)
            ck.seen(sorted(lines), n=len(hs) * nperm)
            ck.sample(lines[:8], 3)
            if b:
                with ck.lock:
                    if any(v["key"] == b[0] for v in ck.viol) or len(ck.viol) > 6:
                        return

                def test(ls):
                    # few lines: try every ordering seed that showed it
                    return bool(ls) and bool(check_lines(F, S.random.Random(pr), ls, hs, 12))
                if not check_lines(F, S.random.Random(pr), lines, hs, nperm):
                    ck.add("unconfirmed")
                    return
                small = S.ddmin(lines, test, budget=40)
                bb = check_lines(F, S.random.Random(pr), small, hs, 12) or b
                ck.violation(b[0], bb[1], {"lines": small, "r": pr, "hashes": hs, "n": 12 if bb is not b else nperm})
        S.pmap(one, range(1000000), stop=lambda: S.elapsed() - start > budget)
        ck.add("hash_seeds", len(HASHES) - 1)
        ck.assumptions = ["a hash seed is a fixed PYTHONHASHSEED of a separate process; messages of failures are compared except parser messages with line numbers"]
    finally:
        F.close()
        H.close()
    return ck.finish()
