"""C07: saving and reloading reproduces the object; a save that reports success is complete."""
import os
import shutil

import c06
import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
F = "saved.cfg"
NAMES = ["saved.cfg", "with space.cfg", "no_extension", "x" * 200, "sub/dir/s.cfg"]
TYPED = {"t": "float64"}


def build_ops(r, H, i):
    """A random reachable object without a user spectrum."""
    base, pre, ops = G.history(r, H.settings, r.randint(2, 8), pq=0.06, divergent=0.3)
    m = [o for o in pre + ops if o[0] != "pk"]
    k = r.random()
    if k < 0.6:
        # densities, in an order of their own
        for _ in range(r.choice([1, 2, 4])):
            n = r.choice(list(c06.VALS))
            v = c06.value(r, n)
            if isinstance(v, float) and not (n == "omega_baryon" and v > 0.6):
                m.append(["set", "a", n, v])
    for _ in range(r.choice([0, 1, 3])):
        n = r.choice(["sep", "mu", "fsky", "z_mean", "l", "covariance_populations", "background_sampling", "h", "n_s", "has_lensing", "pk_type"])
        v = {"sep": r.choice([[1e-3], [float(x) for x in range(1, 400)], [1.0 / 3, 2.0 / 3], [0.1 + 0.2], [5e-324 + 1e-300], []]),
             "mu": r.choice([[-1.0, 1.0], [0], [1e-17], [0.1] * 3, []]), "fsky": r.choice([[1.0], [1e-9], [0.3, 0.3]]),
             "z_mean": r.choice([[], [1e-3], [1, 2], [{"$": "np", "t": "float32", "v": 1.1}]]), "l": r.choice([[], [9, 0, 9], [{"$": "np", "t": "int64", "v": 2}]]),
             "covariance_populations": [4, 3, 2, 1], "background_sampling": 777, "h": r.choice([1, {"$": "np", "t": "float64", "v": 0.71}, 0.1 + 0.6]),
             "n_s": r.choice([1, 1e-5, -1.5e-7, 99.0]), "has_lensing": r.choice([1, {"$": "np", "t": "bool_", "v": 1}]), "pk_type": r.choice(["hmcode", 2])}[n]
        m.append(["set", "a", n, v])
    if r.random() < 0.3:
        b = r.choice(M.BIASES)
        m.append(["bias", "a", b, [0.0, 1.0 / 3, 2.0 / 3, 1.1, 1e1], [1e-12, -0.25, 20, {"$": "np", "t": "float32", "v": 0.1}, 3]])
    return base, m


def run(H, ops, cwd, sim=None, timeout=40):
    return H.pool.call({"ops": ops, "cwd": cwd, "timeout": timeout, "stats": False, **({"sim": sim} if sim else {})})


def roundtrip(H, build, name, qs, cwd):
    """(key, text) of the first difference between an object and its restored copy."""
    tail = [["all", "a"], ["allb", "a"], ["save", "a", name], ["load", "b", name], ["all", "b"], ["allb", "b"], ["all", "a"]]
    ops = build + tail
    n = len(build)
    for q in qs:
        ops = ops + [q, ["q", "b", *q[2:]]]
    outs = run(H, ops, cwd, timeout=20)["out"]
    if outs[-1][0] == "timeout":
        outs = outs[:-1]
    if len(outs) <= n + 1 or any(o[0] == "died" for o in outs[:n]):
        return None          # never got that far
    names = [x[0] for x in tail]
    for i in range(n, min(len(outs), n + len(tail))):
        if outs[i][0] != "ok":
            return f"{names[i - n]}", f"{ops[i][0]} of an object with these settings fails: {S.short(outs[i])}"
    if len(outs) < n + 7:
        return None
    a, ab, b, bb, a2 = outs[n], outs[n + 1], outs[n + 4], outs[n + 5], outs[n + 6]
    for k in sorted(a[1]):
        if not S.same_val(a[1][k], b[1].get(k), 1e-14 if "omega" in k else 0.0, 0.0) and not (k.endswith(("omega_de", "omega_cdm", "omega_m", "omega_nu")) and abs(a[1][k] - b[1][k]) < 1e-12):
            return f"setting {k}", f"{k} is {S.short(a[1][k], 60)} and restored as {S.short(b[1].get(k), 60)}"
        if not S.same_val(a[1][k], a2[1].get(k), 0.0, 0.0):
            return f"saved object {k}", f"saving changed {k} of the saved object"
    for k in sorted(ab[1]):
        if not S.same_val(ab[1][k], bb[1].get(k), 1e-12, 1e-13):
            return f"bias {k}", f"{k} is {S.short(ab[1][k], 80)} and restored as {S.short(bb[1].get(k), 80)}"
    # a restored bias may differ in its last digit (it is evaluated at its own points), which adaptive integrals amplify
    tol = (1e-7, 1e-9) if all(S.same_val(ab[1][k], bb[1].get(k), 0.0, 0.0) for k in ab[1]) and all(S.same_val(a[1][k], b[1].get(k), 0.0, 0.0) for k in a[1]) else (2e-2, 1e-3)
    rest = outs[n + 7:]
    for i in range(0, len(rest) - 1, 2):
        x, y = rest[i], rest[i + 1]
        if x[0] != y[0] or not S.same(x, y, rtol=tol[0], arel=tol[1]):
            return f"result {qs[i // 2][2]}", f"{qs[i // 2][2]}: {S.short(x, 90)} before, {S.short(y, 90)} restored"
    if len(rest) % 2:
        # the last answer has no counterpart: one of the two died or never came back
        if rest[-1][0] == "died" or (outs[-1][0] == "died"):
            x = run(H, build + [qs[len(rest) // 2]], cwd)["out"][-1]
            if x[0] != "died":
                return "result died", f"{qs[len(rest) // 2][2]} of the restored object ends the process"
    return None


def part_roundtrip(H, ck, n, budget, root):
    start = S.elapsed()

    def one(i):
        r = S.rng("c07", i)
        base, build = build_ops(r, H, i)
        name = r.choice(NAMES)
        qs = r.sample(G.Q, r.choice([0, 0, 1, 3]))
        d = os.path.join(root, f"r{i}")
        os.makedirs(os.path.join(d, "sub/dir"))
        ck.seen(["rt", build], n=1)
        b = roundtrip(H, build, name, qs, d)
        if b:
            with ck.lock:
                if any(v["key"] == b[0] for v in ck.viol) or len(ck.viol) > 6:
                    return

            def test(o):
                x = o and o[0][0] == "new" and roundtrip(H, o, name, qs, d)
                return bool(x) and x[0] == b[0]
            if not test(build):
                ck.add("unconfirmed")
                return
            small = S.ddmin(build, test, budget=30, keep=1)
            ck.violation(b[0], b[1], {"kind": "roundtrip", "build": small, "name": name, "qs": qs})
        shutil.rmtree(d, ignore_errors=True)
    S.pmap(one, range(n), stop=lambda: S.elapsed() - start > budget)


SCENES = {
    "default": [["new", "a"]],
    "changed": M.from_cfg("twobins").fresh("a"),
    "long": M.from_cfg("local").fresh("a") + [["set", "a", "sep", [0.1 + x / 7 for x in range(2500)]]],
}
KINDS = {"open": ["eacces", "emfile", "enospc", "enoent", "erofs", "eio", "eintr", "crash"], "write": ["eio", "enospc", "edquot", "short", "eintr", "torn", "crash", "crashafter"],
         "close": ["eio", "enospc", "edquot", "crash"], "read": ["eio", "short", "eintr"], "stat": [], "rename": ["eio", "enospc", "crash"], "unlink": ["eio"],
         "sync": ["eio", "enospc"], "mkdir": ["eacces"], "trunc": ["eio"]}


def fault_trial(H, scene, phase, old, faults, cwd):
    """One run with faults during the save (or load); returns (outcomes, file contents after it, after a second save, fired)."""
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    build = SCENES[scene]
    if old is not None:
        with open(os.path.join(cwd, F), "w") as f:
            f.write(old)
    sim = f"io.root={cwd}\nio.log=1\n"
    ops = list(build)
    if phase == "save":
        ops += [["all", "a"], ["sim", sim + "io.ops=0\n" + faults], ["save", "a", F], ["sim", "io.ops=0\nio.quota=-1"], ["fs", "read", F], ["all", "a"],
                ["save", "a", F], ["fs", "read", F]]
    else:
        ops += [["save", "a", F], ["all", "a"], ["sim", sim + "io.ops=0\n" + faults], ["load", "b", F], ["sim", "io.ops=0\nio.quota=-1"], ["all", "b"],
                ["load", "b", F], ["all", "b"]]
    res = H.pool.call({"ops": ops, "cwd": cwd, "timeout": 30})
    return res, res["out"][len(build):]


def fault_judge(phase, o, clean):
    if phase == "save":
        before, save, read1, after, save2, read2 = o[0], o[2], o[4], o[5], o[6], o[7]
        if save[0] == "ok" and (read1[0] != "ok" or read1[1] != clean):
            return "incomplete", f"the save reported success but the file has {len(read1[1] or '') if read1[0] == 'ok' else read1} of {len(clean)} characters"
        if not S.same(before, after):
            return "object", "the failed save changed the object"
        if save2[0] != "ok" or read2[1] != clean:
            return "again", f"saving again after a failed save does not work: {S.short(save2)}"
    else:
        orig, load, b1, load2, b2 = o[1], o[3], o[5], o[6], o[7]
        if load[0] == "ok" and not S.same(orig, b1, rtol=1e-14, arel=1e-14):
            return "partial load", "a load with read errors reported success with a different object"
        if load2[0] != "ok" or not S.same(orig, b2, rtol=1e-14, arel=1e-14):
            return "load again", f"loading after a failed load does not work: {S.short(load2)}"
    return None


def part_faults(H, ck, root):
    jobs = []
    clean = {}
    for scene in SCENES:
        for phase in ("save", "load"):
            res, o = fault_trial(H, scene, phase, None, "", os.path.join(root, f"dry-{scene}-{phase}"))
            if phase == "save":
                if o[2][0] != "ok":
                    ck.violation("plain save", f"saving fails: {S.short(o[2])}", {"kind": "fault", "scene": scene, "phase": phase, "old": None, "faults": ""})
                    continue
                clean[scene] = o[4][1]
            # the trace of the first save or load only
            log = []
            for x in res["info"]["sim"]["io"]["log"]:
                log.append(x)
            end = len(log)
            seen_close = 0
            for i, x in enumerate(log):
                if x[0] == "close":
                    seen_close += 1
                    end = i + 1
                    break
            ck.cov.setdefault("io_steps", {})[f"{scene}/{phase}"] = end
            for old in ([None, "h = 0.9\n" * 3000] if phase == "save" else [None]):
                for i, x in enumerate(log[:end]):
                    for k in KINDS.get(x[0], []):
                        jobs.append((scene, phase, old, f"io.fault={i + 1}:{k}"))
                        if k in ("eio", "enospc", "edquot"):
                            jobs.append((scene, phase, old, f"io.fault={i + 1}:{k}:s"))
                if phase == "save":
                    n = len(clean[scene])
                    for q in sorted({0, 1, 100, 4095, 4096, 8191, 8192, 8193, n // 2, n - 1, n - 2}):
                        if q < n:
                            jobs.append((scene, phase, old, f"io.quota={q}"))
                else:
                    for c in (1, 7, 100):
                        jobs.append((scene, phase, old, f"io.read_chunk={c}"))
                for a in range(3):
                    r = S.rng("c07f", scene, phase, a)
                    ks = r.sample(range(1, end + 1), min(2, end))
                    jobs.append((scene, phase, old, "io.fault=" + ",".join(f"{k}:{r.choice(['eio', 'short', 'eintr', 'enospc'])}" for k in sorted(ks))))
    if S.TIER == "quick" and len(jobs) > 500:
        jobs = S.rng("c07fj").sample(jobs, 500)

    def one(ij):
        i, (scene, phase, old, faults) = ij
        d = os.path.join(root, f"f{i}")
        res, o = fault_trial(H, scene, phase, old, faults, d)
        ck.seen(["f", scene, phase, old is not None, faults])
        died = o and o[-1][0] == "died"
        ck.absorb((res.get("info") or {}).get("sim"))
        for kk in ("short", "torn", "crash", "crashafter", "eintr", "eio", "enospc", "edquot", "quota", "eacces", "emfile", "enoent", "erofs"):
            if kk in faults:
                ck.add("scheduled." + kk)
        if died:
            if any(k in faults for k in ("crash", "torn")):
                # a restarted process must not take a cut-off file for a complete one silently losing what it restores fully;
                # it may fail or load it, but it must not die, and saving again must repair it
                res2 = run(H, SCENES[scene] + [["load", "b", F], ["save", "a", F], ["fs", "read", F]], d)["out"][len(SCENES[scene]):]
                ck.add("restarts_after_crash")
                if len(res2) < 3 or res2[1][0] != "ok" or res2[2][1] != clean[scene]:
                    ck.violation("after crash", f"after a crash during the save, {S.short(res2[-1])}",
                                 {"kind": "fault", "scene": scene, "phase": phase, "old": old, "faults": faults})
            else:
                ck.violation("died", f"{phase} with {faults} ends the process: {o[-1]}", {"kind": "fault", "scene": scene, "phase": phase, "old": old, "faults": faults})
        elif len(o) >= 8:
            b = fault_judge(phase, o, clean[scene])
            if b:
                ck.violation(b[0], f"{scene}, {faults}: {b[1]}", {"kind": "fault", "scene": scene, "phase": phase, "old": old, "faults": faults})
        shutil.rmtree(d, ignore_errors=True)
    S.pmap(one, list(enumerate(jobs)))


def replay(H, case):
    root = S.scratch("c07replay")
    try:
        d = os.path.join(root, "x")
        os.makedirs(os.path.join(d, "sub/dir"))
        if case["kind"] == "roundtrip":
            b = roundtrip(H, case["build"], case["name"], case["qs"], d)
        else:
            _, o = fault_trial(H, case["scene"], "save", None, "", d)
            clean = o[4][1] if o[4][0] == "ok" else ""
            _, o = fault_trial(H, case["scene"], case["phase"], case["old"], case["faults"], d)
            b = fault_judge(case["phase"], o, clean) if len(o) >= 8 else ("died", f"{o[-1]}")
        if b:
            print("  %s: %s" % b)
        return bool(b)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ck = S.Check("C07", "fault_enumeration", "each evaluation is one object saved and restored (settings, biases and three results compared) or one save or load "
                 "with injected disk faults; distinct by object history or (scene, phase, old file, fault schedule)")
    H = hist.Hist("c07")
    root = S.scratch("c07io")
    try:
        part_faults(H, ck, root)
        ck.cov["fault_wall_s"] = round(S.elapsed(), 1)
        part_roundtrip(H, ck, 100000, 30 if S.TIER == "quick" else 1200, root)
        ck.assumptions = ["a file is complete when it is byte-identical to the one a save without faults writes", "the external Boltzmann code is a stand-in"]
    finally:
        H.close()
        shutil.rmtree(root, ignore_errors=True)
    return ck.finish()
