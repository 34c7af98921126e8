"""C14: an interrupted, repeated or concurrent run leaves the outcome of one clean run."""
import os
import select
import shutil

import cli as K
import simlib as S

NEEDS = "cli"
CLOCK = "clk.on=1\nclk.start=1700000000\nclk.step=1000\n"


class context:
    def close(self):
        pass


def sim(extra=""):
    return "seed=1\nio.root=@D@\n" + CLOCK + extra


# ------------------------------------------------------------------ interrupted runs
def start_states():
    """What may be there before the first run: (name, preparation)."""
    def old(d, s):
        for x in K.outputs(s):
            p = os.path.join(d, x)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("# something old\n" + "1 2 3 4 5 6 7 8\n" * 5000)

    def part(d, s):
        os.makedirs(os.path.join(d, s["output_path"].split("/")[0]))

    def stale(d, s):
        p = os.path.join(d, s["output_path"])
        os.makedirs(p)
        for n in range(6):
            with open(os.path.join(p, s["output_prefix"] + ["settings.cfg.tmp", "background.dat.tmp", "lock", "tmp", "background.dat~", ".lock"][n]), "w") as f:
                f.write("stale\n")
    return {"nothing": lambda d, s: None, "old files": old, "part of the path": part, "stray files": stale}


def crash_run(C, sc, state, faults, buf=4096):
    """Run, killed at each of the faults in turn, then once without; (files, last run)."""
    s, f = K.scenario(sc)
    d = C.fresh_dir()
    try:
        C.put(d, s, f)
        start_states()[state](d, s)
        keep = set(K.tree(d))
        st = []
        for i, x in enumerate(faults):
            r = C.go(d, sim(f"io.bufsize={buf}\nio.fault={x}\n"))
            st.append(r["code"])
        r = C.go(d, sim())
        return {"code": r["code"], "tree": r["tree"], "codes": st, "keep": keep, "err": r["err"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def clean(C, sc, state="nothing"):
    """(result files of one clean run)"""
    s, f = K.scenario(sc)
    r = C.once(s, f, sim("io.log=1\n"))
    return s, f, r


def crash_judge(s, base, r):
    if r["code"] != 0:
        return f"after {len(r['codes'])} interrupted runs (exit codes {r['codes']}), a run to the end fails with status {r['code']}: {r['err'][-160:]}"
    for x in K.outputs(s):
        a, b = base["tree"].get(x), r["tree"].get(x)
        if a != b:
            return f"after {len(r['codes'])} interrupted runs and one to the end, {K.diff({x: a or ''}, {x: b} if b is not None else {})}"
    extra = [x for x in r["tree"] if x not in base["tree"] and x not in r["keep"]]
    if extra:
        return f"after {len(r['codes'])} interrupted runs and one to the end, {extra[0]} is left over"
    return None


# ------------------------------------------------------------------ two programs at a time
class Step:
    """A program which stops before each of its file operations."""

    def __init__(self, C, d, cfg, n, extra=""):
        self.C, self.d, self.n = C, d, n
        ar, aw = os.pipe()
        br, bw = os.pipe()
        self.go_w, self.say_r = aw, br
        name = f".sim{n}"
        self.p = C.popen(d, sim(f"io.sync={ar},{bw}\n" + extra), cfg=cfg, simfile=name, pass_fds=(ar, bw))
        os.close(ar)
        os.close(bw)
        self.name = name
        self.buf = b""
        self.at = None
        self.done = False
        self.steps = 0

    def wait(self, timeout=60):
        """Until it is about to do something, or has ended."""
        while self.at is None and not self.done:
            r, _, _ = select.select([self.say_r], [], [], timeout)
            if not r:
                self.p.kill()
                self.done = True
                return
            c = os.read(self.say_r, 4096)
            if not c:
                self.done = True
                return
            self.buf += c
            if b"\n" in self.buf:
                ln, self.buf = self.buf.split(b"\n", 1)
                self.at = ln.decode("latin-1").split(" ", 2)

    def step(self):
        self.at = None
        self.steps += 1
        try:
            os.write(self.go_w, b"g")
        except BrokenPipeError:
            pass

    def end(self):
        for x in (self.go_w, self.say_r):
            os.close(x)
        return self.C.finish(self.p, self.d, self.name)


def together(C, scs, path, order, dirs=None, extra=None, maxsteps=4000):
    """Several programs in one directory; order(k, alive, steps) picks who is next.  (results, files, trace)"""
    d = C.fresh_dir()
    try:
        ss = []
        procs = []
        for i, sc in enumerate(scs):
            s, f = K.scenario(sc)
            s["output_path"] = path
            s["output_prefix"] = f"q{i}_"
            ss.append(s)
            C.put(d, s, f, f"s{i}.cfg")
        for i in range(len(scs)):
            procs.append(Step(C, d, f"s{i}.cfg", i, (extra or {}).get(i, "")))
        trace = []
        k = 0
        while True:
            # everyone alive stands before an operation
            for p in procs:
                p.wait()
            alive = [i for i, p in enumerate(procs) if not p.done]
            if not alive or k > maxsteps:
                break
            i = order(k, alive, [p.steps for p in procs], [p.at for p in procs])
            trace.append(i)
            procs[i].step()
            k += 1
        res = [p.end() for p in procs]
        return ss, res, K.tree(d), trace
    finally:
        shutil.rmtree(d, ignore_errors=True)


def alone(C, sc, path, i):
    s, f = K.scenario(sc)
    s["output_path"] = path
    s["output_prefix"] = f"q{i}_"
    return s, C.once(s, f, sim("io.log=1\n"))


def together_judge(bases, ss, res, tr, crashed=()):
    for i, (s, r) in enumerate(zip(ss, res)):
        if i in crashed:
            continue
        if r["code"] != 0:
            return f"program {i + 1} of {len(ss)} fails with status {r['code']}: {r['err'][-200:]}"
        for x in K.outputs(s):
            a, b = bases[i]["tree"].get(x), tr.get(x)
            if a != b:
                return f"program {i + 1} of {len(ss)} succeeds, but {K.diff({x: a or ''}, {x: b} if b is not None else {})}"
    allowed = set()
    for b in bases:
        allowed |= set(b["tree"])
    allowed |= {f"s{i}.cfg" for i in range(len(ss))}
    extra = [x for x in tr if x not in allowed]
    if extra and not crashed:
        return f"{extra[0]} is left over"
    return None


def by_trace(trace):
    def order(k, alive, steps, at):
        if k < len(trace) and trace[k] in alive:
            return trace[k]
        return alive[0]
    return order


def by_rng(r, kind):
    state = {"cur": 0}

    def order(k, alive, steps, at):
        if kind == "uniform":
            return r.choice(alive)
        if kind == "meta":
            # change over around looking at and making directories, and opening files
            if state["cur"] in alive and (at[state["cur"]] or [""])[0] not in ("stat", "mkdir", "open", "close"):
                return state["cur"]
            state["cur"] = r.choice(alive)
            return state["cur"]
        if state["cur"] not in alive or r.random() < (0.1 if kind == "burst" else 0.35):
            state["cur"] = r.choice(alive)
        return state["cur"]
    return order


def by_cut(i, j, first):
    """`first` performs i operations from its first output operation on, then the other performs j, then the first runs to its end."""
    st = {"f": 0, "o": 0, "base": {}}

    def order(k, alive, steps, at):
        a, b = first, 1 - first
        for p in (a, b):
            if p in alive and p not in st["base"]:
                if at[p] and at[p][0] in ("stat", "mkdir") and "/." not in at[p][2]:
                    st["base"][p] = steps[p]
                else:
                    return p
        da = steps[a] - st["base"].get(a, 0)
        db = steps[b] - st["base"].get(b, 0)
        if a in alive and da < i:
            return a
        if b in alive and db < j:
            return b
        return a if a in alive else alive[0]
    return order


def conc_case(C, case):
    bases = [alone(C, sc, case["path"], i)[1] for i, sc in enumerate(case["scs"])]
    ss, res, tr, trace = together(C, case["scs"], case["path"], by_trace(case["trace"]), extra={int(k): v for k, v in case.get("extra", {}).items()})
    return together_judge(bases, ss, res, tr, case.get("crashed", ()))


def case_text(C, case):
    if case["kind"] == "crash":
        s, f, base = clean(C, case["sc"])
        return crash_judge(s, base, crash_run(C, case["sc"], case["state"], case["faults"], case["buf"]))
    return conc_case(C, case)


def main():
    quick = S.TIER == "quick"
    ck = S.Check("C14", "exploration", "each evaluation is one chain of runs of the program killed at chosen file operations (losing what was not yet written) followed by one run to the "
                 "end, or one interleaving of two or three programs, file operation by file operation, in the same new directory; distinct by (scenario, crash points) "
                 "and by (scenarios, order of operations)")
    C = K.Cli("c14")
    try:
        scs = ["corr-rsd", "covm", "multi-deep-few", "cova-fftlog", "avg"] if quick else K.ALL + [n for n in K.MORE if "time" not in n.split("-")]
        bases = {}
        todo = []
        for sc in scs:
            s, f, base = clean(C, sc)
            if base["code"] != 0:
                ck.violation("baseline", f"[{sc}] the program fails without any fault: {base['err'][-200:]}", {"kind": "crash", "sc": sc, "state": "nothing", "faults": [], "buf": 4096})
                continue
            bases[sc] = (s, f, base)
            r = S.rng("c14", sc)
            for buf in (4096,) if quick else (4096, 256):
                _, _, b2 = s, f, C.once(s, f, sim(f"io.log=1\nio.bufsize={buf}\n"))
                lg = b2["stats"]["io"]["log"]
                n = len(lg)
                outs = [i for i, o in enumerate(lg, 1) if o[0] != "read" and not (o[0] in ("open", "close") and o[3].lstrip("/") in f)]
                for i in outs if quick else range(1, n + 1):
                    for x in ("crash", "crashafter") + (("torn",) if lg[i - 1][0] == "write" else ()):
                        if quick and x == "crash" and i % 3 and lg[i - 1][0] != "write":
                            continue
                        todo.append((sc, "nothing", [f"{i}:{x}"], buf))
                    todo.append((sc, r.choice(["old files", "part of the path", "stray files"]), [f"{i}:crashafter"], buf))
                for _ in range(8 if quick else 200):
                    b3 = r.choice([1, 100, 1000, 4096, 4096])
                    top = n if b3 >= 4096 else 60
                    todo.append((sc, r.choice(["nothing", "old files", "part of the path", "stray files"]),
                                 [f"{r.randint(1, top)}:{r.choice(['crash', 'crashafter', 'torn', 'torn'])}" for _ in range(r.choice([1, 2, 3]))], b3))
            for st in start_states():
                todo.append((sc, st, [], 4096))
                todo.append((sc, st, ["100000:crash"], 4096))      # simply run again
        S.rng("c14o").shuffle(todo)

        def one(j):
            sc, state, faults, buf = j
            s, f, base = bases[sc]
            r = crash_run(C, sc, state, faults, buf)
            ck.seen(["crash", *j])
            ck.add("crashes", sum(1 for c in r["codes"] if c == 137))
            b = crash_judge(s, base, r)
            if b and len(faults) > 1:
                for x in faults:
                    b1 = crash_judge(s, base, crash_run(C, sc, state, [x], buf))
                    if b1:
                        b, faults = b1, [x]
                        break
            if b:
                ck.violation(f"crash:{b.split(',')[-1][:40]}", f"[{sc}; {state}; killed at {faults}] {b}", {"kind": "crash", "sc": sc, "state": state, "faults": faults, "buf": buf})
        S.pmap(one, todo, stop=lambda: S.elapsed() > (60 if quick else 1800) or len(ck.viol) > 4)

        # together
        memo = {}

        def base_of(sc, path, i):
            k = (sc, path, i)
            if k not in memo:
                memo[k] = alone(C, sc, path, i)[1]
            return memo[k]
        # what the output phase is made of, by trying it alone
        jobs = []
        path = "out/a/b/"
        pair = ["corr-few", "covm-few"]
        depth = 9 if quick else 14
        for first in (0, 1):
            for i in range(0, depth):
                for j in range(1, depth):
                    if quick and (i * 7 + j * 3 + first) % 2:
                        continue
                    jobs.append((pair, path, ("cut", i, j, first), {}, ()))
        r = S.rng("c14t")
        for n in range(60 if quick else 3000):
            scs2 = r.choice([pair, pair, ["multi-few", "corr-few"], ["covm-few", "covm-few"], ["covm-few", "corr-few", "multi-few"], ["avg-few", "cova-few"]])
            p = r.choice(["out/", "out/a/b/", "out/a/b/c/d", "x"])
            extra, crashed = {}, ()
            if r.random() < 0.25:
                w = r.randrange(len(scs2))
                extra = {w: f"io.fault={r.randint(5, 26)}:{r.choice(['crash', 'torn', 'crashafter', 'enospc', 'eio'])}\n"}
                crashed = (w,)
            jobs.append((scs2, p, ("rng", S.subseed("c14", n), r.choice(["uniform", "meta", "burst", "third"])), extra, crashed))
        S.rng("c14j").shuffle(jobs)

        def conc(j):
            scs2, p, how, extra, crashed = j
            bs = [base_of(sc, p, i) for i, sc in enumerate(scs2)]
            order = by_cut(*how[1:]) if how[0] == "cut" else by_rng(S.random.Random(how[1]), how[2])
            ss, res, tr, trace = together(C, scs2, p, order, extra=extra)
            ck.seen(["together", scs2, p, trace, extra])
            ck.add("interleaved_operations", len(trace))
            ck.add("switches", sum(1 for a, b in zip(trace, trace[1:]) if a != b))
            b = together_judge(bs, ss, res, tr, crashed)
            if b:
                key = "together:" + ("status" if "fails with" in b else "files")
                with ck.lock:
                    if any(v["key"] == key for v in ck.viol):
                        return
                case = {"kind": "together", "scs": scs2, "path": p, "trace": trace, "extra": extra, "crashed": list(crashed)}
                # fewer changes between programs: run each on as long as possible
                for _ in range(2):
                    k = 1
                    while k < len(case["trace"]) and S.elapsed() < 400:
                        t = case["trace"]
                        if t[k] != t[k - 1]:
                            # move the next operation of the running program forward
                            nx = next((m for m in range(k, len(t)) if t[m] == t[k - 1]), None)
                            if nx:
                                c = {**case, "trace": t[:k] + [t[nx]] + t[k:nx] + t[nx + 1:]}
                                if conc_case(C, c):
                                    case = c
                                    continue
                        k += 1
                    break
                ck.violation(key, f"[{'+'.join(scs2)} in new directory {p}, {sum(1 for a, b in zip(case['trace'], case['trace'][1:]) if a != b)} changes of program] " + (conc_case(C, case) or b), case)
        start = S.elapsed()
        S.pmap(conc, jobs, stop=lambda: S.elapsed() > start + (60 if quick else 1800))
        ck.sample(["killed", "corr-rsd", ["14:torn", "20:crash"]])
        ck.sample(["together", pair, path])
        ck.cov["runs"] = C.runs
        ck.assumptions = ["what a process has written survives its death (no power loss)", "the clock is fixed, so that time stamps do not differ"]
    finally:
        C.close()
    return ck.finish()


def replay(H, case):
    C = K.Cli("c14r")
    try:
        b = case_text(C, case)
    finally:
        C.close()
    if b:
        print("  " + b)
    return bool(b)
