"""C13: the program reports success only if every result file is complete."""
import os

import cli as K
import hist
import simlib as S

NEEDS = "hist"
DISK = ["eio", "enospc", "eacces", "emfile", "erofs", "edquot", "enoent"]
KINDS = DISK + ["eintr", "short", "eexist"]
CLOCK = "clk.on=1\nclk.start=1700000000\nclk.step=1000\n"


def sim(extra=""):
    return "seed=1\nio.root=@D@\n" + CLOCK + extra


def baseline(C, sc, extra=""):
    s, f = K.scenario(sc)
    return s, f, C.once(s, f, sim("io.log=1\n" + extra))


def is_input(path, files):
    return path.lstrip("/") in files or path.lstrip("/") == "s.cfg"


def log_of(r):
    return (r["stats"].get("io") or {}).get("log", [])


def judge(base, files, r, must=True):
    """Text if this run under faults claims more than it did."""
    if r["code"] == "timeout":
        return None
    if r["code"] != 0:
        return None
    lg = log_of(r)
    hit = [o for o in lg if o[2] not in ("none",)]
    if any(o[3].lstrip("/") == "pk.dat" for o in hit) and "WARNING: cannot process file" in r["err"]:
        return None         # the announced substitution: C15
    d = K.diff(base["tree"], r["tree"])
    if d:
        return "the program exits with status zero and " + d
    if must:
        for kind, _, x, path in hit:
            if x in DISK + ["quota"] and not is_input(path, files) and kind in ("open", "write", "close", "mkdir", "trunc", "sync"):
                return f"the program exits with status zero although {kind} of {path} failed ({x})"
    return None


# ------------------------------------------------------------------ one faulty run
def run_fault(C, sc, cfg):
    s, f = K.scenario(sc)
    return C.once(s, f, sim("io.log=1\n" + cfg))


def fault_jobs(C, sc, quick):
    out = []
    for buf in ((4096,) if quick else (4096, 512, 65536)):
        s, f, base = baseline(C, sc, f"io.bufsize={buf}\n")
        lg = log_of(base)
        for i, (kind, n, _, path) in enumerate(lg, 1):
            if kind == "stat":
                continue
            for x in KINDS:
                if x == "short" and kind not in ("write", "read"):
                    continue
                if x == "eexist" and kind not in ("mkdir", "open"):
                    continue
                if kind in ("read", "write", "close") and x in ("eacces", "emfile", "erofs", "enoent"):
                    continue
                out.append((sc, f"io.bufsize={buf}\nio.fault={i}:{x}\n"))
                if kind == "write" or x in ("enospc", "emfile"):
                    out.append((sc, f"io.bufsize={buf}\nio.fault={i}:{x}:s\n"))
    return out


def random_jobs(C, sc, r, n):
    """Several faults; odd buffer sizes, where a failure lies in the middle of a file which goes on."""
    out = []
    counts = {}
    for _ in range(n):
        buf = r.choice([1, 7, 64, 200, 1000, 4096])
        if buf not in counts:
            counts[buf] = (baseline(C, sc, f"io.bufsize={buf}\n")[2]["stats"].get("io") or {}).get("ops", 1)
        k = r.choice([1, 1, 1, 2, 3])
        fl = ",".join(f"{r.randint(1, counts[buf])}:{r.choice(['eio', 'enospc', 'eintr', 'short', 'short', 'edquot'])}" for _ in range(k))
        ch = f"io.read_chunk={r.choice([1, 3, 50])}\n" if r.random() < 0.2 else ""
        out.append((sc, f"io.bufsize={buf}\n{ch}io.fault={fl}\n"))
    return out


def quota_jobs(C, sc, r, n):
    s, f, base = baseline(C, sc)
    total = (base["stats"].get("io") or {}).get("written", 0)
    ends, a = [], 0
    for _, b, _, p in [o for o in log_of(base) if o[0] == "write"]:
        a += b
        ends += [a - 1, a, a + 1, a - b + 1]
    pts = sorted({0, 1, total - 1, total - 2, total // 2} | {e for e in ends if 0 <= e < total})
    while len(pts) < n:
        pts.append(r.randrange(total))
    return [(sc, f"io.quota={q}\nio.bufsize={r.choice([4096, 4096, 64, 512])}\n") for q in (pts if len(pts) <= n else r.sample(pts, n))]


# ------------------------------------------------------------------ odd surroundings
def surroundings():
    """(name, function preparing the directory, keyword arguments of the run, settings)"""
    def mk(p, t=""):
        def go(d):
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "w") as f:
                f.write(t)
        return go

    def dirs(*ps):
        def go(d):
            for p in ps:
                os.makedirs(os.path.join(d, p))
        return go

    def links(p, to, t=None):
        def go(d):
            os.makedirs(os.path.join(d, "out"), exist_ok=True)
            os.symlink(to, os.path.join(d, p))
        return go

    def closer(*fds):
        def pre():
            for i in fds:
                os.close(i)
        return pre

    def full(*fds):
        def pre():
            h = os.open("/dev/full", os.O_WRONLY)
            for i in fds:
                os.dup2(h, i)
        return pre

    def fsize(n):
        def pre():
            import resource
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        return pre

    def nofile(n):
        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
        return pre
    out = [("directory exists", dirs("out"), {}, {})]
    for v in (0, 1):
        for fds in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2), (0, 2)):
            out.append((f"descriptors {fds} closed, verbose={v}", None, {"pre": closer(*fds)}, {"verbose": v}))
        out.append((f"standard output full, verbose={v}", None, {"pre": full(1)}, {"verbose": v}))
        out.append((f"standard output and error full, verbose={v}", None, {"pre": full(1, 2)}, {"verbose": v}))
    for n in (0, 1, 500, 1500, 5000, 16000, 16659, 16660, 20000):
        out.append((f"files limited to {n} bytes", None, {"pre": fsize(n)}, {}))
    for n in (4, 5, 8):
        out.append((f"{n} descriptors", None, {"pre": nofile(n)}, {}))
    for p in ("out", ):
        out.append((f"{p} is a file", mk(p, "x"), {}, {}))
        out.append((f"{p} is a dangling link", links("out2", "nowhere"), {}, {"output_path": "out2/"}))
        out.append((f"a parent is a file", mk("o", "x"), {}, {"output_path": "o/a/b/"}))
    for x in ("p_settings.cfg", "p_background.dat", "@"):
        out.append((f"{x} is a directory", dirs("out/" + x), {}, {}))
        out.append((f"{x} is old and longer", mk("out/" + x, "old line\n" * 40000), {}, {}))
        out.append((f"{x} is /dev/full", links("out/" + x, "/dev/full"), {}, {}))
        out.append((f"{x} is a dangling link", links("out/" + x, "/nonexistent-directory/x"), {}, {}))
    for path in ("o", "o//", "./o/", "a/../o/", "o/./p/", "a/b/c/d/e/f/", "@D@/abs", "@D@/abs/", "x" * 200 + "/", "y" * 300, "a/" * 60, "." , "./"):
        out.append((f"output_path {path[:20]}", dirs("a") if path.startswith("a/..") else None, {}, {"output_path": path}))
    for pre in ("", "q", "sub/q_", "long" * 30, "w" * 240, "w" * 215, "w" * 222, "w" * 255, "$TIME_", "$HOME", "a b", "%s%n"):
        out.append((f"prefix {pre[:12]}", None, {}, {"output_prefix": pre}))
    for bg in (["z"], ["f", "z"], [], ["comoving_distance", "comoving_distance"], ["z", "a", "H", "D1", "f"] * 3, ["z"] * 20, ["z"] * 21, ["z", "nonsense", "a"], ["Z"], [""], ["H", "z", "D1", "a", "f"]):
        out.append((f"columns {len(bg)} {'/'.join(bg)[:20]}", None, {}, {"output_background": bg}))
    return out


def run_around(C, sc, i, sur=None):
    name, prep, kw, ch = (sur or surroundings())[i]
    s, f = K.scenario(sc)
    s.update({k: v for k, v in ch.items()})
    d = C.fresh_dir()
    try:
        for k in ("output_path",):
            s[k] = s[k].replace("@D@", d)
        if prep:
            prep_d = prep
            prep_d(d)
            at = os.path.join(d, "out", "@")
            if os.path.lexists(at):
                os.rename(at, os.path.join(d, "out", "p_" + K.TYPES[s["output_type"]]))
        C.put(d, s, f)
        r = C.go(d, "seed=1\n" + CLOCK, **kw)
        r["s"] = s
        r["d"] = d
        # where the program should have put its files
        want = {}
        for x in K.outputs(s):
            p = os.path.normpath(os.path.join(d, x))
            try:
                with open(p, "rb") as h:
                    want[x] = h.read(4 << 20).decode("latin-1") if not os.path.islink(p) or os.path.realpath(p).startswith(d) else "(elsewhere)"
            except OSError as e:
                want[x] = None
        r["want"] = want
        return name, s, f, r
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def around_judge(C, H, sc, name, s, f, r):
    if r["code"] != 0 or r["code"] == "timeout":
        return None
    ref, bgref = good(C, H, sc, s)
    for x, v in r["want"].items():
        # no columns asked for: no table
        if v is None and (s["output_background"] or not x.endswith("background.dat")):
            return f"the program exits with status zero and {x[-60:]} is missing"
    tr = dict(r["want"])
    if s["output_background"] == []:
        return None
    b = K.content(s, f, tr, *ref)
    return b and "the program exits with status zero and " + b[:300]


MEMO = {}


def good(C, H, sc, s):
    k = sc
    if k not in MEMO:
        s0, f0 = K.scenario(sc)
        ops, zs = K.library(s0, f0)
        MEMO[k] = (H.pool.call({"ops": ops, "timeout": 90})["out"], zs)
    return MEMO[k], None


def check_content(C, H, sc):
    """The run without faults: the files say what the library says."""
    s, f, r = baseline(C, sc)
    if r["code"] != 0:
        return f"the program fails without any fault: {r['err'][-200:]}"
    if not K.comparable(s, f):
        return None
    lib, zs = good(C, H, sc, s)[0]
    if any(o[0] != "ok" for o in lib):
        raise S.HarnessError(f"the library refuses {sc}: {[o for o in lib if o[0] != 'ok'][:1]}")
    return K.content(s, f, r["tree"], lib, zs)


def confirm(C, H, case):
    k = case["kind"]
    if k == "content":
        return check_content(C, H, case["sc"])
    if k == "fault":
        buf = [x for x in case["cfg"].split("\n") if x.startswith("io.bufsize")]
        s, f, base = baseline(C, case["sc"], (buf[0] if buf else "") + "\n")
        return judge(base, f, run_fault(C, case["sc"], case["cfg"]))
    name, s, f, r = run_around(C, case["sc"], case["i"])
    return around_judge(C, H, case["sc"], name, s, f, r)


def shrink(C, case, b):
    """Fewer faults for the same complaint."""
    if case["kind"] != "fault" or "," not in case["cfg"]:
        return case, b
    head, fl = case["cfg"].split("io.fault=")
    for one in fl.strip().split(","):
        c = {**case, "cfg": head + "io.fault=" + one + "\n"}
        x = confirm(C, None, c)
        if x:
            return c, x
    return case, b


def main():
    quick = S.TIER == "quick"
    ck = S.Check("C13", "exploration", "each evaluation is one run of the program with faults injected into its numbered file operations, a disk of limited size, or odd "
                 "surroundings (closed descriptors, limits, existing files); a run which exits with status zero must have left exactly the files of the "
                 "fault-free run, whose contents are compared with the library's; distinct by (scenario, faults)")
    H = hist.Hist("c13", 3)
    C = K.Cli("c13")
    try:
        # contents
        names = K.ALL + K.MORE + ["avg-bias", "cova-bias1", "covm-bias1-rsd", "multi-dop-len"]
        names = [n for n in names if "time" not in n.split("-")]

        def one_content(sc):
            b = check_content(C, H, sc)
            ck.seen(["content", sc])
            if b:
                ck.violation(f"content:{sc}", f"[{sc}] {b}", {"kind": "content", "sc": sc})
        S.pmap(one_content, names)
        # surroundings
        sur = surroundings()
        js = [(sc, i) for i in range(len(sur)) for sc in (K.ALL[:1] + [K.ALL[1 + i % 4]] if quick else K.ALL)]

        def one_around(j):
            sc, i = j
            name, s, f, r = run_around(C, sc, i, sur)
            ck.seen(["around", sc, name])
            ck.add("surroundings:" + ("success" if r["code"] == 0 else "failure"))
            b = around_judge(C, H, sc, name, s, f, r)
            if b:
                ck.violation(f"around:{name}", f"[{sc}; {name}] {b}", {"kind": "around", "sc": sc, "i": i})
        S.pmap(one_around, js)
        # faults
        scs = K.ALL + (["multi-deep-few", "corr-bias"] if quick else K.MORE)
        bases = {}
        todo = []
        for sc in scs:
            r = S.rng("c13", sc)
            todo += fault_jobs(C, sc, quick or sc in K.MORE)
            todo += random_jobs(C, sc, r, 24 if quick else 600)
            todo += quota_jobs(C, sc, r, 16 if quick else 300)
            bases[sc] = baseline(C, sc)
        S.rng("c13o").shuffle(todo)

        def one(j):
            sc, cfg = j
            s, f, base = bases[sc]
            r = run_fault(C, sc, cfg)
            ck.seen([sc, cfg])
            ck.absorb({"io": {k: v for k, v in (r["stats"].get("io") or {}).items() if k in ("fired", "faults", "ops")}})
            ck.add("faulty_runs:" + ("success" if r["code"] == 0 else "failure"))
            b = judge(base, f, r)
            if b:
                lg = [o for o in log_of(r) if o[2] != "none"]
                key = f"{lg[0][0]}:{lg[0][2]}:{os.path.basename(lg[0][3])}" if lg else "none"
                with ck.lock:
                    if len(ck.viol) >= 8 or any(v["key"] == key for v in ck.viol):
                        return
                case, b = shrink(C, {"kind": "fault", "sc": sc, "cfg": cfg}, b)
                ck.violation(key, f"[{sc}; {case['cfg'].strip()}] {b}".replace("\n", " "), case)
        S.pmap(one, todo, stop=lambda: S.elapsed() > (200 if quick else 3600))
        ck.sample(["corr-rsd", "io.fault=12:enospc"])
        ck.sample(["multi", "io.quota=1500"])
        ck.cov["runs"] = C.runs
        ck.assumptions = ["what is written to standard output and standard error is not a result", "contents are compared with the library to 3e-3 (each integrates on its own), all else exactly"]
    finally:
        H.close()
        C.close()
    return ck.finish()


def replay(H, case):
    C = K.Cli("c13r")
    try:
        b = confirm(C, H, case)
    finally:
        C.close()
    if b:
        print("  " + b)
    return bool(b)
