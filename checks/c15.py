"""C15: unreadable or damaged input is never silently replaced or truncated."""
import os

import cli as K
import hist
import simlib as S

NEEDS = "cli"
CLOCK = "clk.on=1\nclk.start=1700000000\nclk.step=1000\n"
WARNING = "cannot process file"


class context:
    def close(self):
        pass


def sim(extra=""):
    return "seed=1\nio.root=@D@\n" + CLOCK + extra


def results(s, t):
    return {k: t[k] for k in K.outputs(s)[1:] if k in t}


def differs(s, want, r):
    """None if the results are these."""
    a, b = results(s, want["tree"]), results(s, r["tree"])
    if len(b) != len(a):
        return "result files are missing"
    return K.diff(a, b)


class World:
    def __init__(self, name):
        self.C = K.Cli(name)
        self.memo = {}

    def base(self, sc):
        return self.C.base(sc)

    def nopk(self, sc):
        k = ("nopk", sc)
        if k not in self.memo:
            s, f, _ = self.base(sc)
            self.memo[k] = self.C.once(s, {a: b for a, b in f.items() if a != "pk.dat"}, sim())
        return self.memo[k]

    def judge(self, sc, r, may=("same",), want=None):
        """What is wrong with the run, which may end with the results of the undamaged input ('same'), with the announced substitution
        ('builtin'), or fail (always)."""
        s, f, base = self.base(sc)
        if r["code"] != 0:
            return None
        warned = WARNING in r["err"]
        if warned:
            if "builtin" not in may:
                return f"the program succeeds with the built-in power spectrum although its file is fine: {r['err'][-160:]}"
            d = differs(s, self.nopk(sc), r)
            if d:
                return f"the program announces that it goes on without the power-spectrum file, but the results are not those of the built-in one: {d}"
            return None
        if "same" not in may:
            d = differs(s, self.nopk(sc), r)
            if "builtin" in may and not d:
                return "the program succeeds with its built-in power spectrum without a warning"
            return "the program succeeds" + ("" if "builtin" in may or differs(s, base, r) else ", with the results of the undamaged input")
        d = differs(s, want or base, r)
        if d:
            return f"the program succeeds without a warning, but {d}"
        return None

    def close(self):
        self.C.close()


# ------------------------------------------------------------------ A: faults of the reads
def read_ops(W, sc, buf):
    s, f, _ = W.base(sc)
    r = W.C.once(s, f, sim(f"io.log=1\nio.bufsize={buf}\n"))
    return r["stats"]["io"]["log"], f


def fault_run(W, c):
    s, f, _ = W.base(c["sc"])
    r = W.C.once(s, f, sim(c["sim"]))
    return W.judge(c["sc"], r, ("same", "builtin") if c["pk"] else ("same",)), r


# ------------------------------------------------------------------ B: tables
def rows(text):
    return [ln.split()[:2] for ln in text.split("\n") if ln.strip() and not ln.lstrip().startswith("#")]


def canonical(rs):
    return "".join("%.17g %.17g\n" % (float(a), float(b)) for a, b in rs)


def number(r, x):
    v = float(x)
    out = ["%.17g" % v, "%.17e" % v, "%.17E" % v, "+%.17g" % v, "%.25g" % v, "%.17e" % v + "f"[:0], float.hex(v), "0000%.17g" % v]
    if v == int(v) and abs(v) < 1e6:
        out += ["%d." % v, "%d.000" % v]
    if abs(v) < 1 and "e" not in "%.17g" % v:
        out.append(("%.17g" % v).replace("0.", ".", 1) if v > 0 else "%.17g" % v)
    t = r.choice(out)
    return t


def good_variant(r, rs, kinds=None):
    """The same table written differently."""
    kinds = kinds or r.sample(["sep", "blank", "crlf", "comments", "empty lines", "columns", "nofinal", "numbers", "long comment", "indent comment", "long line"], r.choice([1, 2, 3]))
    out = []
    n = 0
    for a, b in rs:
        if "comments" in kinds and r.random() < 0.3:
            out.append("# " + r.choice(["comment", "1 2 3", "", "nan", "# again"]))
        if "indent comment" in kinds and r.random() < 0.2:
            out.append(r.choice([" ", "\t", "   "]) + "# 7 8")
        if "long comment" in kinds and n < 3 and r.random() < 0.2:
            n += 1
            # a piece of a comment line cut off at a buffer's end must not become data
            L = r.choice([100, 253, 254, 255, 256, 511, 1022, 1023, 1024, 2047, 4095, 4096, 8191])
            out.append(("#" + "x" * (L - 1) + " 3.0 4.0")[:L + 12] if r.random() < 0.5 else "#" + " 1.0 2.0" * (L // 8 + 1))
        if "empty lines" in kinds and r.random() < 0.3:
            out.append(r.choice(["", " ", "\t"]))
        if "numbers" in kinds:
            a, b = number(r, a), number(r, b)
        else:
            a, b = "%.17g" % float(a), "%.17g" % float(b)
        sep = r.choice([" ", "\t", "  ", "\t\t", " \t "]) if "sep" in kinds else " "
        ln = a + sep + b
        if "columns" in kinds:
            ln += sep + r.choice(["5.0", "text", "0 0", "# note", "nan"])
        if "blank" in kinds:
            ln = r.choice([" ", "\t", "   "]) + ln + r.choice(["", " ", "\t", "   "])
        if "long line" in kinds and r.random() < 0.1:
            ln = ln + " " * r.choice([200, 300, 1000, 5000]) + r.choice(["", "9.0", "1.0 2.0"])
        out.append(ln)
    t = "\n".join(out) + ("" if "nofinal" in kinds else "\n")
    if "crlf" in kinds:
        t = t.replace("\n", "\r\n")
    return t, kinds


BAD = ["word", "one column", "joined", "glued", "leading", "nul", "nan", "inf", "-inf", "huge", "empty", "comments", "short", "missing", "directory", "comma", "second", "exponent", "dots",
       "minus", "binary", "unreadable bytes"]


def bad_variant(r, rs, kind):
    """A table which cannot be read completely as numbers (None: the file is absent, \1: it is a directory)."""
    ls = ["%.17g %.17g" % (float(a), float(b)) for a, b in rs]
    i = r.choice([0, 1, len(ls) // 2, len(ls) - 2, len(ls) - 1])
    a, b = ls[i].split()
    if kind == "word":
        ls[i] = r.choice(["abc def", "x " + b, a + " x", "N/A " + b, a + " -"])
    elif kind == "one column":
        ls[i] = a
    elif kind == "joined":
        ls[i] = a + "_" + b
    elif kind == "glued":
        ls[i] = a + " " + r.choice([b + "abc", b + "x", b + "%", b + "!"])
    elif kind == "leading":
        ls[i] = r.choice(["x", "%", "!", "@"]) + ls[i]
    elif kind == "nul":
        ls[i] = r.choice([a + "\0 " + b, "\0" + ls[i], a + " \0" + b])
    elif kind in ("nan", "inf", "-inf", "huge"):
        t = {"nan": r.choice(["nan", "NaN", "-nan", "NAN"]), "inf": r.choice(["inf", "INF", "infinity"]), "-inf": "-inf", "huge": r.choice(["1e999", "-1e999", "1e400"])}[kind]
        ls[i] = (a + " " + t) if r.random() < 0.7 else (t + " " + b)
    elif kind == "empty":
        return ""
    elif kind == "comments":
        return "# nothing\n" * r.choice([1, 3, 500])
    elif kind == "short":
        return "\n".join(ls[:1]) + "\n"
    elif kind == "missing":
        return None
    elif kind == "directory":
        return "\1"
    elif kind == "comma":
        ls[i] = a + "; " + b
    elif kind == "second":
        ls[i] = a + " " + "."
    elif kind == "exponent":
        ls[i] = a + " 1e"
    elif kind == "dots":
        ls[i] = a + " 1.2.3"
    elif kind == "minus":
        ls[i] = a + " --1"
    elif kind == "binary":
        return "".join(chr(r.randrange(1, 256)) for _ in range(600)).replace("#", "$")
    elif kind == "unreadable bytes":
        ls[i] = a + " \xff\xfe\x31"
    return "\n".join(ls) + "\n"


def table_run(W, c):
    s, f, base = W.base(c["sc"])
    f = dict(f)
    mk = None
    want = None
    if c["good"]:
        k = ("canon", c["sc"], c["file"], c.get("rows", 0))
        rs = rows(f[c["file"]])
        if c.get("rows"):
            rs = more_rows(rs, c["rows"])
        if k not in W.memo:
            W.memo[k] = W.C.once(s, {**f, c["file"]: canonical(rs)}, sim())
        want = W.memo[k]
    if c["text"] is None:
        del f[c["file"]]
    elif c["text"] == "\1":
        del f[c["file"]]

        def mk(d):
            os.makedirs(os.path.join(d, c["file"]))
    else:
        f[c["file"]] = c["text"]
    r = W.C.once(s, f, sim(c.get("sim", "")), before=mk)
    pk = c["file"] == "pk.dat"
    if c["good"]:
        if r["code"] != 0:
            return f"the program refuses a complete table ({c['what']}): {r['err'][-160:]}", r
        return W.judge(c["sc"], r, ("same",), want), r
    return W.judge(c["sc"], r, ("builtin",) if pk else ()), r


def more_rows(rs, n):
    """A longer table along straight lines between the rows."""
    per = max(1, n // max(1, len(rs) - 1))
    out = []
    for (a, b), (c, d) in zip(rs, rs[1:]):
        a, b, c, d = map(float, (a, b, c, d))
        out += [(a + (c - a) * j / per, b + (d - b) * j / per) for j in range(per)]
    out.append((float(rs[-1][0]), float(rs[-1][1])))
    return out


# ------------------------------------------------------------------ C: settings
STRINGS = {"output_path", "output_prefix", "input_power_spectrum"} | {"input_" + b for b in K.BIASES}
NAMES = {"correlation_contributions", "output_background"}
OPTIONAL = {"output_background", "interpolation"} | {"read_" + b for b in K.BIASES}


def unused(s):
    """Settings which are not needed for these results."""
    out = {"covariance_minimum_separation"}        # no longer a setting
    for b in K.BIASES:
        if s.get("read_" + b):
            out.add(b)
    if s["output_type"] in (3, 5):
        out.add("z_mean")
    return out


def bad_values(k, v):
    if k in NAMES:
        return ['\0"text"', "\0true", "\0{ a = 1; }", "\0" + "7"]
    if k in STRINGS:
        return ["\0true", "\0" + "3", "\0" + "2.5", "\0{ a = 1; }", "\0[1.0, 2.0]", '\0("a", "b")']
    out = ['\0"text"', '\0""', '\0"1.0"', "\0true", "\0false", "\0{ a = 1; }", '\0["a", "b"]', '\0(1.0, "x")', '\0("x", 1.0)', "\0([1.0])", "\0({ a = 1.0; })", "\0[true]"]
    if not isinstance(v, list):
        out += ["\0[1.0, 2.0]", "\0(1, 2)", "\0[]", "\0()"]
    return out


def setting_cases(sc):
    s, _ = K.scenario(sc)
    dead = unused(s)
    for k, v in s.items():
        if k in dead:
            continue
        if k not in OPTIONAL:
            yield {"kind": "setting", "sc": sc, "text": K.text({a: b for a, b in s.items() if a != k}), "what": f"{k} left out"}
        for b in bad_values(k, v):
            yield {"kind": "setting", "sc": sc, "text": K.text({**s, k: b}), "what": f"{k} = {b[1:]}"}


def junk_cases(r, sc, n):
    s, f = K.scenario(sc)
    s = dict(s)
    last = s.pop("output_path")
    s["output_path"] = last                       # a required string is the last line: whatever is cut off is missed
    t = K.text(s)
    end = t.rindex(";")
    for i in sorted({r.randrange(1, end) for _ in range(n)} | {end - 1, end - 2, 0, 1}):
        yield {"kind": "setting", "sc": sc, "text": t[:i], "what": f"cut off after {i} of {len(t)} bytes"}
    for j in ["}", "{", "= 3;", "a b c;", '"', "x = ;", "@include \"none.cfg\"\n", "k_max = 9.0;", "x = [1, \"a\"];", "x = 1.2.3;", "x = 0x;", "\xff\xfe", "x = [1.0, ;", "x = 12abc;"]:
        ls = t.split("\n")
        i = r.randrange(len(ls) - 1)
        yield {"kind": "setting", "sc": sc, "text": "\n".join(ls[:i] + [j] + ls[i:]), "what": f"{j!r} on line {i + 1}"}
    for k in sorted(STRINGS & set(s)):
        for L in (255, 256, 257, 300, 1000, 4096, 20000):
            # a name which does not fit somewhere
            name = ("long/" if k == "output_path" else "") + "n" * L
            yield {"kind": "name", "sc": sc, "set": {k: name}, "key": k, "len": L, "what": f"{k} of {len(name)} characters"}
    yield {"kind": "setting", "sc": sc, "text": None, "what": "no settings file"}
    yield {"kind": "setting", "sc": sc, "text": "\1", "what": "a directory as settings file"}
    yield {"kind": "setting", "sc": sc, "text": "", "what": "an empty settings file"}


def setting_run(W, c):
    s, f, _ = W.base(c["sc"])
    if c["kind"] == "name":
        s2 = {**s, **c["set"]}
        r = W.C.once(s2, f, sim())
        if r["code"] != 0:
            return None, r
        if c["key"] == "input_power_spectrum":
            return W.judge(c["sc"], r, ("builtin",)), r
        if c["key"].startswith("input_"):
            return "the program succeeds without the table it was told to read", r
        want = K.outputs(s2)
        miss = [x for x in want if x not in r["tree"] and os.path.normpath(x) not in r["tree"]]
        if miss:
            return f"the program succeeds, and its results are not in the {c['key']} it was given but in {[x for x in r['tree'] if x.endswith('.dat') and x not in f][:2]}", r
        return None, r
    mk = None
    text = c["text"]
    if text is None or text == "\1":
        def mk(d):
            os.unlink(os.path.join(d, "s.cfg"))
            if c["text"]:
                os.makedirs(os.path.join(d, "s.cfg"))
        text = ""
    r = W.C.once(text, f, sim(), before=mk)
    if r["code"] == 0:
        return "the program succeeds" + (": " + r["err"][-160:] if r["err"].strip() else ""), r
    return None, r


def include_run(W, c):
    """Settings spread over two files, one of which cannot be read."""
    s, f, base = W.base(c["sc"])
    ls = K.text(s).split("\n")
    i = c["at"]
    main = "\n".join(ls[:i]) + '\n@include "more.cfg"\n'
    r = W.C.once(main, {**f, "more.cfg": "\n".join(ls[i:])[:c.get("cut", 1 << 30)]}, sim(c.get("sim", "io.log=1\n")))
    return W.judge(c["sc"], r), r


# ------------------------------------------------------------------ D: from_file
PYCFG = ("omega_m = 0.31\nomega_baryon = 0.049\nh = 0.68\nsep = [20.0, 40.0]\nmu = [0.1]\nl = [0, 2]\nz_mean = [0.9, 1.2]\ndeltaz = [0.1, 0.2]\nfsky = [0.3, 0.4]\n"
         "pixelsize = [10.0, 12.0]\nnumber_density1 = [1e-3, 2e-3]\nnumber_density2 = [1e-3, 3e-3]\nhas_density = 1\nhas_rsd = 1\nk_min = 2e-4\nk_max = 9.0\n"
         "background_sampling = 900\nread_galaxy_bias1 = 1\ninput_galaxy_bias1 = \"b0.dat\"\nread_magnification_bias2 = 1\ninput_magnification_bias2 = \"b1.dat\"\n"
         "read_galaxy_bias3 = 1\ninput_galaxy_bias3 = \"b2.dat\"\nevolution_bias1_redshifts = [0.0, 1.0, 2.0, 3.0, 10.0]\nevolution_bias1_values = [0.5, 0.6, 0.8, 0.9, 1.0]\n"
         "input_evolution_bias2 = 0\nevolution_bias2 = 0.3\n")
BAD_PY = ['"text"', "[1.0, x]", "nan", "inf", "", "[[1.0]]", "1.0.0", "{}", "None", "[nan]", "1e999", "[1e999]", "abc", "[1.0, 2.0", "1;2", "--1", "0x"]


def py_run(H, c):
    ops = [["fs", "write", "c.cfg", c["cfg"]]]
    for n, t in c["files"].items():
        if t == "\1":
            ops.append(["fs", "mkdir", n])
        elif t is not None:
            ops.append(["fs", "write", n, t])
    a = len(ops)
    if c.get("sim"):
        ops.append(["sim", "io.root=@CWD@\nio.ops=0\n" + c["sim"]])
        a += 1
    ops += [["load", "a", "c.cfg"]]
    if c.get("sim") and not c.get("log"):
        ops.append(["sim", "io.ops=0\nio.quota=-1"])
    ops += [["all", "a"], ["allb", "a"]]
    r = H.pool.call({"ops": ops, "timeout": 60, "stats": bool(c.get("log"))})
    out = r["out"]
    if len(out) <= a:
        return ["died", str(out[-1])], r
    if out[a][0] != "ok":
        return ["failed", out[a][:2]], r
    return ["ok", [x[1] for x in out[-2:]]], r


def py_judge(H, c, base):
    o, r = py_run(H, c)
    if o[0] == "failed":
        if c["good"]:
            return f"a complete file is refused: {o[1]}"
        return None
    if o[0] == "died":
        return f"the process dies: {o[1]}"
    same = base is not None and S.same_val(base[0], o[1][0], 0.0, 0.0) and S.same_val(base[1], o[1][1], 0.0, 0.0)
    if c["good"] or c.get("fault"):
        if not same:
            bad = [k for k in {**base[0], **base[1]} if not S.same_val({**base[0], **base[1]}[k], {**o[1][0], **o[1][1]}.get(k), 0.0, 0.0)]
            return f"from_file succeeds, but {bad[0]} is {S.short({**o[1][0], **o[1][1]}.get(bad[0]), 80)}"
        return None
    return "from_file succeeds" + (" with everything as without the damage" if same else "")


def py_base(H):
    return py_run(H, {"cfg": PYCFG, "files": {f"b{i}.dat": K.bias_text(i) for i in range(3)}})


def cut_cases(r, n):
    """Configurations cut off in the middle of a value, so that it is no value any more (a cut number is still a number)."""
    for i, ln in enumerate(PYCFG.split("\n")):
        if "[" in ln:
            head = "\n".join(PYCFG.split("\n")[:i])
            j = r.randrange(ln.index("[") + 1, ln.index("]"))
            yield {"cfg": head + "\n" + ln[:j], "what": f"cut off in {ln.split()[0]}"}


def py_cases(r, n):
    files = {f"b{i}.dat": K.bias_text(i) for i in range(3)}
    for kind in BAD:
        if kind in ("nul", "short"):
            continue          # one point is refused or not by what the table is for; covered in C05
        for _ in range(n):
            fn = r.choice(sorted(files))
            t = bad_variant(r, rows(files[fn]), kind)
            yield {"kind": "py", "cfg": PYCFG, "files": {**files, fn: t}, "good": False, "what": f"{fn}: {kind}"}
    for _ in range(6 * n):
        fn = r.choice(sorted(files))
        t, kinds = good_variant(r, rows(files[fn]), r.sample(["sep", "blank", "crlf", "comments", "empty lines", "nofinal", "indent comment", "long comment"], 2))
        yield {"kind": "py", "cfg": PYCFG, "files": {**files, fn: t}, "good": True, "what": f"{fn}: {kinds}"}
    for c in cut_cases(r, n):
        yield {"kind": "py", "files": files, "good": False, **c}
    lines = PYCFG.split("\n")[:-1]
    for i, ln in enumerate(lines):
        k = ln.split(" = ")[0]
        if k.startswith("input_"):
            continue
        for b in BAD_PY:
            yield {"kind": "py", "cfg": "\n".join(lines[:i] + [f"{k} = {b}"] + lines[i + 1:]) + "\n", "files": files, "good": False, "what": f"{k} = {b}"}
    yield {"kind": "py", "cfg": "\n".join(x for x in lines if not x.startswith("input_galaxy_bias1")) + "\n", "files": files, "good": False, "what": "read_galaxy_bias1 without its file"}


RUN = {"fault": fault_run, "table": table_run, "setting": setting_run, "name": setting_run, "include": include_run}


def main():
    quick = S.TIER == "quick"
    ck = S.Check("C15", "exploration", "each evaluation is one run of the program, or one load of a configuration, with an injected fault of one of the operations which read its input, "
                 "a table written differently or damaged, or a setting left out or of the wrong type; distinct by scenario and damage")
    W = World("c15")
    H = hist.Hist("c15h", 4)
    try:
        scs = ["corr-bias", "multi-bias1-step", "covm-rsd-bias1", "avg", "cova-fftlog"] if quick else [n for n in K.ALL + K.MORE if "time" not in n.split("-") and "nopk" not in n.split("-")]
        todo = []
        for sc in list(scs):
            s, f, base = W.base(sc)
            if base["code"] != 0:
                ck.violation("baseline", f"[{sc}] the program fails without any fault: {base['err'][-200:]}", {"kind": "fault", "sc": sc, "sim": "", "pk": False})
                scs.remove(sc)
                continue
            # A
            for buf in (4096, 256) if quick else (4096, 512, 256, 64):
                lg, files = read_ops(W, sc, buf)
                for i, o in enumerate(lg, 1):
                    nm = o[3].lstrip("/")
                    if nm not in files and nm != "s.cfg":
                        continue
                    kinds = {"open": ["enoent", "eacces", "emfile", "eio", "eintr"], "read": ["eio", "eintr", "short"], "close": ["eio", "eintr"]}.get(o[0], ["eio"])
                    for x in kinds:
                        if quick and o[0] == "read" and buf == 256 and x == "short" and i % 3:
                            continue
                        for st in ("", ":s") if not quick else ("",):
                            todo.append({"kind": "fault", "sc": sc, "sim": f"io.bufsize={buf}\nio.fault={i}:{x}{st}\n", "pk": nm == "pk.dat"})
            for n in (1, 7, 100):
                todo.append({"kind": "fault", "sc": sc, "sim": f"io.read_chunk={n}\n", "pk": False})
            # C
            todo += list(setting_cases(sc))
            todo += list(junk_cases(S.rng("c15j", sc), sc, 6 if quick else 60))
            for i in range(2 if quick else 12):
                at = S.rng("c15i", sc, i).randrange(1, len(s) - 1)
                todo.append({"kind": "include", "sc": sc, "at": at, "cut": 1 << 30})
                for x in ("open:enoent", "open:eacces", "read:eio", "open:emfile"):
                    todo.append({"kind": "include", "sc": sc, "at": at, "probe": x})
            # B
            r = S.rng("c15t", sc)
            tabs = [x for x in f if x == "pk.dat" or x.startswith("b")]
            for kind in BAD:
                for fn in tabs if not quick else r.sample(tabs, min(len(tabs), 2)):
                    for _ in range(1 if quick else 6):
                        todo.append({"kind": "table", "sc": sc, "file": fn, "good": False, "text": bad_variant(r, rows(f[fn]), kind), "what": kind,
                                     "sim": r.choice(["", "", f"io.bufsize={r.choice([16, 64, 256])}\n", f"io.read_chunk={r.choice([1, 5, 60])}\n"])})
            for _ in range(16 if quick else 200):
                fn = r.choice(tabs)
                rs = rows(f[fn])
                n = r.choice([0, 0, 0, 300, 1500])
                if n:
                    rs = more_rows(rs, n)
                t, kinds = good_variant(r, rs)
                c = {"kind": "table", "sc": sc, "file": fn, "good": True, "text": t, "what": kinds, "rows": n, "sim": r.choice(["", "", f"io.bufsize={r.choice([16, 64, 256])}\n"])}
                todo.append(c)
        S.rng("c15o").shuffle(todo)

        def one(c):
            if c["kind"] == "include" and "probe" in c:
                # the fault goes where the second file is opened or read
                op, x = c["probe"].split(":")
                _, r = include_run(W, {**c, "sim": "io.log=1\n"})
                at = [i for i, o in enumerate(r["stats"]["io"]["log"], 1) if o[0] == op and "more" in o[3]]
                if not at:
                    return
                c = {"kind": "include", "sc": c["sc"], "at": c["at"], "sim": f"io.fault={at[0]}:{x}\n"}
            b, r = RUN[c["kind"]](W, c)
            ck.seen({k: v for k, v in c.items() if k != "text"} if c["kind"] != "table" else [c["sc"], c["file"], c["what"], S.digest(c["text"] or "")])
            ck.add(c["kind"] + "_runs")
            if r["code"] != 0:
                ck.add("refused")
            elif WARNING in r["err"]:
                ck.add("announced_substitutions")
            for k, v in r["stats"].get("io", {}).get("faults", {}).items():
                ck.add("fault_" + k, v)
            if b:
                what = c.get("what") or c.get("sim", "").strip().replace("\n", ",")
                key = f"{c['kind']}:{c.get('file', '')}:{what if c['kind'] in ('setting', 'name', 'table') else b[:50]}"
                ck.violation(key[:120], f"[{c['sc']}] {c.get('file', '')} {what}: {b}", c)
        S.pmap(one, todo, stop=lambda: S.elapsed() > (70 if quick else 2400) or len(ck.viol) > 40)

        # D
        base, _ = py_base(H)
        if base[0] != "ok":
            ck.violation("py:base", f"from_file fails without any fault: {base}", {"kind": "py", "cfg": PYCFG, "files": {f"b{i}.dat": K.bias_text(i) for i in range(3)}, "good": True})
        else:
            pj = list(py_cases(S.rng("c15p"), 2 if quick else 20))
            _, r = py_run(H, {"cfg": PYCFG, "files": {f"b{i}.dat": K.bias_text(i) for i in range(3)}, "sim": "io.log=1\n", "log": True})
            files = {f"b{i}.dat": K.bias_text(i) for i in range(3)}
            lg = r["info"]["sim"]["io"]["log"]
            for i, o in enumerate(lg, 1):
                for x in ("eio", "enoent", "eacces", "emfile", "eintr", "short"):
                    for st in ("",) if quick else ("", ":s"):
                        pj.append({"kind": "py", "cfg": PYCFG, "files": files, "good": False, "fault": True, "sim": f"io.fault={i}:{x}{st}\n", "what": f"{x} at operation {i}"})
            for n in (1, 3, 50):
                pj.append({"kind": "py", "cfg": PYCFG, "files": files, "good": False, "fault": True, "sim": f"io.read_chunk={n}\n", "what": f"reads of {n} bytes"})
            S.rng("c15q").shuffle(pj)
            start = S.elapsed()

            def pone(c):
                b = py_judge(H, c, base[1])
                ck.seen(["py", c["what"], S.digest([c["cfg"], c["files"]])])
                ck.add("load_runs")
                if b:
                    ck.violation(("py:" + c["what"])[:120], f"[from_file] {c['what']}: {b}", c)
            S.pmap(pone, pj, stop=lambda: S.elapsed() > start + (40 if quick else 900) or len(ck.viol) > 40)
            ck.add("from_file_input_operations", len(lg))
        ck.cov["runs"] = W.C.runs
        ck.sample(["fault", "corr-bias", "3:eio"])
        ck.sample(["setting", "avg", "z_min left out"])
        ck.sample(["table", "covm-rsd-bias1", "b0.dat", "one column"])
        ck.assumptions = ["a number where a list is needed is a list of one, and whole numbers and decimals stand for each other, as in the program's documentation",
                          "what a cut leaves that is still complete (a table that ends after a whole row, a number that is still a number) is not damage anybody could see",
                          "names of unknown contributions and empty lists of contributions are accepted"]
    finally:
        W.close()
        H.close()
    return ck.finish()


def replay(H, case):
    if case["kind"] == "py":
        HH = hist.Hist("c15r", 1)
        try:
            base, _ = py_base(HH)
            b = py_judge(HH, case, base[1] if base[0] == "ok" else None)
        finally:
            HH.close()
    else:
        W = World("c15r")
        try:
            b, _ = RUN[case["kind"]](W, case)
        finally:
            W.close()
    if b:
        print("  " + b)
    return bool(b)
