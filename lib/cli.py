"""The command-line program as a simulated process: scenarios, runs, what a run left behind."""
import copy
import hashlib
import math
import os
import shutil
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import simlib as S  # noqa: E402

ALLBG = ["z", "a", "H", "conformal_H", "conformal_H_prime", "D1", "f", "comoving_distance"]
BASE = {
    "verbose": 0, "output_type": 1, "output_background": ALLBG, "background_sampling": 120, "omega_m": 0.3, "omega_baryon": 0.05, "omega_gamma": 9e-5,
    "z_mean": [1.0], "interpolation": 5, "separations_min": 20.0, "separations_max": 60.0, "separations_sampling": 3, "bessel_sampling": 600,
    "integration_method": 2, "integration_sampling": 500, "covariance_integration_method": 1, "w0": -1.0, "wa": 0.0,
    "galaxy_bias1": 1.0, "galaxy_bias2": 1.3, "magnification_bias1": 0.1, "magnification_bias2": 0.2, "evolution_bias1": 0.0, "evolution_bias2": 0.4,
    "correlation_contributions": ["den"], "output_path": "out/", "output_prefix": "p_", "flatsky_local": 0, "flatsky_local_nonlocal": 0, "flatsky_nonlocal": 0,
    "b_derivative": 0, "f_derivative": 0, "b_tilde_derivative": 0, "f_tilde_derivative": 0, "k_min": 1e-4, "k_max": 10.0, "have_window": 0,
    "only_cross_correlations": 0, "input_power_spectrum": "pk.dat",
}
BIASES = [f"{k}_bias{i}" for k in ("galaxy", "magnification", "evolution") for i in (1, 2)]
TYPES = {1: "corrfunc.dat", 2: "multipoles.dat", 3: "average_multipoles.dat", 4: "covariance_multipoles.dat", 5: "covariance_average_multipoles.dat"}
COV = {"density1": [1e-3, 2e-3], "density2": [1e-3, 3e-3], "fsky": [0.3, 0.4], "pixelsize": [10.0, 12.0], "covariance_window": 0}


def pk_text(n=70, comment=True):
    out = ["# k P(k)\n"] if comment else []
    for i in range(n):
        k = 10 ** (-5 + 7.0 * i / (n - 1))
        out.append("%.8e %.8e\n" % (k, 2.2e6 * k / (1 + (k / 0.016) ** 2) ** 1.3 / (1 + (k / 0.12) ** 1.1)))
    return "".join(out)


def bias_text(seed, n=16):
    return "# z b(z)\n" + "".join("%.6f %.6f\n" % (i, 1 + 0.05 * seed + 0.11 * i + 0.01 * math.sin(i + seed)) for i in range(n))


def scenario(name):
    """(settings, files)"""
    s = copy.deepcopy(BASE)
    f = {"pk.dat": pk_text()}
    if name.startswith("corr"):
        s.update(output_type=1, z_mean=[0.8, 1.0], mu=[0.0, 0.7])
    if name.startswith("multi"):
        s.update(output_type=2, multipoles=[0, 2])
    if name.startswith("avg"):
        s.update(output_type=3, multipoles=[0, 2], z_min=[0.9], z_max=[1.1], background_sampling=200)
    if name.startswith("covm"):
        s.update(output_type=4, multipoles=[0, 2], z_mean=[0.8, 1.2], deltaz=[0.1, 0.2], **COV)
    if name.startswith("cova"):
        s.update(output_type=5, multipoles=[0], zmin=[0.7, 1.0], zmax=[0.9, 1.3], **COV)
    part = name.split("-")
    if "rsd" in part:
        s["correlation_contributions"] = ["den", "rsd"]
    if "len" in part:
        s["correlation_contributions"] = ["den", "len"]
    if "dop" in part:
        s["correlation_contributions"] = ["den", "rsd", "d1"]
    if "div" in part:
        s["correlation_contributions"] = ["den", "d2", "g1"]
        s["bessel_sampling"] = 200
    if "flat" in part:
        s.update(flatsky_local=1, flatsky_nonlocal=1, flatsky_local_nonlocal=1, correlation_contributions=["den", "len"])
    if "bias" in part:
        for i, b in enumerate(BIASES):
            s["read_" + b] = 1
            s["input_" + b] = f"b{i}.dat"
            f[f"b{i}.dat"] = bias_text(i)
    if "bias1" in part:
        s["read_galaxy_bias1"] = 1
        s["input_galaxy_bias1"] = "b0.dat"
        f["b0.dat"] = bias_text(0)
    if "time" in part:
        s["output_prefix"] = "$TIME"
    if "deep" in part:
        s["output_path"] = "out/a/b/c"
    if "step" in part:
        s.pop("separations_sampling")
        s["separations_step"] = 20.0
    if "window" in part:
        s.update(have_window=1, window_size=5.0)
    if "mc" in part:
        s["integration_method"] = 0
    if "vegas" in part:
        s["integration_method"] = 1
    if "fftlog" in part:
        s.update(covariance_integration_method=2, covariance_integration_bins=200, covariance_interpolation_method=2, covariance_minimum_separation=5.0)
    if "win" in part:
        s["covariance_window"] = 1
    if "nopk" in part:
        f.pop("pk.dat")
    if "big" in part:
        s.update(background_sampling=1500, separations_sampling=12)
    if "few" in part:
        s["output_background"] = ["z", "H"]
    if "text" in part:
        s["verbose"] = 1
    return s, f


ALL = ["corr-rsd", "multi", "avg", "covm", "cova-fftlog"]
MORE = ["corr-bias", "corr-dop", "multi-deep-few", "multi-bias1-step", "avg-rsd", "covm-win", "covm-rsd-bias1", "cova", "corr-flat", "multi-flat", "multi-window", "corr-nopk",
        "corr-time", "multi-len", "avg-flat", "covm-fftlog", "corr-big", "corr-text"]


def val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        t = repr(v)
        return t if any(c in t for c in ".en") else t + ".0"
    if isinstance(v, str):
        return v[1:] if v.startswith("\0") else '"' + v + '"'      # \0: literal text
    return "[" + ", ".join(val(x) for x in v) + "]"


def text(s):
    return "".join(f"{k} = {val(v)};\n" for k, v in s.items())


def outputs(s):
    """Names of the files the settings call for (fixed prefix)."""
    p = s["output_path"]
    if not p.endswith("/"):
        p += "/"
    return [p + s["output_prefix"] + x for x in ("settings.cfg", "background.dat", TYPES[s["output_type"]])]


def tree(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(a, x), d) + "/"] = ""
        for x in fs:
            if os.path.islink(os.path.join(a, x)):
                continue
            with open(os.path.join(a, x), "rb") as h:
                out[os.path.relpath(os.path.join(a, x), d)] = h.read().decode("latin-1")
    return out


class Cli:
    def __init__(self, name):
        self.paths = B.Builder().build({"cli"})
        self.dir = S.scratch(name)
        self.n = 0
        self.lock = threading.Lock()
        self.runs = 0
        self.base_memo = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh_dir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, f"r{self.n}")
        os.makedirs(d)
        return d

    def put(self, d, s, files, cfg="s.cfg"):
        with open(os.path.join(d, cfg), "wb") as f:
            f.write((s if isinstance(s, str) else text(s)).encode("latin-1"))
        for k, v in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
            with open(os.path.join(d, k), "wb") as f:
                f.write(v.encode("latin-1"))

    def env(self, d, extra=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": d, "LD_PRELOAD": self.paths["simrt"], "SIM_CONFIG": os.path.join(d, ".sim"), "LC_ALL": "C", "TZ": "UTC",
             **S.MALLOC}
        for k, v in (extra or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        return e

    def popen(self, d, sim="", cfg="s.cfg", args=("-n", "1"), env=None, cwd=None, simfile=".sim", pass_fds=(), pre=None, stdin=subprocess.DEVNULL):
        with open(os.path.join(d, simfile), "w") as f:
            f.write(sim.replace("@D@", d) + f"stats={d}/{simfile}.stats\n")
        e = self.env(d, env)
        e["SIM_CONFIG"] = os.path.join(d, simfile)
        with self.lock:
            self.runs += 1
        return subprocess.Popen([self.paths["cli"], "-s", cfg, *args], cwd=cwd or d, env=e, stdin=stdin, stdout=open(os.path.join(d, simfile + ".out"), "wb"),
                                stderr=open(os.path.join(d, simfile + ".err"), "wb"), pass_fds=pass_fds, preexec_fn=pre)

    def finish(self, p, d, simfile=".sim", timeout=120):
        import json
        late = []
        t = threading.Timer(timeout, lambda: (late.append(1), p.kill()))
        t.start()
        code = p.wait()
        t.cancel()
        if late:
            code = "timeout"
        if code in (96, 97):
            raise S.HarnessError("simulator refused: " + open(os.path.join(d, simfile + ".err"), errors="replace").read()[-800:])
        try:
            st = json.load(open(os.path.join(d, simfile + ".stats")))
        except (OSError, ValueError):
            st = {}
        err = open(os.path.join(d, simfile + ".err"), errors="replace").read()
        for x in (simfile, simfile + ".out", simfile + ".err", simfile + ".stats"):
            try:
                os.unlink(os.path.join(d, x))
            except OSError:
                pass
        return {"code": code, "err": err, "stats": st}

    def go(self, d, sim="", **kw):
        t = kw.pop("timeout", 120)
        p = self.popen(d, sim, **kw)
        r = self.finish(p, d, kw.get("simfile", ".sim"), t)
        r["tree"] = tree(d)
        return r

    def once(self, s, files, sim="", **kw):
        """One run in a directory of its own."""
        d = self.fresh_dir()
        try:
            self.put(d, s, files, kw.get("cfg", "s.cfg"))
            keep = kw.pop("before", None)
            if keep:
                keep(d)
            return self.go(d, sim, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def base(self, name):
        """The reference run of a scenario: no faults, one thread, plain memory."""
        with self.lock:
            ent = self.base_memo.setdefault(name, [threading.Lock(), None])
        with ent[0]:
            if ent[1] is None:
                s, f = scenario(name)
                r = self.once(s, f, "seed=1\nio.root=@D@\nio.log=1\n")
                ent[1] = (s, f, r)
        return ent[1]


def results(t, inputs=()):
    """The files of a directory which are not its inputs."""
    return {k: v for k, v in t.items() if k not in inputs and k != "s.cfg"}


def sums(t):
    return {k: hashlib.sha256(v.encode("latin-1")).hexdigest()[:10] + f":{len(v)}" for k, v in t.items()}


def diff(a, b):
    """The first difference between two sets of files."""
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return f"{k} is missing"
        if k not in a:
            return f"{k} is there in addition"
        if a[k] != b[k]:
            x, y = a[k].split("\n"), b[k].split("\n")
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"line {i + 1} of {k} is {q[:90]!r} instead of {p[:90]!r}"
            return f"{k} has {len(y)} lines instead of {len(x)}"
    return None


# ------------------------------------------------------------------ what the library says about the same configuration
CONTRIB = {"den": "has_density", "rsd": "has_rsd", "len": "has_lensing", "d1": "has_d1", "d2": "has_d2", "g1": "has_g1", "g2": "has_g2", "g3": "has_g3", "g4": "has_g4", "g5": "has_g5"}
BULK = {1: "corrfunc_bulk", 2: "multipoles_bulk", 3: "average_multipoles_bulk", 4: "covariance_bulk", 5: "average_covariance_bulk"}


def table(t):
    rows = [[float(x) for x in ln.split()[:2]] for ln in t.split("\n") if ln.strip() and not ln.startswith("#")]
    return [r[0] for r in rows], [r[1] for r in rows]


def comparable(s, files):
    """Whether the library can be given exactly the same configuration."""
    return s["input_power_spectrum"] in files and not s["have_window"] and s["integration_method"] == 2 and s["interpolation"] == 5


def library(s, files):
    """Operations which ask the library for what the program should write: (operations, number of the bulk result, grid of redshifts)."""
    n = s.get("separations_sampling")
    if n is None:
        n = math.ceil((s["separations_max"] - s["separations_min"]) / s["separations_step"])
        step = s["separations_step"]
    else:
        step = (s["separations_max"] - s["separations_min"]) / n
    p = {"background_sampling": s["background_sampling"], "omega_m": s["omega_m"], "omega_baryon": s["omega_baryon"], "omega_gamma": s["omega_gamma"], "w0": s["w0"], "wa": s["wa"],
         "sep": [s["separations_min"] + i * step for i in range(n)], "integrals_fftlog_sampling": s["bessel_sampling"], "integration_sampling": s["integration_sampling"],
         "k_min": s["k_min"], "k_max": s["k_max"], "has_only_cross_correlations": bool(s["only_cross_correlations"]), "has_density": False,
         "has_flatsky_local": bool(s["flatsky_local"]), "has_flatsky_local_nonlocal": bool(s["flatsky_local_nonlocal"]), "has_flatsky_nonlocal": bool(s["flatsky_nonlocal"])}
    for c in s["correlation_contributions"]:
        p[CONTRIB[c]] = True
    for a, b in (("z_mean", "z_mean"), ("mu", "mu"), ("multipoles", "l"), ("deltaz", "deltaz"), ("z_min", "z_min"), ("z_max", "z_max"), ("zmin", "z_min"), ("zmax", "z_max"),
                 ("density1", "number_density1"), ("density2", "number_density2"), ("fsky", "fsky"), ("pixelsize", "pixelsize")):
        if a in s and (s["output_type"] != 5 or b != "z_mean"):
            p[b] = s[a]
    if s["output_type"] == 5:
        p["deltaz"] = [0.1] * len(p["z_min"])
    if "covariance_window" in s:
        p["has_binned_covariance"] = bool(s["covariance_window"])
    if s["covariance_integration_method"] == 2:
        p["covariance_integration_method"] = "fftlog"
        p["covariance_integration_sampling"] = s["covariance_integration_bins"]
        p["covariance_interpolation_method"] = {1: "bilinear", 2: "bicubic"}[s["covariance_interpolation_method"]]
    ops = [["new", "a"], ["setm", "a", p]]
    for b in BIASES:
        if s.get("read_" + b):
            x, y = table(files[s["input_" + b]])
        else:
            x = [0.0, 3.0, 6.0, 9.0, 12.0, 15.0]
            y = [s[b]] * 6
        ops.append(["bias", "a", b, x, y])
    ops.append(["pk", "a", *table(files[s["input_power_spectrum"]])])
    zs = [15.0 * i / (s["background_sampling"] - 1) for i in (0, 1, 2, 5, 17, 40, 77, s["background_sampling"] - 2)]
    return ops + [["q", "a", "bg", {"z": z}] for z in zs] + [["q", "a", BULK[s["output_type"]]]], zs


def rows(t):
    return [ln.split() for ln in t.split("\n") if ln.strip() and not ln.startswith("#")]


def content(s, files, tr, lib, zs):
    """Text if the result files are not what the library says they should be."""
    names = outputs(s)
    for n in names:
        if n not in tr:
            return f"{n} is missing"
    try:
        bulk = lib[-1][1]
        got = [[float(x) for x in r] for r in rows(tr[names[2]])]
        if s["output_type"] == 5:
            got = [[r[4], r[5], r[2], r[3], r[0], r[1], r[6]] for r in got]
        i = {1: 0, 2: 1, 3: 2, 4: 1, 5: 2}[s["output_type"]]
        if s["output_type"] in (2, 3):
            bulk = [[*r[:i], r[i + 1], r[i], r[-1]] for r in bulk]
        if s["output_type"] in (4, 5):
            bulk = [[*r[:i], r[i + 2], r[i + 3], r[i], r[i + 1], r[-1]] for r in bulk]
        tol = 3e-3
        if len(got) != len(bulk):
            return f"{names[2]} has {len(got)} lines of results, the configuration has {len(bulk)}"
        big = max(abs(r[-1]) for r in bulk)
        for i, (a, b) in enumerate(zip(got, bulk)):
            if len(a) != len(b) or not S.same_val(a[:-1], b[:-1], 1e-9, 1e-12):
                return f"result {i + 1} of {names[2]} is labelled {a[:-1]}, it should be {b[:-1]}"
            if not abs(a[-1] - b[-1]) <= tol * abs(b[-1]) + 1e-4 * big:
                return f"result {i + 1} of {names[2]} (at {a[:-1]}) is {a[-1]}, the library gives {b[-1]}"
        head = [ln for ln in tr[names[1]].split("\n") if ln.startswith("#")]
        cols = [x.split(")")[1].split("[")[0] for x in head[0][1:].split()] if head else None
        if cols != s["output_background"]:
            return f"{names[1]} has the columns {cols}, not {s['output_background']}"
        bg = rows(tr[names[1]])
        if len(bg) != s["background_sampling"]:
            return f"{names[1]} has {len(bg)} lines of results, not {s['background_sampling']}"
        order = ["comoving_distance", "H", "a", "conformal_H", "conformal_H_prime", "D1", "f"]
        for z, o in zip(zs, lib[-1 - len(zs):-1]):
            i = round(z * (s["background_sampling"] - 1) / 15.0)
            if len(bg[i]) != len(cols):
                return f"line {i + 1} of {names[1]} has {len(bg[i])} columns"
            ref = dict(zip(order, o[1]))
            ref["z"] = z
            for c, v in zip(cols, bg[i]):
                if not abs(float(v) - ref[c]) <= 1e-6 * abs(ref[c]) + 1e-12:
                    return f"{c} in line {i + 1} of {names[1]} is {v}, the library gives {ref[c]}"
    except ValueError as e:
        return f"a result file holds something which is not a number: {e}"
    t = tr[names[0]]
    for k, v in s.items():
        import re
        m = re.search(r"^%s = (.*?);" % re.escape(k), t, re.M | re.S)
        if not m:
            return f"{names[0]} lacks {k}"
        w = m.group(1).strip().strip("[]").split(",") if isinstance(v, list) else [m.group(1).strip()]
        vs = v if isinstance(v, list) else [v]
        w = [x.strip() for x in w if x.strip()]
        if len(w) != len(vs) or any((x != '"' + y + '"') if isinstance(y, str) else float(x) != float(y) for x, y in zip(w, vs)):
            return f"{names[0]} has {k} = {m.group(1)[:60]}, the settings were {v}"
    return None
