"""Builds the simulated system from /repo's working tree (content-addressed, below /verif/_work)."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "_work")
VENV = "/opt/coffe-venv/bin"
PY = f"{VENV}/python"
SIMFLAGS = ("-O2 -g1 -fPIC -fno-omit-frame-pointer -fno-optimize-sibling-calls -fvisibility=hidden "
            "-Wno-builtin-declaration-mismatch -Wno-attributes -Wno-format-truncation -Wno-nonnull-compare").split()
# the flags of /opt/vp/build.sh's CMake configuration (Release, OpenMP, COFFE_ENABLE_MATHOPTS)
SHIPPED = ['-DPACKAGE_STRING=""', "-fopenmp", "-O3", "-DNDEBUG", "-std=gnu99", "-ffast-math", "-fPIC",
           "-fno-omit-frame-pointer", "-w", "-g1"]
SCHED = ['-DPACKAGE_STRING=""', "-fopenmp", "-O2", "-DNDEBUG", "-std=gnu99", "-ffast-math", "-fPIC",
         "-fno-omit-frame-pointer", "-w", "-g1", "-fsanitize=thread", "-ftls-model=global-dynamic"]
LIBS = ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"]


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, bytes):
            h.update(p)
        else:
            h.update(str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def lib_sources():
    """The library's source list, as CMakeLists.txt gives it."""
    text = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"set\(COFFE_LIB_SOURCES(.*?)\)\s*\n\s*\n", text, re.S) or re.search(r"set\(COFFE_LIB_SOURCES(.*?)\)\n", text, re.S)
    out = re.findall(r"\$\{SRC_DIR\}/([\w./-]+\.c)", m.group(1))
    return out


def cli_sources():
    text = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"add_executable\(coffe-cli(.*?)\)\n", text, re.S)
    return re.findall(r"\$\{SRC_DIR\}/([\w./-]+\.c)", m.group(1))


def _header_state():
    d = f"{REPO}/src"
    return [n + hashlib.sha256(_read(f"{d}/{n}")).hexdigest() for n in sorted(os.listdir(d)) if n.endswith((".h", ".dat"))]


class Builder:
    def __init__(self, jobs=None):
        self.jobs = jobs or os.cpu_count() or 4
        self.cache = os.path.join(WORK, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.hdr = _header_state()
        self.pool = cf.ThreadPoolExecutor(self.jobs)

    def obj(self, src, flags, cc="gcc", inc=(), dep=()):
        """Compile one C file; returns the object's path."""
        key = _hash([src if not src.startswith(WORK) else os.path.basename(src), _read(src), cc, *flags, *inc, *dep])
        out = f"{self.cache}/{os.path.basename(src)}-{key}.o"
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp"
            _run([cc, *flags, *[f"-I{i}" for i in inc], "-c", src, "-o", tmp])
            os.rename(tmp, out)
        return out

    def link(self, name, objs, args, out_name=None):
        key = _hash([*[os.path.basename(o) for o in objs], *args, name])
        d = f"{self.cache}/{name}-{key}"
        out = f"{d}/{out_name or name}"
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            tmp = f"{out}.{os.getpid()}.tmp"
            _run(["gcc", *objs, *args, "-o", tmp])
            os.rename(tmp, out)
        return out

    # ---- pieces
    def f_simrt(self):
        d = f"{VERIF}/simrt"
        dep = [_read(f"{d}/simrt.h")]
        return [self.pool.submit(self.obj, f"{d}/{n}", SIMFLAGS, dep=dep) for n in sorted(os.listdir(d)) if n.endswith(".c")]

    def f_lib(self, flags, names):
        return [self.pool.submit(self.obj, f"{REPO}/src/{n}", flags, inc=[f"{REPO}/src"], dep=self.hdr) for n in names]

    def f_cython(self):
        return self.pool.submit(self._cython)

    def _cython(self):
        p = f"{REPO}/python/coffe"
        srcs = [f"{p}/{n}" for n in sorted(os.listdir(p)) if n.endswith((".pyx", ".pxd"))]
        key = _hash([_read(s) for s in srcs])
        out = f"{self.cache}/coffe-{key}.c"
        if not os.path.exists(out):
            tmp = f"{self.cache}/cy{os.getpid()}"
            os.makedirs(f"{tmp}/coffe", exist_ok=True)
            for s in srcs:
                shutil.copy(s, f"{tmp}/coffe/")
            open(f"{tmp}/coffe/__init__.py", "w").close()
            # transpile.cmake of the project passes the language level only
            _run([f"{VENV}/cython", "-3", "--module-name", "coffe.coffe" if False else "coffe", f"{tmp}/coffe/coffe.pyx", "-o", f"{tmp}/coffe.c"], cwd=tmp)
            os.rename(f"{tmp}/coffe.c", out)
            shutil.rmtree(tmp)
        return self.obj(out, ["-O0", "-g1", "-fPIC", "-w", "-fno-omit-frame-pointer"], inc=[f"{REPO}/src", "/usr/include/python3.12"], dep=self.hdr)

    # ---- products
    def build(self, want):
        """want: subset of {'simrt','hist','pat','sched','cli'}; returns paths."""
        os.makedirs(WORK, exist_ok=True)
        lock = open(f"{WORK}/lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            return self._build(set(want) | {"simrt"})
        finally:
            lock.close()

    def _build(self, want):
        names = lib_sources()
        fs = {}
        if want & {"hist", "sched", "pat"}:
            fs["cy"] = [self.f_cython()]
            fs["stub"] = [self.pool.submit(self.obj, f"{VERIF}/stub/class_stub.c", [f for f in SHIPPED if f != "-ffast-math"], inc=[f"{REPO}/src"], dep=self.hdr)]
        fs["simrt"] = self.f_simrt()
        if want & {"hist", "cli"}:
            fs["lib"] = self.f_lib(SHIPPED, names)
        if "cli" in want:
            fs["main"] = self.f_lib(SHIPPED, cli_sources())
        if "pat" in want:
            # as shipped, with every local variable the source leaves uninitialised holding a marked value
            fs["plib"] = self.f_lib(SHIPPED + ["-ftrivial-auto-var-init=pattern"], names)
        if "sched" in want:
            fs["slib"] = self.f_lib(SCHED, names)
        o = {k: [f.result() for f in v] for k, v in fs.items()}
        out = {}
        simrt = self.link("libsimrt.so", o["simrt"], ["-shared", "-Wl,--no-as-needed", "-lgsl", "-lgslcblas", "-lfftw3", "-lm", "-ldl"])
        out["simrt"] = simrt
        for fl, lib in (("hist", "lib"), ("pat", "plib"), ("sched", "slib")):
            if fl not in want:
                continue
            so = self.link(f"{fl}", o["cy"] + o["stub"] + o[lib], ["-shared", "-Wl,-z,now", simrt, *LIBS],
                           "coffe.cpython-312-x86_64-linux-gnu.so")
            out[fl] = self._package(fl, so)
        if "cli" in want:
            out["cli"] = self.link("coffe-cli", o["main"] + o["lib"], ["-rdynamic", simrt, *LIBS])
        return out

    def _package(self, fl, so):
        p = f"{REPO}/python/coffe"
        pys = [f"{p}/{n}" for n in sorted(os.listdir(p)) if n.endswith(".py")]
        key = _hash([fl, so, *[os.path.basename(s) for s in pys], *[_read(s) for s in pys]])
        d = f"{self.cache}/pkg-{fl}-{key}"
        if not os.path.exists(d):
            tmp = f"{d}.{os.getpid()}"
            os.makedirs(f"{tmp}/coffe")
            for s in pys:
                shutil.copy(s, f"{tmp}/coffe/")
            shutil.copy(so, f"{tmp}/coffe/")
            os.rename(tmp, d)
        return d


def prune(days=2, keep=400):
    """Keep the cache from growing without bound."""
    c = os.path.join(WORK, "cache")
    try:
        ents = sorted((os.path.getmtime(f"{c}/{n}"), n) for n in os.listdir(c))
    except OSError:
        return
    for _, n in ents[:-keep] if len(ents) > keep else []:
        p = f"{c}/{n}"
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


if __name__ == "__main__":
    print(Builder().build(sys.argv[1:] or ["hist", "sched", "cli"]))
