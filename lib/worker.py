"""Runs inside the simulated process (libsimrt preloaded, coffe importable).

Reads one JSON job per line on fd 3 and answers one JSON line per job on fd 4.
Every job runs in a forked child, so that each one starts from the same
process image and a process death is an outcome like any other.
"""
import ctypes
import gc
import json
import os
import select
import shutil
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
import coffe  # noqa: E402
from coffe import Coffe  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
LIB = ctypes.CDLL(None)
MOD = ctypes.CDLL(sys.modules["coffe.coffe"].__file__)
FFTW = ctypes.CDLL("libfftw3.so.3")
for _n in ("sim_mem_live",):
    LIB.sim_mem_live.restype = ctypes.c_long
LIB.sim_mem_mark.restype = ctypes.c_uint32
LIB.sim_mem_eligible.restype = ctypes.c_ulong
LIB.sim_mem_failed.restype = ctypes.c_ulong
LIB.sim_mem_live.argtypes = [ctypes.c_uint32, ctypes.c_char_p, ctypes.c_long]
LIB.sim_io_ops.restype = ctypes.c_long
LIB.sim_io_fired.restype = ctypes.c_long
LIB.sim_region_count.restype = ctypes.c_ulong


def sim_config(text):
    LIB.sim_config(text.encode())


def sim_stats():
    b = ctypes.create_string_buffer(1 << 21)
    LIB.sim_stats(b, len(b))
    return json.loads(b.value.decode(errors="replace"))


def provider(at, kind):
    MOD.sim_provider_config(ctypes.c_long(at), ctypes.c_long(kind))


# ------------------------------------------------------------------ values
class PartWay:
    """A sequence that raises part-way through being read."""

    def __init__(self, vals, after, exc, length=True):
        self.vals, self.after, self.exc = vals, after, exc

    def __len__(self):
        return len(self.vals)

    def _at(self, i):
        if i >= self.after:
            raise {"ValueError": ValueError, "TypeError": TypeError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
                   "KeyboardInterrupt": KeyboardInterrupt}[self.exc]("injected")
        return self.vals[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self._at(j) for j in range(*i.indices(len(self.vals)))]
        if i < 0:
            i += len(self.vals)
        if i >= len(self.vals):
            raise IndexError
        return self._at(i)

    def __iter__(self):
        for i in range(len(self.vals)):
            yield self._at(i)

    def __array__(self, dtype=None, copy=None):
        # conversions in bulk see the values; item access is what fails
        return np.array(self.vals, dtype=dtype)


class BadIter:
    def __init__(self, exc):
        self.exc = exc

    def __iter__(self):
        raise ValueError("injected")


class Num:
    """Compares like a number, but converting it fails."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, o): return self.v < o
    def __gt__(self, o): return self.v > o
    def __le__(self, o): return self.v <= o
    def __ge__(self, o): return self.v >= o
    def __eq__(self, o): return self.v == o
    def __hash__(self): return 1
    def __float__(self): raise ValueError("injected")
    def __int__(self): raise ValueError("injected")
    def __bool__(self): raise ValueError("injected")


class FloatSub(float):
    """Any float subclass is a float."""


class BoolBomb:
    def __bool__(self):
        raise RuntimeError("injected")


def dec(v, ex=None):
    if isinstance(v, list):
        return [dec(x, ex) for x in v]
    if isinstance(v, dict):
        t = v["$"]
        if t == "nan":
            return float("nan")
        if t == "inf":
            return float("inf") * v.get("s", 1)
        if t == "none":
            return None
        if t == "str":
            return v["v"]
        if t == "tuple":
            return tuple(dec(v["v"]))
        if t == "np":
            return getattr(np, v["t"])(v["v"])
        if t == "arr":
            return np.array(v["v"], dtype=v.get("t"))
        if t == "partway":
            return PartWay(dec(v["v"]), v["after"], v["exc"])
        if t == "gen":
            return (x for x in dec(v["v"]))
        if t == "badgen":
            def g():
                for i, x in enumerate(v["v"]):
                    if i >= v["after"]:
                        raise RuntimeError("injected")
                    yield x
            return g()
        if t == "reenter":
            def h():
                for i, x in enumerate(v["v"]):
                    if i == v["at"]:
                        for op in v["ops"]:
                            ex.nested.append(ex.run(op))
                    yield x
            return h()
        if t == "baditer":
            return BadIter(0)
        if t == "num":
            return Num(v["v"])
        if t == "boolbomb":
            return BoolBomb()
        if t == "obj":
            return object()
        raise KeyError(t)
    return v


def norm(v):
    """JSON-able, numbers as floats."""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    return f"<{type(v).__name__}>"


BULK = {
    "corrfunc_bulk": ("z", "r", "mu"),
    "multipoles_bulk": ("z", "r", "l"),
    "average_multipoles_bulk": ("z_min", "z_max", "r", "l"),
    "covariance_bulk": ("z", "r1", "r2", "l1", "l2"),
    "average_covariance_bulk": ("z_min", "z_max", "r1", "r2", "l1", "l2"),
}
BG = ["comoving_distance", "hubble_rate", "scale_factor", "hubble_rate_conformal", "hubble_rate_conformal_derivative",
      "growth_factor", "growth_rate"]
BIASES = ["galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4", "magnification_bias1", "magnification_bias2",
          "evolution_bias1", "evolution_bias2"]


def writable_settings():
    """Names of the public settings, found on a throw-away object."""
    o = Coffe()
    out = []
    for k in dir(Coffe):
        if k.startswith("_") or k == "parameters":
            continue
        a = getattr(Coffe, k)
        if not hasattr(a, "__set__"):
            continue
        try:
            setattr(o, k, getattr(o, k))
            out.append(k)
        except AttributeError as e:
            # a setter that fails in an odd way is still a setter
            if "not writable" not in str(e) and "no setter" not in str(e) and "can't set" not in str(e):
                out.append(k)
        except Exception:
            out.append(k)
    return out


READABLE = None


def readable():
    return [k for k in dir(Coffe) if not k.startswith("_") and k not in ("parameters",) and hasattr(getattr(Coffe, k), "__set__")]


class Exec:
    def __init__(self):
        self.o = {}
        self.nested = []
        self.hook = None

    def query(self, c, out, a):
        if out in BULK:
            res = getattr(c, "compute_" + out)(**a)
            return [[getattr(x, f) for f in BULK[out]] + [x.value] for x in res]
        if out == "corrfunc":
            return c.compute_corrfunc(**a)
        if out == "multipole":
            return c.compute_multipole(**a)
        if out == "integral":
            return c.integral(**a)
        if out == "pkz":
            return c.power_spectrum(**a)
        if out == "cross":
            return c.cross_spectrum(**a)
        if out == "bg":
            return [getattr(c, f)(a["z"]) for f in BG]
        if out in BG:
            return getattr(c, out)(a["z"])
        if out == "maxsep":
            return c.maximum_separation(a["z_mean"], a["deltaz"])
        raise KeyError(out)

    def do(self, op):
        k = op[0]
        o = self.o
        if k == "new":
            kw = {n: dec(v, self) for n, v in (op[2] if len(op) > 2 else {}).items()}
            o[op[1]] = None
            o[op[1]] = Coffe(**kw)
            return None
        if k == "del":
            o.pop(op[1], None)
            gc.collect()
            return None
        if k == "prov":
            provider(op[1], op[2])
            return None
        if k == "load":
            o[op[1]] = Coffe.from_file(op[2])
            return None
        if k == "sim":
            sim_config(op[1].replace("@CWD@", os.getcwd()))
            return None
        if k == "fs":
            return fs_op(op[1:])
        c = o[op[1]]
        if k == "set":
            setattr(c, op[2], dec(op[3], self))
            return None
        if k == "setm":
            c.set_parameters(**{n: dec(v, self) for n, v in op[2].items()})
            return None
        if k == "bias":
            getattr(c, "set_" + op[2])(dec(op[3], self), dec(op[4], self))
            return None
        if k == "pk":
            c.set_power_spectrum_linear(dec(op[2], self), dec(op[3], self))
            return None
        if k == "reset":
            c.reset_contributions()
            return None
        if k == "get":
            return norm(getattr(c, op[2]))
        if k == "all":
            return {n: norm(getattr(c, n)) for n in readable()}
        if k == "params":
            return {n: norm(v) for n, v in c.parameters.items()}
        if k == "bv":
            return norm(getattr(c, op[2])(dec(op[3])))
        if k == "bt":
            return [norm(getattr(c, op[2] + "_redshifts")()), norm(getattr(c, op[2] + "_values")())]
        if k == "allb":
            return {b: [norm(getattr(c, b + "_redshifts")()), norm(getattr(c, b + "_values")())] for b in BIASES}
        if k == "save":
            c.to_file(op[2])
            return None
        if k == "q":
            a = {n: dec(v, self) for n, v in (op[3] if len(op) > 3 else {}).items()}
            return norm(self.query(c, op[2], a))
        raise KeyError(k)

    def run(self, op):
        try:
            r = ["ok", self.do(op)]
        except KeyError as e:
            if e.args and e.args[0] == op[1] and op[1] not in self.o:
                return ["gone", None]
            r = ["exc", type(e).__name__, str(e)[:200]]
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, SystemExit):
                raise
            r = ["exc", type(e).__name__, str(e)[:200]]
        return r


def fs_op(a):
    if a[0] == "write":
        with open(a[1], "wb") as f:
            f.write(a[2].encode("latin-1"))
        return None
    if a[0] == "read":
        with open(a[1], "rb") as f:
            return f.read().decode("latin-1")
    if a[0] == "unlink":
        os.unlink(a[1])
        return None
    if a[0] == "exists":
        return os.path.exists(a[1])
    raise KeyError(a[0])


# ------------------------------------------------------------------ process state
def proc_state(deep=True):
    import locale
    import random
    s = {}
    LIB.gsl_set_error_handler.restype = ctypes.c_void_p
    LIB.gsl_set_error_handler.argtypes = [ctypes.c_void_p]
    h = LIB.gsl_set_error_handler(None)
    LIB.gsl_set_error_handler(h)
    s["gsl_handler"] = h or 0
    s["fenv"] = LIB.sim_fenv()
    s["cwd"] = os.getcwd()
    LIB.setlocale.restype = ctypes.c_char_p
    s["locale"] = (LIB.setlocale(6, None) or b"").decode()
    s["umask"] = [l for l in open("/proc/self/status").read().split("\n") if l.startswith(("Umask", "SigBlk", "SigIgn", "SigCgt", "Threads"))]
    s["signals"] = [str(signal.getsignal(i)) for i in range(1, 32) if i not in (9, 19)]
    b = ctypes.create_string_buffer(256)
    sg = []
    for i in range(1, 65):
        if LIB.sigaction(i, None, b) == 0:
            sg.append(b.raw[:16].hex() + b.raw[136:140].hex())
    s["sigaction"] = [f"{k + 1}:{v}" for k, v in enumerate(sg) if v.strip("0")]
    s["alarm"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    s["pyrandom"] = hash(random.getstate())
    st = np.random.get_state()
    s["nprandom"] = (st[0], hash(st[1].tobytes()), st[2], st[3], st[4])
    s["nperr"] = sorted(np.geterr().items())
    s["warnings"] = repr(warnings.filters)
    s["streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.displayhook))
    fds = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            fds[int(f)] = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            pass
    s["fds"] = sorted((k, v) for k, v in fds.items() if "/proc/" not in v)
    import fcntl
    s["fdflags"] = [fcntl.fcntl(i, fcntl.F_GETFL) for i in (0, 1, 2) if i in fds]
    s["syspath"] = tuple(sys.path)
    s["recursion"] = sys.getrecursionlimit()
    s["gc"] = gc.isenabled()
    import resource
    s["rlimits"] = [resource.getrlimit(i) for i in range(16)]
    s["omp"] = LIB.omp_get_max_threads()
    try:
        s["oserrno"] = locale.getlocale()[1]
    except Exception:
        s["oserrno"] = "?"
    # the C library's generator: same seed before and after gives the same next draw
    return json.loads(json.dumps(s))


class Watch:
    """Process-wide state around every op (C10)."""

    def __init__(self):
        self.bad = []

    def before(self):
        LIB.srand(1234567)
        LIB.srandom(7654321)
        LIB.srand48(99)
        self.s = proc_state()

    def after(self, i, op):
        t = proc_state()
        LIB.srand.restype = None
        first = LIB.rand()
        LIB.srand(1234567)
        LIB.srandom(7654321)
        LIB.srand48(99)
        d48 = LIB.lrand48
        d48.restype = ctypes.c_long
        want = LIB.rand()
        if first != want:
            self.bad.append([i, "crandom", str(want), str(first)])
        for k in t:
            if t[k] != self.s.get(k):
                self.bad.append([i, k, str(self.s.get(k))[:300], str(t[k])[:300]])
        self.s = t


KEEP = []


def host_setup(h):
    """What the host program did to its process before it called the library."""
    if h.get("gsl") == "off":
        LIB.gsl_set_error_handler_off()
    elif h.get("gsl") == "own":
        cb = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int)(lambda *a: None)
        KEEP.append(cb)
        LIB.gsl_set_error_handler.argtypes = [ctypes.c_void_p]
        LIB.gsl_set_error_handler(ctypes.cast(cb, ctypes.c_void_p))
    if "fe" in h:
        ctypes.CDLL("libm.so.6").fesetround(h["fe"])
    if "umask" in h:
        os.umask(h["umask"])
    if h.get("sigpipe"):
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        signal.signal(signal.SIGUSR1, lambda *a: None)
    if "stdin" in h:
        os.close(0)
    if "stdout" in h:
        os.close(1)
    if "nproc" in h:
        sim_config(f"omp.max_threads={h['nproc']}\n")


# ------------------------------------------------------------------ jobs
def run_history(ops, emit, ex=None, watch=None, memcheck=False):
    ex = ex or Exec()
    for i, op in enumerate(ops):
        ex.nested = []
        if watch:
            watch.before()
        r = ex.run(op)
        if watch:
            n = len(watch.bad)
            watch.after(i, op)
            for b in watch.bad[n:]:
                emit({"watch": b})
        if ex.nested:
            r = r + [{"nested": ex.nested}]
        emit({"i": i, "r": r})
    return ex


def child_main(job, fd, ex=None, final=True):
    out = os.fdopen(os.dup(fd), "w")

    def emit(x):
        out.write(json.dumps(x) + "\n")
        out.flush()

    mode = job.get("mode", "history")
    if job.get("cwd"):
        os.chdir(job["cwd"])
    if job.get("env"):
        for k, v in job["env"].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()
    if job.get("locale"):
        import locale
        locale.setlocale(locale.LC_ALL, job["locale"])
    if job.get("host"):
        host_setup(job["host"])
    if job.get("sim"):
        sim_config(job["sim"])
    if mode == "settings":
        emit({"i": 0, "r": ["ok", [writable_settings(), readable()]]})
    elif mode == "history":
        w = Watch() if job.get("watch") else None
        mark = LIB.sim_mem_mark()
        ex = run_history(job["ops"], emit, ex, w)
        info = {}
        if job.get("leak"):
            ex.o.clear()
            ex.nested = []
            gc.collect()
            FFTW.fftw_cleanup()        # the planner's own cache is not memory of the object
            LIB.sim_mem_check()
            LIB.sim_mem_drain()
            b = ctypes.create_string_buffer(1 << 16)
            n = LIB.sim_mem_live(mark, b, len(b))
            info["leaks"] = n
            info["leaktext"] = b.value.decode(errors="replace")[:4000]
        if job.get("regions"):
            info["regions"] = LIB.sim_region_count()
        if job.get("seen"):
            a = (ctypes.c_uint64 * 20000)()
            n = LIB.sim_seen_hashes(a, 20000)
            info["seen"] = [f"{a[i]:x}" for i in range(n)]
        if job.get("trace"):
            b = ctypes.create_string_buffer(1 << 21)
            LIB.sim_omp_trace(b, len(b))
            info["trace"] = b.value.decode(errors="replace")
        info["provider"] = [MOD.sim_provider_calls(), MOD.sim_provider_failures()]
        if final and job.get("stats", True):
            info["sim"] = sim_stats()
        emit({"end": info})
    out.flush()


def spawn(fn, timeout):
    """Run fn(fd) in a forked child; returns (lines, ending)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            fn(w)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 1
        except BaseException:  # noqa: BLE001
            import traceback
            os.write(w, (json.dumps({"harness": traceback.format_exc()[-2000:]}) + "\n").encode())
            code = 96
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + timeout
    end = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            end = ["timeout"]
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if end is None:
        if os.WIFSIGNALED(st):
            end = ["died", -os.WTERMSIG(st)]
        else:
            end = ["exit", os.WEXITSTATUS(st)]
    lines = []
    for ln in buf.decode(errors="replace").split("\n"):
        if ln:
            try:
                lines.append(json.loads(ln))
            except ValueError:
                pass
    return lines, end


def collect(lines, end, n):
    """Outcome list: one per op; a death is charged to the op that was running."""
    outs = []
    info = {}
    for ln in lines:
        if "i" in ln:
            outs.append(ln["r"])
        elif "end" in ln:
            info.update(ln["end"])
        elif "harness" in ln:
            return {"harness": ln["harness"], "out": outs}
        elif "watch" in ln:
            info.setdefault("watch", []).append(ln["watch"])
        elif "sub" in ln:
            info.setdefault("sub", []).append(ln["sub"])
    if len(outs) < n and end != ["exit", 0]:
        outs.append(["died", end[1]] if len(end) > 1 else ["timeout"])
    return {"out": outs, "info": info, "end": end}


COUNT = [0]


def handle(job):
    """Every job has a directory of its own (nothing is left of it afterwards)."""
    if job.get("cwd"):
        return handle1(job)
    COUNT[0] += 1
    d = os.path.join(os.getcwd(), f"job-{os.getpid()}-{COUNT[0]}")
    os.mkdir(d)
    try:
        return handle1({**job, "cwd": d})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def handle1(job):
    if job.get("mode") == "tree":
        # run the prefix once, fork once per suffix
        def warm(fd):
            os.chdir(job["cwd"])
            if job.get("sim"):
                sim_config(job["sim"])
            o = os.fdopen(os.dup(fd), "w")

            def emit(x):
                o.write(json.dumps(x) + "\n")
                o.flush()
            ex = run_history(job["prefix"], emit)
            subs = job["suffixes"]
            for s in subs:
                sj = {"ops": s, "stats": False}
                lines, end = spawn(lambda f: child_main(sj, f, ex, False), job.get("timeout", 60))
                emit({"sub": collect(lines, end, len(s))})
            emit({"end": {}})
        lines, end = spawn(warm, job.get("timeout", 60) * (1 + len(job["suffixes"])))
        return collect(lines, end, len(job["prefix"]))
    lines, end = spawn(lambda fd: child_main(job, fd), job.get("timeout", 60))
    return collect(lines, end, len(job.get("ops", [0])))


def main():
    cmd = os.fdopen(3, "r")
    rep = os.fdopen(4, "w")
    for ln in cmd:
        job = json.loads(ln)
        res = handle(job)
        rep.write(json.dumps(res) + "\n")
        rep.flush()


if __name__ == "__main__":
    main()
