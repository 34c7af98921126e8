"""Reference model of a Coffe object: just its current settings, biases and power spectrum."""
import copy

LISTS = ["sep", "mu", "l", "z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky",
         "covariance_populations"]
BOOLS = ["has_density", "has_rsd", "has_lensing", "has_d1", "has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5",
         "has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal", "has_only_cross_correlations",
         "covariance_cosmic", "covariance_mixed", "covariance_poisson", "has_binned_covariance", "verbose"]
ENUMS = {
    "pk_type": ["linear", "linear_class", "halofit", "hmcode"],
    "integration_1d_type": ["gsl", "exponential"],
    "covariance_integration_method": ["standard", "fftlog"],
    "covariance_interpolation_method": ["bilinear", "bicubic"],
}
# contributions whose integrals diverge: an order of magnitude slower
DIVERGENT = ["has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"]
ENUM_INT = {  # the integer spelling of the values
    "pk_type": [0, 1, 2, 3],
}
BIASES = ["galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4", "magnification_bias1", "magnification_bias2",
          "evolution_bias1", "evolution_bias2"]
DENS = ["omega_m", "omega_baryon", "omega_cdm", "omega_gamma", "m_ncdm", "h"]
# settings after whose change a user-supplied power spectrum may legitimately be gone: the
# spectrum belonged to another cosmology, k range or spectrum type
COSMO = ["omega_m", "omega_baryon", "omega_cdm", "omega_gamma", "m_ncdm", "h", "w0", "wa", "n_s", "sigma8", "A_s", "T_cmb", "N_ur", "YHe",
         "N_ncdm", "k_min", "k_max", "pk_type", "k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k",
         "l_max_g", "l_max_ur", "tol_perturb_integration", "radiation_streaming_trigger_tau_over_tau_k",
         "ur_fluid_trigger_tau_over_tau_k"]
# ... and settings whose setter drops every derived quantity, the user's spectrum included, in the shipped code
WIPES = COSMO + ["has_d1", "has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5", "integration_1d_type", "integration_1d_prec",
                 "background_sampling", "integrals_fftlog_sampling", "has_flatsky_nonlocal"]

# filled in from the program under test: what a fresh object reads
DEFAULTS = {}


def plain(v):
    """The plain value of an encoded one."""
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict) and "$" in v:
        return plain(v["v"])
    return v


OUT_ORDER = ["bg", "maxsep", "pkz", "cross", "integral", "corrfunc", "multipole", "corrfunc_bulk", "multipoles_bulk",
             "average_multipoles_bulk", "covariance_bulk", "average_covariance_bulk"]


def queries(cfg=None):
    """The canonical set of questions asked of an object."""
    q = [["q", "a", "bg", {"z": 0.7}], ["q", "a", "maxsep", {"z_mean": 1.0, "deltaz": 0.15}],
         ["q", "a", "pkz", {"k": 0.02, "z": 0.5}], ["q", "a", "cross", {"k": 0.05, "z1": 0.4, "z2": 1.1}],
         ["q", "a", "integral", {"r": 70.0, "n": 0, "l": 2}],
         ["q", "a", "corrfunc", {"z": 1.0, "r": 80.0, "mu": 0.3}], ["q", "a", "multipole", {"z": 1.0, "r": 60.0, "l": 2}],
         ["q", "a", "corrfunc_bulk"], ["q", "a", "multipoles_bulk"], ["q", "a", "average_multipoles_bulk"],
         ["q", "a", "covariance_bulk"], ["q", "a", "average_covariance_bulk"]]
    return q


BASE = {"background_sampling": 120, "integration_sampling": 400, "covariance_integration_sampling": 600,
        "sep": [60.0, 120.0], "mu": [0.0, 0.6], "l": [0, 2], "z_mean": [0.9], "deltaz": [0.1], "z_min": [0.8], "z_max": [1.0],
        "number_density1": [1e-3], "number_density2": [2e-3], "pixelsize": [40.0], "fsky": [0.2],
        "k_min": 1e-5, "k_max": 10.0, "has_density": True, "has_rsd": True,
        "integration_1d_type": "exponential"}


def cfg(name):
    """Named starting configurations: (settings, biases, user spectrum)."""
    s = dict(BASE)
    x = [0.0, 0.6, 1.0, 1.5, 3.0, 6.0, 10.0]
    b = {"galaxy_bias1": [x, [1.1, 1.3, 1.5, 1.7, 2.2, 3.0, 4.0]], "galaxy_bias2": [x, [1.3, 1.35, 1.4, 1.5, 1.9, 2.4, 3.0]],
         "galaxy_bias3": [x, [1.2, 1.4, 1.45, 1.6, 1.7, 1.9, 2.0]], "galaxy_bias4": [x, [1.6, 1.4, 1.3, 1.25, 1.2, 1.9, 2.6]],
         "magnification_bias1": [x, [0.2, 0.4, 0.5, 0.6, 0.8, 0.9, 1.0]], "magnification_bias2": [x, [0.1, 0.3, 0.4, 0.7, 0.9, 1.0, 1.1]],
         "evolution_bias1": [x, [0.3, 0.4, 0.5, 0.8, 0.9, 0.95, 1.0]], "evolution_bias2": [x, [0.6, 0.3, 0.2, 0.3, 0.4, 0.8, 1.0]]}
    pk = None
    if name == "local":
        pass
    elif name == "lensing":
        s.update(has_lensing=True)
    elif name == "flat":
        s.update(has_lensing=True, has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True)
    elif name == "doppler":
        s.update(has_d1=True)
    elif name == "doppler2":
        s.update(has_d1=True, has_d2=True)
    elif name == "potential":
        s.update(has_d1=True, has_g1=True, has_g2=True, has_g3=True)
    elif name == "integrated":
        s.update(has_g4=True, has_g5=True, has_lensing=True, integration_sampling=200)
    elif name == "fftlog":
        s.update(covariance_integration_method="fftlog", covariance_integration_sampling=600)
    elif name == "binned":
        s.update(has_binned_covariance=True)
    elif name == "userpk":
        pk = table(0)
    elif name == "userpk_flat":
        s.update(has_lensing=True, has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True)
        pk = table(0)
    elif name == "userpk_halofit":
        s["pk_type"] = "halofit"
        pk = table(1)
    elif name == "halofit":
        s["pk_type"] = "halofit"
    elif name == "crossonly":
        s.update(has_only_cross_correlations=True, has_d1=True)
    elif name == "twobins":
        s.update(z_mean=[0.9, 1.3], deltaz=[0.1, 0.15], z_min=[0.8, 1.2], z_max=[1.0, 1.4], number_density1=[1e-3, 5e-4],
                 number_density2=[2e-3, 7e-4], pixelsize=[40.0, 40.0], fsky=[0.2, 0.3])
    elif name == "gsl1d":
        s["integration_1d_type"] = "gsl"
    elif name == "neutrino":
        s["m_ncdm"] = 0.3
    elif name == "default":
        s, b = {}, {}
    else:
        raise KeyError(name)
    return s, b, pk


def table(i):
    """A user power spectrum: k range inside what k_min and k_max accept."""
    k0, k1 = [(1e-5, 10.0), (2e-5, 8.0), (1e-5, 12.0)][i % 3]
    n = 90
    k = [k0 * (k1 / k0) ** (j / (n - 1)) for j in range(n)]
    k[0], k[-1] = k0, k1
    p = [(2.2e4 + 900 * i) * (x / 0.02) / (1 + (x / 0.02) ** (2.3 + 0.1 * i)) for x in k]
    return [k, p]


class Model:
    """Expected state of one object."""

    def __init__(self):
        self.s = {}           # settings that were given a value (normalised)
        self.b = {}           # bias tables
        self.pk = [None]      # admissible power spectra: None (external provider) or a table
        self.order = 0

    def clone(self):
        return copy.deepcopy(self)

    def key(self, pk):
        return [sorted(self.s.items()), sorted(self.b.items()), pk]

    # ---- effect of a successful operation
    def set(self, name, val):
        if name == "omega_cdm":
            d = DEFAULTS
            h, mnu = self.s.get("h", d["h"]), self.s.get("m_ncdm", d["m_ncdm"])
            self.s["omega_m"] = val + self.s.get("omega_baryon", d["omega_baryon"]) + mnu / 93.14 / h / h
        else:
            self.s[name] = plain(val)
        if name in WIPES and self.pk != [None]:
            if None not in self.pk:
                self.pk = self.pk + [None]

    def setpk(self, t):
        self.pk = [t]
        self.s.pop("k_min", None)
        self.s.pop("k_max", None)
        self.s["k_min"], self.s["k_max"] = t[0][0], t[0][-1]

    # ---- recipe for a fresh object in this state
    def fresh(self, name="a", pk=None):
        s = dict(self.s)
        ops = [["new", name]]
        # the independent densities, in a fixed order
        for k in ["h", "omega_gamma", "m_ncdm", "omega_m", "omega_baryon"]:
            if k in s:
                ops.append(["set", name, k, s.pop(k)])
        for k in sorted(s):
            ops.append(["set", name, k, s[k]])
        for b in sorted(self.b):
            ops.append(["bias", name, b, self.b[b][0], self.b[b][1]])
        if pk is not None:
            ops.append(["pk", name, pk[0], pk[1]])
        return ops


def from_cfg(name):
    m = Model()
    s, b, pk = cfg(name)
    m.s = {k: v for k, v in s.items()}
    m.b = dict(b)
    if pk is not None:
        m.setpk(pk)
        m.s["k_min"], m.s["k_max"] = pk[0][0], pk[0][-1]
    return m


def _near(r, lo, hi):
    return round(r.uniform(lo, hi), 6)


def gen_value(r, name, m, nz=None, nm=None):
    """A valid value for a setting (JSON form)."""
    nz = nz if nz is not None else len(m.s.get("z_mean", [1]))
    na = nm if nm is not None else len(m.s.get("z_min", [1]))
    if name in BOOLS:
        return r.random() < 0.5
    if name in ENUMS:
        return r.choice(ENUMS[name])
    if name == "sep":
        return sorted(_near(r, 20, 250) for _ in range(r.choice([1, 2, 2, 3])))
    if name == "mu":
        return [_near(r, -0.95, 0.95) for _ in range(r.choice([1, 2, 3]))]
    if name == "l":
        return r.choice([[0], [2], [0, 2], [4, 0], [0, 2, 4], [1, 3], [2, 0]])
    if name in ("z_mean",):
        return sorted(_near(r, 0.5, 1.6) for _ in range(nz))
    if name == "deltaz":
        return [_near(r, 0.05, 0.3) for _ in range(nz)]
    if name == "z_min":
        return [_near(r, 0.5, 0.95) for _ in range(na)]
    if name == "z_max":
        return [_near(r, 1.0, 1.6) for _ in range(na)]
    if name in ("number_density1", "number_density2"):
        return [_near(r, 1e-4, 1e-2) for _ in range(nz)]
    if name == "pixelsize":
        return [_near(r, 20, 60) for _ in range(nz)]
    if name == "fsky":
        return [_near(r, 0.05, 1) for _ in range(nz)]
    if name == "covariance_populations":
        return [r.choice([1, 2, 3, 4]) for _ in range(4)]
    rngs = {"omega_m": (0.2, 0.45), "omega_baryon": (0.02, 0.1), "omega_cdm": (0.15, 0.35), "omega_gamma": (5e-5, 5e-3), "h": (0.5, 0.9),
            "w0": (-1.2, -0.8), "wa": (-0.2, 0.2), "n_s": (0.9, 1.02), "sigma8": (0.6, 1.0), "A_s": (1e-9, 3e-9), "T_cmb": (2.6, 2.8),
            "N_ur": (0.0, 4.0), "m_ncdm": (0.0, 0.6), "YHe": (0.2, 0.3), "k_min": (5e-6, 2e-5), "k_max": (5.0, 20.0),
            "integration_1d_prec": (1e-6, 1e-3), "k_per_decade_for_bao": (50, 90), "k_per_decade_for_pk": (5, 40),
            "start_large_k_at_tau_h_over_tau_k": (0.01, 0.1), "tol_perturb_integration": (1e-6, 1e-4),
            "radiation_streaming_trigger_tau_over_tau_k": (40, 250), "ur_fluid_trigger_tau_over_tau_k": (15, 60)}
    if name in rngs:
        lo, hi = rngs[name]
        v = lo + (hi - lo) * r.random()
        return float(f"{v:.6g}")
    if name == "N_ncdm":
        return r.choice([0, 1, 2, 3])
    if name in ("l_max_g", "l_max_ur"):
        return r.randint(10, 60)
    if name == "background_sampling":
        return r.choice([100, 150, 200])
    if name == "integration_sampling":
        return r.choice([300, 400, 700])
    if name == "covariance_integration_sampling":
        return r.choice([400, 600, 900])
    if name == "integrals_fftlog_sampling":
        return r.choice([2000, 4000, 9000])
    if name.startswith("has_") or name.startswith("covariance_"):
        return r.random() < 0.5
    return None


def gen_bias(r):
    n = r.choice([4, 5, 8])
    x = sorted({0.0, 10.0, *[round(r.uniform(0.2, 6), 4) for _ in range(n)]})
    return [x, [round(r.uniform(0.6, 2.6), 5) for _ in x]]


def apply(m, op, ok):
    """Update the model with an operation and whether it succeeded."""
    if not ok:
        return
    k = op[0]
    if k == "set":
        m.set(op[2], op[3])
    elif k == "setm":
        for n, v in op[2].items():
            m.set(n, v)
    elif k == "new" and len(op) > 2:
        for n, v in op[2].items():
            m.set(n, v)
    elif k == "bias":
        m.b[op[2]] = [list(op[3]), list(op[4])]
    elif k == "pk":
        m.setpk([list(op[2]), list(op[3])])
    elif k == "reset":
        for b in BOOLS:
            if b.startswith("has_"):
                m.set(b, False)
