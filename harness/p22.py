"""P22  the power spectrum of a job is that of its cosmology  (Solver.tla)."""
import copy
import json
import math
import os
import re
import shutil
import sys
import tempfile
import types
from fractions import Fraction
from pathlib import Path

import numpy as np

import vlib

# ------------------------------------------------------------------ stand-ins for the Boltzmann codes
WORLD = None        # the world of the running job


class CAMBError(Exception):
    pass


def ini_entries(file):
    d = {}
    for line in Path(file).read_text().splitlines():
        line = line.strip()
        if line and not line.startswith("#") and "=" in line:
            k, v = line.split("=", 1)
            d[k.strip()] = v.strip()
    return d


OLD = ["scalar_amp", "scalar_spectral_index", "scalar_nrun", "scalar_nrunrun", "tensor_spectral_index", "tensor_nrun", "initial_ratio"]


class CAMBparams:
    def __init__(self, d):
        self.d, self.NonLinear = d, "NonLinear_pk"
        self.zs, self.kmax, self.per = [0.], 1.2, None

    def set_matter_power(self, redshifts=(0.,), kmax=1.2, k_per_logint=None, nonlinear=None,
                         accurate_massive_neutrino_transfers=False, silent=False):
        self.zs, self.kmax, self.per = sorted((float(z) for z in redshifts), reverse=True), float(kmax), k_per_logint
        if nonlinear is not None:
            self.NonLinear = "NonLinear_pk" if nonlinear else "NonLinear_none"
        if len(self.zs) > 150:
            raise CAMBError("too many redshifts")
        return self


class CAMBdata:
    def __init__(self, p, only):
        self.p, self.only = copy.deepcopy(p), only

    def get_sigma8_0(self):
        q = WORLD.request(self.p.d)
        WORLD.log.append({"op": "tune", "q": q, "zs": [WORLD.at(z) for z in self.p.zs], "linear": self.p.NonLinear == "NonLinear_none"})
        if sum(e["op"] == "tune" for e in WORLD.log) > 60:
            raise CAMBError("sigma8 does not converge")
        return WORLD.sigma8(float(self.p.d["scalar_amp"]))

    def spectra(self, kind, hubble_units, k_hunit, have, params):
        if params is not None:
            self.p, self.only = copy.deepcopy(params), False
        elif self.only or not have:
            self.only = False
        zs = self.p.zs[::-1]
        ids = WORLD.rows(kind, zs)
        k, P = np.array(WORLD.k), np.array(ids, dtype=float)
        WORLD.log.append({"op": "solve", "kind": kind, "q": WORLD.request(self.p.d), "zs": [WORLD.at(z) for z in zs], "kmax": rat(self.p.kmax),
                          "per": str(self.p.per), "units": "other" if hubble_units or k_hunit else "Mpc", "ids": ids,
                          "nonlinear": self.p.NonLinear == "NonLinear_pk"})
        h = float(self.p.d["hubble"]) / 100
        return (k / h if k_hunit else k), np.array(zs), (P * h ** 3 if hubble_units else P)

    def get_linear_matter_power_spectrum(self, var1=None, var2=None, hubble_units=True, k_hunit=True, have_power_spectra=True,
                                         params=None, nonlinear=False):
        return self.spectra("non" if nonlinear else "lin", hubble_units, k_hunit, have_power_spectra, params)

    def get_nonlinear_matter_power_spectrum(self, var1=None, var2=None, hubble_units=True, k_hunit=True, have_power_spectra=True, params=None):
        return self.spectra("non", hubble_units, k_hunit, have_power_spectra, params)

    def get_matter_transfer_data(self, *a, **k):
        return types.SimpleNamespace(transfer_data=WORLD.transfer)


def read_ini(file, no_validate=False):
    d = ini_entries(file)
    if d.get("use_physical") == "F":
        raise CAMBError("use_physical = F no longer supported")
    for x in OLD:
        if f"{x}(1)" in d:
            if x in d:
                raise CAMBError(f"Must have one of {x} or {x}(1)")
            d[x] = d.pop(f"{x}(1)")
    return CAMBparams(d)


camb = types.ModuleType("camb")
camb.read_ini, camb.CAMBError = read_ini, CAMBError
camb.get_results = lambda p, *a, **k: CAMBdata(p, False)
camb.get_background = lambda p, *a, **k: CAMBdata(p, True)
camb.model = types.SimpleNamespace(NonLinear_none="NonLinear_none", NonLinear_pk="NonLinear_pk", NonLinear_both="NonLinear_both", Transfer_tot=7)


class Class:
    NAMES = ["h", "w0_fld", "wa_fld", "n_s", "sigma8", "m_ncdm", "Omega_b", "Omega_cdm", "Omega_k", "Omega_fld"]

    def __init__(self):
        self.pars, self.done = {}, None

    def set(self, *a, **k):
        for x in (*a, k):
            self.pars.update(x)
        self.done = None
        return True

    def compute(self, *a, **k):
        p = self.done = dict(self.pars)
        val = {n: rat(p.get(n, 99.), 2e-6 if n == "Omega_k" else 1e-9) for n in self.NAMES if n != "m_ncdm"}
        val["m_ncdm"] = rat(p.get("m_ncdm", 0.) / 93.14)
        WORLD.log.append({"op": "asked", "asked": val, "kmax": rat(p["P_k_max_1/Mpc"]), "zmax": WORLD.at(p["z_max_pk"]),
                          "rest": {k: str(v) for k, v in p.items() if k not in (*self.NAMES, "P_k_max_1/Mpc", "z_max_pk")}})
        WORLD.log.append({"op": "read", "lin": WORLD.ids["lin"], "non": WORLD.ids["non"]})

    def value(self, kind, k, z):
        if not self.done or z > self.done["z_max_pk"] * (1 + 1e-9) or k > self.done["P_k_max_1/Mpc"] * (1 + 1e-9):
            raise CAMBError("out of range")
        i = WORLD.at(z)
        j = [j for j, x in enumerate(WORLD.k) if abs(k / x - 1) < 1e-9]
        return float(WORLD.ids[kind][i - 1][j[0]]) if i > 0 and j else 0.

    def pk_lin(self, k, z):
        return self.value("lin", k, z)

    def pk(self, k, z):
        return self.value("non", k, z)


classy = types.ModuleType("classy")
classy.Class, classy.CosmoComputationError = Class, CAMBError
sys.modules["camb"], sys.modules["camb.model"], sys.modules["classy"] = camb, camb.model, classy

import repo                                                                             # noqa: E402
from seyfert.config.main_config import PowerSpectrumConfig                              # noqa: E402
from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver, CLASSBoltzmannSolver    # noqa: E402
from seyfert.cosmology.cosmology import Cosmology                                       # noqa: E402
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection  # noqa: E402
from seyfert.cosmology.power_spectrum import PowerSpectrum                              # noqa: E402
from seyfert.utils import filesystem_utils as fsu                                       # noqa: E402
from seyfert.utils.workspace import WorkSpace                                           # noqa: E402

NAMES = ["h", "Omm", "OmDE", "Omb", "w0", "wa", "ns", "sigma8", "mnu"]
CAMB = ["hubble", "w", "wa", "scalar_spectral_index", "ombh2", "omnuh2", "omch2", "omk"]
INV = ["Tuned", "WholeGrid", "Consistent", "OneQuestionEach", "OnlyOwn"]


def rat(x, tol=1e-9):
    try:
        x = float(x)
        f = Fraction(x).limit_denominator(20000)
    except (ValueError, OverflowError):
        return {"n": 0, "d": 0}
    return {"n": f.numerator, "d": f.denominator} if abs(x - f) <= tol * max(1, abs(x)) else {"n": 0, "d": 0}


def small(x, tol=2e-6):
    f = Fraction(float(x)).limit_denominator(600)
    return {"n": f.numerator, "d": f.denominator} if abs(float(x) - f) <= tol else {"n": 0, "d": 0}


def fl(r):
    return r["n"] / r["d"]


def frac(r):
    return Fraction(r["n"], r["d"])


def unit(n, v):
    """value in the units of the program"""
    return v * 93.14 if n == "mnu" else v


class World:
    def __init__(self, rng, code, grid, k, target):
        self.grid, self.k, self.code, self.log = [float(z) for z in grid], list(k), code, []
        n = len(self.grid)
        v = rng.sample(range(1, 9000), 2 * n * len(self.k))
        self.ids = {x: [[v.pop() for _ in self.k] for _ in range(n)] for x in ("lin", "non")}
        self.transfer = np.array([[[rng.random() for _ in range(3)] for _ in self.k] for _ in range(9)])
        self.target = target
        self.chain = [float(f"{rng.uniform(1, 3):.6f}e-9")]
        self.answers = [target * (1 + d) for d in rng.choice([[], [.5], [-.25, 1e-3], [1, .125, -2 ** -20, 2 ** -35], [2 ** -16]])] + [target]
        for a in self.answers[:-1]:
            self.chain.append(self.chain[-1] * (target / a) ** 2)

    def at(self, z):
        if abs(z) < 1e-14:
            return 0
        c = [i for i, x in enumerate(self.grid) if abs(x - z) < 1e-10]
        return c[0] + 1 if len(c) == 1 else -1

    def index(self, a):
        c = [i for i, x in enumerate(self.chain) if abs(a / x - 1) < 1e-11]
        return c[-1] if c else -1

    def sigma8(self, a):
        i = self.index(a)
        return self.answers[i] if i >= 0 else self.target * math.sqrt(a / self.chain[-1])

    def rows(self, kind, zs):
        return [self.ids[kind][self.at(z) - 1] if self.at(z) > 0 else [0 for _ in self.k] for z in zs]

    def request(self, d):
        return {"asked": {x: rat(d.get(x, "none") or 0) for x in CAMB}, "rest": {k: v for k, v in d.items() if k not in (*CAMB, "scalar_amp")},
                "amp": self.index(float(d["scalar_amp"]))}


# ----------------------------------------------------------------------------------- runs

def collection(P, flat, disps, kind=None):
    d = {}
    for n in P:
        f = not (flat and n == "OmDE")
        d[n] = PhysicalParameter(name=n, fiducial=float(unit(n, fl(P[n]))), is_free_parameter=f, kind=PhysicalParameter.COSMO_PAR_STRING)
    d["gamma"] = PhysicalParameter(name="gamma", fiducial=.55, is_free_parameter=False, kind=PhysicalParameter.COSMO_PAR_STRING)
    return PhysicalParametersCollection(data_dict=d, base_stem_disps=np.array([float(x) for x in disps]), is_universe_flat=flat)


def q(n, d=1):
    f = Fraction(n, d)
    return {"n": f.numerator, "d": f.denominator}


def cosmology(rng):
    P = {"h": q(1, 2), "Omm": q(1, 2), "OmDE": q(1, 2), "Omb": q(1, 4), "w0": q(-1), "wa": q(0), "ns": q(1), "sigma8": q(3, 4), "mnu": q(1, 64)}
    flat = rng.random() < .6
    P["h"] = rng.choice([q(1, 2), q(3, 4), q(2, 3)])
    P["Omb"] = rng.choice([q(1, 4), q(1, 8), q(1, 16)])
    P["w0"] = rng.choice([q(-1), q(-1), q(-2, 3), q(5, 6), q(-1, 3)])
    P["wa"] = rng.choice([q(0), q(0), q(0), q(1, 3), q(-3, 2)])
    P["ns"] = rng.choice([q(1), q(15, 16)])
    P["sigma8"] = rng.choice([q(3, 4), q(13, 16)])
    P["mnu"] = rng.choice([q(1, 64), q(1, 128), q(3, 64)])
    if flat:
        P["Omm"], P["OmDE"] = rng.choice([(q(1, 2), q(1, 2)), (q(1, 4), q(3, 4)), (q(1), q(0))])
        if rng.random() < .06:
            P["OmDE"] = q(1, 8)
    else:
        P["Omm"], P["OmDE"] = rng.choice([q(1, 2), q(1, 4), q(3, 8)]), rng.choice([q(1, 2), q(1, 4), q(3, 4)])
    return P, flat


def reference(rng, file):
    """a reference ini file, and its entries other than those the solver sets"""
    entries = {"output_root": "some_root", "get_transfer": "T", "do_nonlinear": "1", "temp_cmb": "2.7255", "transfer_redshift(1)": "0",
               "re_optical_depth": "0.058", "nu_mass_fractions": "1", "halofit_version": "4", "bispectrum_full_output_file": ""}
    for k in rng.sample(list(entries), rng.randint(0, 3)):
        del entries[k]
    own = {k: str(rng.randint(1, 9) / 8) for k in CAMB if k != "omk" or rng.random() < .5}
    amp = {"scalar_amp": None}
    lines = list(entries.items()) + list(own.items()) + list(amp.items())
    rng.shuffle(lines)
    old = rng.random() < .3
    text = []
    for k, v in lines:
        if old and k in ("scalar_amp", "scalar_spectral_index"):
            k += "(1)"
        sep = rng.choice([" = ", "=", "   =  "])
        text.append(rng.choice(["", "", "", "\n", "# a comment = with a value\n", "  \n", "#commented = 1\n"]) + f"{k}{sep}{'@AMP@' if v is None else v}")
    file.write_text("\n".join(text) + rng.choice(["", "\n"]))
    return entries


def record(ck, rng, tmp, i, shipped=None):
    global WORLD
    run = (tmp / f"run{i}").resolve()
    run.mkdir()
    P, flat = cosmology(rng)
    code = shipped or rng.choice(["CAMB", "CAMB", "CLASS"])
    disps = sorted(rng.sample([Fraction(1, 8), Fraction(1, 3), Fraction(1, 2), Fraction(1, 4)], rng.randint(1, 2)))
    coll = collection(P, flat, disps)
    many = code == "CAMB" and rng.random() < .25
    n = rng.choice([150, 151, 299, 300, 301, 310]) if many else rng.randint(2, 6)
    step = Fraction(1, rng.choice([32, 64]) if many else rng.choice([2, 4, 8]))
    z0 = Fraction(1, 4)
    zs = [z0 + j * step for j in range(n)]
    ref = run / "reference.ini"
    rest = reference(rng, ref)
    text = ref.read_text()
    kmax = rng.choice([1, 5, 10])
    conf = {"redshift_grid": {"z_min": float(z0), "z_max": float(zs[-1]), "n_redshifts": n},
            "boltzmann_codes_settings": {"code": code, "camb": {"k_max": kmax, "k_per_logint": 7, "ini_filename": str(ref)},
                                         "class": {"k_max": kmax, "k_min": .001, "n_k": 3}}}
    k = [.001, math.sqrt(.001 * kmax), kmax] if code == "CLASS" else [.1, .5]
    if shipped:
        conf = json.loads((fsu.config_files_dir() / "power_spectrum_config.json").read_text())
        conf["redshift_grid"] = {"z_min": float(z0), "z_max": float(zs[-1]), "n_redshifts": n}
        conf["boltzmann_codes_settings"]["code"] = code
        own = fsu.config_files_dir() / conf["boltzmann_codes_settings"]["camb"]["ini_filename"]
        text, ref = own.read_text(), own
        rest = {a: v for a, v in ini_entries(own).items() if re.sub(r"\(1\)$", "", a) not in (*CAMB, "scalar_amp")}
        c = conf["boltzmann_codes_settings"][code.lower()]
        kmax = c["k_max"]
        if code == "CLASS":
            c["n_k"] = 3
            k = [c["k_min"], math.sqrt(c["k_min"] * kmax), kmax]
    (run / "power_spectrum_config.json").write_text(json.dumps(conf))
    ws = WorkSpace(run)
    ws.pmm_dir.mkdir()
    data = vlib.REPO / "seyfert/data/config_files"
    ws.createInputFilesDir(src_input_files={"forecast": vlib.REPO / "seyfert/data/test_data/test_fcfg.json",
                                            "PowerSpectrum": run / "power_spectrum_config.json"},
                           phys_pars=coll, input_data_dir=vlib.REPO / "seyfert/data/input_data")
    shown = [j for j in range(n) if zs[j].denominator <= 4][:5]
    tr = [{"op": "setup", "P": P, "flat": flat, "code": code, "ref": rest if code == "CAMB" else {}, "last": 0, "limit": 150, "n": n,
           "nk": len(k), "kmax": rat(kmax), "per": str(conf["boltzmann_codes_settings"]["camb"]["k_per_logint"]) if code == "CAMB" else "",
           "zs": [q(zs[j]) for j in shown]}]
    free = [x for x in coll if coll[x].is_free_parameter]
    steps = [s for s in range(-len(disps), len(disps) + 1) if s]
    bad = flat and frac(P["Omm"]) + frac(P["OmDE"]) != 1
    jobs = [("central", 0)] + [(rng.choice([x for x in free if not (bad and x in ("Omm", "OmDE"))]), rng.choice(steps)) for _ in range(1 if many else rng.randint(2, 5))]
    jobs = list(dict.fromkeys(jobs))
    rng.shuffle(jobs)
    script = repo.script("compute_pmm")
    cwd = os.getcwd()
    last = None
    for (p, s) in jobs:
        e = (disps[abs(s) - 1] * (1 if s > 0 else -1)) if s else Fraction(0)
        wd = ws.pmm_dir / fsu.get_cosmology_jobdir_name(dvar=p, step=s)
        wd.mkdir()
        shutil.copy(run / "power_spectrum_config.json", wd)
        target = frac(P["sigma8"]) * ((1 + e) if p == "sigma8" else 1)
        w = WORLD = World(rng, code, zs, k, float(target))
        if shipped and code == "CAMB":
            w.chain, w.answers = [float(ini_entries(own)[next(a for a in ini_entries(own) if a.startswith("scalar_amp"))])], [float(target)]
        elif last is not None:      # the same solver answers in the same way
            w.answers = [a / last.target * w.target for a in last.answers]
            w.chain = last.chain
        last = w
        tr[0]["last"] = len(w.chain) - 1
        if not shipped:
            ref.write_text(text.replace("@AMP@", repr(w.chain[0])))
        before = ref.read_text()
        if rng.random() < .3:       # left by an interrupted job
            (wd / ref.name).write_text("scalar_amp = 1.0\nhubble = 1\n")
        tr.append({"op": "job", "dvar": p, "e": q(e)})
        try:
            os.chdir(run)
            with repo.Patched((script.gu, "configure_logger", lambda *a, **k: None)), np.errstate(all="ignore"):
                st, ex = vlib.call(script.main, {"workdir": str(wd), "rundir": str(run), "main_config": "power_spectrum_config.json", "logfile": "log.log"})
        finally:
            os.chdir(cwd)
        if ref.read_text() != before:
            ck.violation("the reference settings of the solver were changed", {"dir": wd.name})
            return None
        tr += w.log
        out = wd / "p_mm.h5"
        ev = {"op": "stored", "out": st, "there": out.exists()}
        if st == "ok" and out.exists():
            c = Cosmology.fromHDF5(out)
            ps = c.power_spectrum
            kk = [min(range(len(k)), key=lambda j: abs(k[j] - x)) for x in ps.k_grid]
            val = {x: rat(c.params[x].current_value / (93.14 if x == "mnu" else 1)) for x in P}
            fid = {x: rat(c.params[x].fiducial / (93.14 if x == "mnu" else 1)) for x in P}
            as_ids = lambda m: [[int(x) if float(x) == int(x) else -1 for x in r] for r in np.atleast_2d(m)]
            ev.update(current=val, fiducial=fid, flat=bool(c.is_flat), z=[w.at(z) for z in ps.z_grid], z2=[w.at(z) for z in c.z_grid],
                      k=[j + 1 if abs(ps.k_grid[i] / k[j] - 1) < 1e-9 else 0 for i, j in enumerate(kk)], lin=as_ids(ps.lin_p_mm_z_k),
                      non=as_ids(ps.nonlin_p_mm_z_k), growth=[rat(g ** 2) for g in c.growth_factor_z], code=ps.boltzmann_code,
                      transfer=ps.transfer_function is None if code == "CLASS" else
                      any(np.array_equal(ps.transfer_function, w.transfer[6, :, j]) for j in range(3)),
                      rate=[rat(c.E_z[j] ** 2) for j in shown])
        tr.append(ev)
    WORLD = None
    shutil.rmtree(run)
    return tr


# ----------------------------------------------------------------------------- transitions of the model

def rate_sq(terms, z):
    return sum(fl(t["a"]) * (1 + z) ** fl(t["p"]) * np.exp(fl(t["x"]) * z / (1 + z)) for t in terms)


X, W = np.polynomial.legendre.leggauss(80)


def integral(f, z):
    return float(z / 2 * np.sum(W * f(z / 2 * (X + 1))))


def close(a, b, tol=1e-9):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) <= tol * (1 + np.abs(b))))


def asked(coll, r, tmp, rng):
    """what both solvers are asked for, a smaller configuration"""
    global WORLD
    (tmp / "x.ini").write_text("a = b\nscalar_amp = @AMP@\nhubble = 3\nomk = 2\n")
    conf = {"redshift_grid": {"z_min": .25, "z_max": .5, "n_redshifts": 2},
            "boltzmann_codes_settings": {"code": "CAMB", "camb": {"k_max": 1, "k_per_logint": 5, "ini_filename": str(tmp / "x.ini")},
                                         "class": {"k_max": 1, "k_min": .1, "n_k": 2}}}
    for name, solver in (("camb", CAMBBoltzmannSolver), ("class", CLASSBoltzmannSolver)):
        conf["boltzmann_codes_settings"]["code"] = name.upper()
        cfg = PowerSpectrumConfig(data_dict=copy.deepcopy(conf))
        w = WORLD = World(rng, name.upper(), [.25, .5], [.1, 1.], coll["sigma8"].current_value)
        (tmp / "x.ini").write_text(f"a = b\nscalar_amp = {w.chain[0]!r}\nhubble = 3\nomk = 2\n")
        (tmp / "work").mkdir(exist_ok=True)
        try:
            st, ex = vlib.call(lambda: solver(tmp / "work", cfg, coll.cosmological_parameters).evaluateLinearAndNonLinearPowerSpectra())
        finally:
            WORLD = None
        if st != "ok":
            return f"{name} cannot be asked: {st} {ex}"
        got = [e["asked"] if name == "class" else e["q"]["asked"] for e in w.log if "asked" in e or "q" in e]
        if not got or any(g != r[name] for g in got):
            return f"{name} was asked for {got}"
    return ""


def replay(ck, jobs, tmp):
    rng = ck.rng
    jobs = sorted(jobs, key=lambda j: json.dumps(j, sort_keys=True))
    for r in jobs:
        j = r["job"]
        ck.s2i += 1
        e = frac(j["e"])
        coll = collection(j["P"], j["flat"], [abs(e) or Fraction(1, 8)])
        if j["dvar"] != "central" and not coll[j["dvar"]].is_free_parameter:
            coll["Omm"].is_free_parameter, coll["OmDE"].is_free_parameter = False, True
        coll.updatePhysicalParametersForDvarStep(dvar=j["dvar"], step=0 if e == 0 else 1 if e > 0 else -1)
        if rng.random() < .5:           # written and read back
            coll.writeJSON(tmp / "p.json")
            coll = PhysicalParametersCollection.fromJSON(tmp / "p.json")
        z = np.array(sorted(rng.sample([0., .125, .5, 1., 2., 3., 8.], 4)))
        st, c = vlib.call(Cosmology, params=coll.cosmological_parameters, flat=j["flat"], z_grid=z)
        if (st == "ok") != r["ok"]:
            ck.violation(f"cosmology {'refused' if r['ok'] else 'accepted'}: {st} {c}", r)
            return
        if st != "ok":
            continue
        bad = asked(coll, r, tmp, rng)
        if bad:
            ck.violation(bad, r)
            return
        seen = {x: small(coll[x].current_value / (93.14 if x == "mnu" else 1)) for x in NAMES}
        bad = ""
        if seen != r["current"]:
            bad = f"current values {seen}"
        E2 = rate_sq(r["terms"], z)
        if np.any(E2 <= 0) or any(rate_sq(r["terms"], x) <= 0 for x in np.linspace(0, 8, 200)):
            continue
        E = lambda x: np.sqrt(rate_sq(r["terms"], x))
        om = lambda x: fl(r["terms"][0]["a"]) * (1 + x) ** 3 / rate_sq(r["terms"], x)
        h = fl(r["current"]["h"])
        dist = np.array([integral(lambda x: 1 / E(x), x) for x in z])
        growth = np.array([np.exp(-integral(lambda x: np.abs(om(x)) ** .55 / (1 + x), x)) for x in z])
        cH = c.c_km_s / (100 * h)
        one = float(z[-1])
        checks = {"expansion": (c.computeDimensionlessHubbleParameter, E(z)), "reciprocal": (c.computeReciprocalDimensionlessHubbleParameter, 1 / E(z)),
                  "Hubble": (c.computeHubbleParameter, 100 * h * E(z)), "distance": (c.computeDimensionlessComovingDistance, dist),
                  "comoving": (c.computeComovingDistance, cH * dist), "matter": (c.Omega_m_of_z, om(z)), "growth": (c.computeGrowthFactor, growth)}
        for name, (f, want) in checks.items():
            if not bad and not close(f(z), want, 1e-6):
                bad = f"{name} {f(z)}, specified {want}"
            if not bad and not close(f(one), want[-1], 1e-6):
                bad = f"{name} at {one}: {f(one)}, specified {want[-1]}"
        if not bad:
            p = c.power_spectrum = PowerSpectrum()
            p.lin_p_mm_z_k = np.arange(1., 9.).reshape(4, 2)
            c.evaluateOverRedshiftGrid()
            for name, got, want in [("E_z", c.E_z, E(z)), ("r_tilde_z", c.r_tilde_z, dist), ("r_z", c.r_z, cH * dist), ("H_z", c.H_z, 100 * h * E(z)),
                                    ("growth_factor_z", c.growth_factor_z, np.sqrt(p.lin_p_mm_z_k[:, 0]))]:
                if not close(got, want, 1e-6):
                    bad = f"{name} {got}, specified {want}"
        if bad:
            ck.violation(bad, r)
            return
    ck.sample({"replayed": [r["job"] for r in jobs[:3]]})


def rescaled(ck, recs):
    for r in recs:
        ck.s2i += 1
        m = lambda x: np.array([[fl(v) for v in row] for row in x])
        c = Cosmology()
        p = c.power_spectrum = PowerSpectrum()
        p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = m(r["lin"]), m(r["non"])
        c.growth_factor_z = np.sqrt([fl(g) for g in r["gs"]])
        st, e = vlib.call(c.rescalePowerSpectrumByComputedGrowth)
        if st != "ok" or not close(p.lin_p_mm_z_k, m(r["lin2"])) or not close(p.nonlin_p_mm_z_k, m(r["non2"])):
            ck.violation(f"rescaling to another growth: {st} {p.lin_p_mm_z_k} {p.nonlin_p_mm_z_k}", r)
            return


def run(ck):
    ck.model("SolverMC", vlib.cfg_text("Spec", {"Limit": "2"}, INV, properties=["Ends"], deadlock=False), timeout=1200)
    res = ck.model("SolverMC", vlib.cfg_text("Spec", {"Limit": "1"}, INV, deadlock=False), workers=1)
    jobs = [p for t, p in res.prints if t == "J"]
    recs = [p for t, p in res.prints if t == "G"]
    if len(jobs) < 200 or len(recs) < 20:
        raise vlib.MachineryError("expectations missing")
    tmp = Path(tempfile.mkdtemp(prefix="p22_"))
    try:
        replay(ck, jobs, tmp)
        rescaled(ck, recs)
        traces = [record(ck, ck.rng, tmp, i, {0: "CAMB", 1: "CLASS"}.get(i)) for i in range(ck.budget(60, 500))]
    finally:
        shutil.rmtree(tmp)
    if ck.viol:
        return
    ck.validate("SolverTrace", traces, label="solver")
    ops = {e["op"] for t in traces for e in t}
    if len(ops) < 7:
        raise vlib.MachineryError(f"events missing: {ops}")
    if ck.viol:
        return

    def corrupt(op, f, what):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op and (op != "stored" or e["out"] == "ok") for e in t)))
        f(next(e for e in t if e["op"] == op and (op != "stored" or e["out"] == "ok")))
        ck.must_reject("SolverTrace", t, what)
    corrupt("solve", lambda e: e["q"]["asked"].update(ombh2={"n": 1, "d": 7}), "other baryons")
    corrupt("solve", lambda e: e["zs"].reverse(), "redshifts reversed")
    corrupt("stored", lambda e: e["lin"][0].reverse(), "wavenumbers exchanged")
    corrupt("asked", lambda e: e["rest"].update(output="other") or e["asked"].update(h={"n": 1, "d": 7}), "another Hubble constant")
    ck.assumptions += ["CAMB and CLASS are replaced by stand-ins which record what they are asked for; their physics is not checked"]
