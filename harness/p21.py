"""P21  what the elements of the angular spectra are made of  (Spectra.tla)."""
import copy
import json
import math
import shutil
import tempfile
from fractions import Fraction as F
from pathlib import Path

import scipy.constants

# the worlds have their own speed of light, so that distances are short numbers
LIGHT = 50
scipy.constants.c = 1000. * LIGHT

import numpy as np

import repo  # noqa: F401
import vlib
from seyfert.config.forecast_config import ForecastConfig
from seyfert.config.main_config import AngularConfig
from seyfert.cosmology.bias import Bias
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.cosmology import redshift_density as rd
from seyfert.main import cl_core
from seyfert.utils import general_utils as gu

INV = ["OnlyThere", "Symmetric", "Apart"]
PRIMES = (46337, 46327)
ALIAS = {"Lensing": "WL", "PhotometricGalaxy": "GCph", "SpectroscopicGalaxy": "GCsp", "Void": "V"}
STEM = {"PhotometricGalaxy": "bgph", "SpectroscopicGalaxy": "bgsp"}
LIMIT = 2 ** 40


def rat(x):
    x = F(x)
    return {"n": x.numerator, "d": x.denominator}


def frac(r):
    return F(r["n"], r["d"])


def fracs(rs):
    return [frac(r) for r in rs]


def rats(xs):
    return [rats(x) if isinstance(x, list) else rat(x) for x in xs]


def lcm(xs):
    return math.lcm(*xs) if xs else 1


def rule_den(method, n):
    den = {1: 2, 2: 3, 3: 8, 4: 45, 5: 288, 6: 140}
    if method.startswith("newton-cotes"):
        o = int(method[-1])
        rest = (n - 1) % o
        return math.lcm(den[o] if n > o else 1, den[rest] if rest else 1)
    return {"simpson": 12, "quad": 2, "romberg": {5: 45, 9: 2835}.get(n, 1)}.get(method, 1)


class World:
    """a world of exact numbers and the objects of the real code made of it"""

    def __init__(self, rng):
        self.rng = rng
        if rng is None:
            return
        self.n = n = rng.choice([5, 5, 6, 7, 8, 9])
        self.step = rng.choice([F(1, 2), F(1)])
        z0 = self.step * rng.choice([1, 2])
        self.z = [z0 + self.step * k for k in range(n)]
        self.order = rng.sample(list(ALIAS), rng.choice([1, 2, 2, 3, 4]))
        self.method = rng.choice(["simpson", "newton-cotes_4", "newton-cotes_2", "newton-cotes_1", "newton-cotes_3", "newton-cotes_5"])
        self.offdiag, self.ia = rng.random() < .5, rng.random() < .5
        self.par = {}
        self.b = None
        self.cosmos(first=True)
        self.D0 = [F(1)] + [rng.choice([F(1), F(1, 2)]) for _ in range(n - 1)]
        self.own = rng.random() < .5            # growth of its own, or that of the power spectrum
        common = rng.choice([F(1, 2), F(3, 2)])
        pool = [F(1, 2), F(3, 2), F(7, 2)] if self.b < 0 else [F(1, 2), F(1), F(3, 2), F(2), F(7, 2)]
        self.probes = {}
        many = rng.choice(self.order) if rng.random() < .15 and n < 7 else None
        for p in self.order:
            nb = 11 if p == many and p in STEM else rng.randint(1, 3)
            self.probes[p] = self.probe(p, nb, sorted({common} | set(rng.sample(pool, rng.randint(0, 2)))))
        if "Lensing" in self.order:
            self.par.update(aIA=F(rng.choice([1, 2, 3])), cIA=F(rng.choice([1, 2])), etaIA=F(rng.choice([-1, 0, 1, 2])))
        self.cut()

    @classmethod
    def given(cls, r, rng):
        """the world of a record of the specification"""
        w = cls(None)
        w.rng, w.own = rng, rng.random() < .5
        for x in ("z", "E", "rt", "D", "D0", "A"):
            setattr(w, x, fracs(r[x]))
        w.n, w.step, w.b, w.method = len(w.z), w.z[1] - w.z[0], r["b"], r["method"]
        w.offdiag, w.ia = r["offdiag"], r["ia"]
        w.H0, w.Om, w.kcut, w.kwid = fracs([r[x] for x in ("H0", "Om", "kcut", "kwid")])
        w.par = {k: frac(v) for k, v in r["par"].items()}
        w.probes = {p: {"edges": fracs(d["edges"]), "dens": [fracs(x) for x in d["dens"]], "bias": d["bias"], "names": d["names"],
                        "ells": fracs(d["ells"])} for p, d in r["probes"].items()}
        w.order = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]
        return w

    def cosmos(self, first=False):
        """other functions of redshift"""
        rng, n = self.rng, self.n
        self.E = [F(rng.choice([1, 2])) for _ in range(n)]
        self.rt = sorted(F(rng.choice([1, 2, 2, 4] if rng.random() < .3 else [1, 2])) for _ in range(n))
        self.D = [F(1)] + [rng.choice([F(1), F(1, 2)]) for _ in range(n - 1)]
        self.A = [F(rng.randint(1, 6)) for _ in range(n)]
        if first:
            self.b = rng.choice([-1, 0, 1, 1])
        self.H0 = F(rng.choice([25, 50, 50, 100]))
        self.Om = rng.choice([F(1, 2), F(1), F(1, 4)])

    def probe(self, p, nb, ells):
        rng = self.rng
        d = {"ells": ells}
        if p == "Void":
            nb = min(nb, self.n - 1)
            k = rng.randrange(self.n - nb + 1)
            d["edges"] = [self.z[k] - self.step / 2 + self.step * i for i in range(nb + 1)]
            d.update(bias="void", names=["voidbias0"])
            self.par["voidbias0"] = F(rng.randint(1, 4))
        else:
            pts = [self.z[0] + self.step * F(i, 4) + F(1, 16) for i in range(-2, 4 * self.n)]
            d["edges"] = sorted(rng.sample(pts, nb + 1))
            d.update(bias="none", names=[])
            if p in STEM:
                d["bias"] = rng.choice(["constant", "piecewise"])
                m = nb + (rng.choice([-1, 1]) if rng.random() < .06 and nb > 1 else 0)
                d["names"] = [f"{STEM[p]}{i}" for i in range(m)]
                for x in d["names"]:
                    self.par[x] = F(rng.randint(1, 4))
        unit = 24 if p == "Lensing" else 1
        d["dens"] = [[F(unit * rng.choice([0, 1, 1, 2, 3] if p != "Lensing" else [0, 1, 1, 2])) for _ in self.z] for _ in range(nb)]
        # known on a part of the grid only, and nothing elsewhere
        d["narrow"] = rng.random() < .2
        if d["narrow"]:
            for row in d["dens"]:
                row[0] = F(0)
        return d

    def cut(self):
        """a cut for voids which the wavenumbers in use are clearly below, above, or in the middle of"""
        ks = sorted({self.wave(l, k) for d in self.probes.values() for l in d["ells"] for k in range(self.n)})
        i = self.rng.randrange(len(ks))
        self.kcut = ks[i] if self.rng.random() < .6 else (ks[i] + (ks[i + 1] if i + 1 < len(ks) else 2 * ks[i])) / 2
        gap = min([abs(k - self.kcut) for k in ks if k != self.kcut] + [self.kcut])
        self.kwid = gap / 2

    def still_clear(self):
        ks = {self.wave(l, k) for d in self.probes.values() for l in d["ells"] for k in range(self.n)}
        return all(k == self.kcut or abs(k - self.kcut) >= self.kwid for k in ks)

    # ---------------------------------------------------------------- numbers
    def wave(self, l, k):
        return (l + F(1, 2)) * self.H0 / (LIGHT * self.rt[k])

    def weight_bound(self, p):
        """a common denominator of the weights of a probe, and how large they may be"""
        d, r = self.probes[p], range(self.n)
        dens, most = [1], F(0)
        for i in range(len(d["dens"])):
            for k in r:
                g = self.H0 / LIGHT
                if d["bias"] == "none":
                    pre = F(3, 2) * self.Om * (1 + self.z[k]) * g * self.rt[k]
                    eff = [self.step * F(1, 12) * d["dens"][i][x] * (1 - self.rt[k] / self.rt[x]) for x in range(k, self.n)]
                    v = [pre * e for e in eff]
                    top = sum(abs(x) for x in v) * 20
                    if self.ia:
                        a = self.par["aIA"] * self.par["cIA"] * (1 + self.z[k]) ** int(self.par["etaIA"]) \
                            * self.Om * d["dens"][i][k] * g * self.E[k] / self.D[k]
                        v.append(a)
                        top += abs(a)
                else:
                    b = [self.par["voidbias0"] / x for x in self.D0] if d["bias"] == "void" else [self.par[x] for x in d["names"]]
                    v = [g * self.E[k] * d["dens"][i][k] * x for x in b]
                    top = max(abs(x) for x in v)
                dens += [x.denominator for x in v]
                most = max(most, top)
        return lcm(dens), most

    def element_bound(self, p, q):
        dp, mp = self.weight_bound(p)
        dq, mq = self.weight_bound(q)
        v = [self.step * F(1, 2) * self.A[k] * self.wave(l, k) ** self.b / (self.E[k] * LIGHT / self.H0 * self.rt[k] ** 2)
             for l in self.probes[p]["ells"] if l in self.probes[q]["ells"] for k in range(self.n)]
        return lcm([x.denominator for x in v]) * dp * dq * rule_den(self.method, self.n), sum(v) * 4 * mp * mq

    def pairs(self):
        return [(p, q) for i, p in enumerate(self.order) for q in self.order[i:]]

    def clear(self):
        """short enough to be recognised exactly?"""
        for p, q in self.pairs():
            d, m = self.element_bound(p, q)
            if d * m > LIMIT:
                return False
        return self.still_clear()

    def shown(self):
        return {"z": rats(self.z), "E": rats(self.E), "rt": rats(self.rt), "D": rats(self.D), "D0": rats(self.D0), "A": rats(self.A), "b": self.b,
                "H0": rat(self.H0), "c": rat(LIGHT), "Om": rat(self.Om), "method": self.method, "kcut": rat(self.kcut), "kwid": rat(self.kwid),
                "offdiag": self.offdiag, "ia": self.ia, "order": self.order, "par": {k: rat(v) for k, v in self.par.items()},
                "probes": {p: {"edges": rats(d["edges"]), "dens": rats(d["dens"]), "bias": d["bias"], "names": d["names"], "ells": rats(d["ells"])}
                           for p, d in self.probes.items()}}

    def sky(self):
        """the part of the world which another cosmology changes"""
        return {"E": rats(self.E), "rt": rats(self.rt), "D": rats(self.D), "A": rats(self.A), "H0": rat(self.H0), "Om": rat(self.Om)}

    # ---------------------------------------------------------------- the real objects
    def cosmology(self, D=None):
        pars = {n: PhysicalParameter.createCosmologicalParameter(name=n, fiducial=float(v), current_value=float(v), is_free_parameter=True)
                for n, v in (("h", self.H0 / 100), ("Omm", self.Om), ("OmDE", 1 - self.Om))}
        c = Cosmology(params=pars, flat=True, z_grid=fl(self.z))
        c.dimensionless_hubble_array = fl(self.E)
        c.dimensionless_comoving_distance_array = fl(self.rt)
        D = self.D if D is None else D
        p = PowerSpectrum()
        p.z_grid, p.k_grid = fl(self.z), np.logspace(-3, 3, 40)
        p.nonlin_p_mm_z_k = np.outer(fl(self.A), p.k_grid ** self.b)
        p.lin_p_mm_z_k = np.outer(5 * fl(D) ** 2, p.k_grid ** .5)
        c.power_spectrum = p
        if self.own:
            c.growth_factor_z = fl(D)
        return c

    def config(self, root):
        rng = self.rng
        base = json.loads((vlib.REPO / "seyfert/data/test_data/test_fcfg.json").read_text())
        v = json.loads((vlib.REPO / "seyfert/data/config_files/basic_forecast_config.json").read_text())
        old = {**v["probes"], **base["probes"]}
        base["survey"]["shot_noise_file"] = None
        base["derivative_settings"]["base_stem_disps"] = [1., 2., 3., 4., 5., 6., 7.]
        base["probes"] = {}
        for p in self.order:
            d = self.probes[p]
            j = copy.deepcopy(old[ALIAS[p]])
            (root / f"ell_{p}.txt").write_text("".join(f"{float(l)!r} 1.0\n" for l in d["ells"]))
            j.update(presence_flag=True, ell_external_filename=f"ell_{p}.txt", density_file=f"density_{p}.h5", bias_file=f"bias_{p}.h5")
            j["marginalize_bias_flag"], j["bias_derivative_method"] = True, "SteM"
            j["extra_nuisance_parameters"] = []
            if p == "Lensing":
                j["specific_settings"] = {"include_IA": self.ia}
                j["extra_nuisance_parameters"] = [
                    {"name": x, "fiducial": float(y), "current_value": float(y), "kind": "NuisanceParameter", "is_free_parameter": True,
                     "stem_factor": 1., "derivative_method": "SteM", "units": "None", "probe": p}
                    for x, y in [(x, self.par[x]) for x in ("aIA", "cIA", "etaIA")] + [("betaIA", 0)]]
            elif p == "SpectroscopicGalaxy":
                j["specific_settings"] = {"compute_gcsp_cl_offdiag": self.offdiag}
            elif p == "Void":
                j["specific_settings"] = {"void_kcut_invMpc": float(self.kcut), "void_kcut_width_invMpc": float(self.kwid)}
            else:
                j["specific_settings"] = {}
            base["probes"][ALIAS[p]] = j
            n = rd.RedshiftDensity(p)
            narrow = d.get("narrow", False)
            wider = rng.random() < .5 and not narrow
            dom = self.z[1:] if narrow else ([self.z[0] - self.step / 2] if wider else []) + self.z + ([self.z[-1] + self.step] if wider else [])
            n.input_z_domain, n.z_bin_edges, n.catalog_f_sky = fl(dom), fl(d["edges"]), 1.
            n.has_niz_from_input = True
            n.input_n_iz = np.array([fl(([F(7)] if wider else []) + r + ([F(5)] if wider else []))[narrow:] for r in d["dens"]])
            n.dN_dOmega_bins = np.arange(1., len(d["dens"]) + 1)
            if d["names"]:
                b = Bias(probe=p, z_bin_edges=fl(d["edges"]))
                b.model_name = {"void": "fiducial_growth_void"}.get(d["bias"], d["bias"])
                names = list(d["names"])
                rng.shuffle(names)
                b.nuisance_parameters = {x: float(self.par[x]) for x in names}
                b.additional_parameters = {}
            n.saveToHDF5(root / f"density_{p}.h5")
            if d["names"]:
                b.saveToHDF5(root / f"bias_{p}.h5")
        f = root / "fcfg.json"
        f.write_text(json.dumps(base))
        return ForecastConfig(input_file=f, input_data_dir=root, load_phys_params=True)

    def angular(self):
        a = AngularConfig()
        a.update({"cl_integration_settings": {"lensing_efficiency": "simpson", "cl": self.method},
                    "limber_pmm_spline_settings": {"kx": self.rng.choice([1, 3]), "ky": self.rng.choice([1, 3, 5]), "s": 0}})
        return a


def residues(v, den):
    """a number of known denominator, as residues; what is not of this denominator gets none"""
    v = float(v)
    if not math.isfinite(v) or abs(v) * den > 2 ** 48:
        return [-1, -1]
    n = round(v * den)
    if abs(v * den - n) > .2:
        return [-1, -1]
    return [n * pow(den, -1, p) % p for p in PRIMES]


def table(a, den):
    a = np.asarray(a)
    return [residues(x, den) for x in a] if a.ndim == 1 else [table(x, den) for x in a]


def fl(xs):
    return np.array([float(x) for x in xs])


# -------------------------------------------------------------------- recorded histories
class History:
    def __init__(self, rng, root, given=None):
        self.rng, self.root = rng, root
        for _ in range(4000):
            w = given or World(rng)
            if given or w.clear():
                break
        else:
            raise vlib.MachineryError("no world is short enough")
        self.w = w
        self.ev = [{"op": "world", "w": w.shown()}]
        self.fcfg = w.config(root)
        self.acfg = w.angular()
        self.cosmo, self.fid = w.cosmology(), w.cosmology(w.D0)
        st, self.dens = vlib.call(cl_core.compute_densities, self.fcfg.probe_configs, fl(w.z))
        if st != "ok":
            self.dens = None

    def density(self):
        p = self.rng.choice(self.w.order)
        ok = self.dens is not None and p in self.dens and self.dens[p].norm_density_iz is not None
        self.ev.append({"op": "density", "p": p, "out": "ok" if ok else "none", "n": table(self.dens[p].norm_density_iz, 1) if ok else []})

    def computed(self, st, c):
        """what a collector holds"""
        e = {"op": "collect", "out": st, "weights": [], "spectra": []}
        if st == "ok":
            w = self.w
            for p, f in c.weight_dict.items():
                e["weights"].append({"p": p, "w": table(f.w_bin_z, w.weight_bound(p)[0] if p in w.probes else 1)})
            for key, cl in c.cl_dict.items():
                p, q = gu.get_probes_from_comb_key(key)
                if (cl.probe1, cl.probe2) != (p, q):
                    p = f"{p} as {cl.probe1}"
                den = w.element_bound(p, q)[0] if p in w.probes and q in w.probes else 1
                e["spectra"].append({"p": p, "q": q, "ells": rats([F(float(x)) for x in cl.l_bin_centers]), "c": table(cl.c_lij, den)})
        self.ev.append(e)

    def collect(self):
        w = self.w
        st, c = vlib.call(cl_core.compute_cls, self.cosmo, self.fcfg.phys_pars, self.dens, self.fcfg, self.acfg, fiducial_cosmology=self.fid) \
            if self.dens is not None else ("none", None)
        self.computed(st, c)
        return c if st == "ok" else None

    # each change is made to the world and to the objects, or not at all
    def change(self, kind):
        rng, w = self.rng, self.w
        old = copy.deepcopy(self.w.__dict__)
        if kind == "par":
            name = rng.choice(sorted(w.par)) if w.par else None
            if name is None:
                return False
            w.par[name] = F(rng.randint(-1, 2)) if name == "etaIA" else F(rng.randint(1, 5))
            e = {"op": "par", "name": name, "value": rat(w.par[name])}
        elif kind == "method":
            w.method = rng.choice(["simpson", "romberg", "quad"] + [f"newton-cotes_{i}" for i in range(1, 7)] + ["gauss"])
            if w.method == "quad" and w.n not in (5, 9) or w.method.startswith("newton") and int(w.method[-1]) >= w.n:
                w.method = old["method"]
            e = {"op": "method", "method": w.method}
        elif kind == "ia":
            if "Lensing" not in w.order:
                return False
            w.ia = not w.ia
            e = {"op": "switch", "name": "ia", "on": w.ia}
        elif kind == "offdiag":
            if "SpectroscopicGalaxy" not in w.order:
                return False
            w.offdiag = not w.offdiag
            e = {"op": "switch", "name": "offdiag", "on": w.offdiag}
        elif kind == "cut":
            if "Void" not in w.order:
                return False
            w.cut()
            e = {"op": "cut", "kcut": rat(w.kcut), "kwid": rat(w.kwid)}
        else:
            w.cosmos()
            e = {"op": "cosmo", "sky": w.sky()}
        if not w.clear():
            w.__dict__ = old
            w.rng = rng
            return False
        w.rng = rng
        self.ev.append(e)
        if kind == "par":
            self.fcfg.phys_pars[name].current_value = float(w.par[name])
        elif kind == "method":
            self.acfg["cl_integration_settings"]["cl"] = w.method
        elif kind in ("ia", "offdiag", "cut"):
            pc = self.fcfg.probe_configs[{"ia": "Lensing", "offdiag": "SpectroscopicGalaxy", "cut": "Void"}[kind]].specific_settings
            if kind == "cut":
                pc["void_kcut_invMpc"], pc["void_kcut_width_invMpc"] = float(w.kcut), float(w.kwid)
            else:
                pc["include_IA" if kind == "ia" else "compute_gcsp_cl_offdiag"] = getattr(w, kind)
        else:
            self.cosmo = w.cosmology()
        return True


def counts(rng):
    """objects by bin, of one kind and of two"""
    ev = []
    kinds = []
    for p in ("PhotometricGalaxy", "SpectroscopicGalaxy"):
        a, b = rng.randint(1, 9), rng.randint(0, 6)
        dom = [F(1, 4) * i for i in range(1, rng.randint(9, 14))]
        edges = sorted(rng.sample([dom[0] + F(i, 8) for i in range(2 * len(dom) - 1)], rng.randint(2, 5)))
        d = rd.RedshiftDensity(p)
        d.has_niz_from_input, d.input_z_domain, d.z_bin_edges = False, fl(dom), fl(edges)
        d.input_dN_dz_dOmega = a + b * fl(dom)
        f = rng.randint(1, 8)
        d.catalog_f_sky = f / (4 * np.pi)
        kinds.append((d, a, b, edges))

        def go():
            d.interpolateInput()
            d.evaluateSurfaceDensity()
            return d.dN_dOmega_bins
        st, r = vlib.call(go)
        got = [rat(F(float(x)).limit_denominator(4096)) for x in r] if st == "ok" else []
        ev.append({"op": "counts", "a": rat(a), "b": rat(b), "edges": rats(edges), "out": st, "got": got})
        how = rng.choice(["simps", "quad"])
        d.ready_to_evaluate = True
        st, r = vlib.call(d.computeTotalGalaxyNumber, integ_method=how)
        ev.append({"op": "total", "a": rat(a), "b": rat(b), "lo": rat(dom[0]), "hi": rat(dom[-1]), "sky": f, "out": st,
                   "got": rat(F(float(r)).limit_denominator(4096) if st == "ok" else 0)})
    (d1, *_), (d2, a, b, e2) = kinds
    first = [rng.randint(1, 5) for _ in range(len(d1.z_bin_edges) - 1)]
    d1.dN_dOmega_bins = fl(first)
    st, r = vlib.call(rd.compute_photoXspectro_shotnoise_ij, d1, d2)
    ev.append({"op": "overlap", "a": rat(a), "b": rat(b), "edges": rats(kinds[0][3]), "others": rats(e2), "first": rats(first), "out": st,
               "got": [[rat(F(float(x)).limit_denominator(40000)) for x in row] for row in r] if st == "ok" else []})
    return ev


class Files:
    """where the cosmologies of a variation are"""

    def __init__(self, files):
        self.files = files

    def getPowerSpectrumFile(self, dvar, step):
        return self.files[(dvar, int(step))]


def variations(h):
    """the spectra of all displacements of a parameter"""
    rng, w = h.rng, h.w
    if h.dens is None:
        return
    first = h.collect()
    if first is None:
        return
    name = rng.choice(sorted(w.par) + ["h"])
    if name == "etaIA":
        return
    fid = h.fcfg.phys_pars[name].fiducial
    files = {("central", 0): h.root / "central.h5"}
    h.cosmo.saveToHDF5(files[("central", 0)])
    steps = [s for s in range(-7, 8) if s]
    ev = []
    keep = copy.deepcopy(w.__dict__)
    for s in steps:
        if name == "h":
            for _ in range(200):
                w.cosmos()
                if w.clear():
                    break
            else:
                break
            f = h.root / f"h_{s}.h5"
            w.cosmology().saveToHDF5(f)
            files[("h", s)] = f
            ev.append((s, {"op": "cosmo", "sky": w.sky()}, copy.deepcopy(w.__dict__)))
        else:
            w.par[name] = F(fid) * (1 + s)
            if not w.clear():
                break
            ev.append((s, {"op": "par", "name": name, "value": rat(w.par[name])}, copy.deepcopy(w.__dict__)))
    if len(ev) == len(steps):
        # other parameters at other values than their fiducials come back to these
        st, r = vlib.call(cl_core.compute_cls_variations, name, first, Files(files), h.fcfg.phys_pars, h.dens, h.fcfg, h.acfg,
                          fiducial_cosmology=h.fid)
        for s, e, now in [(0, None, keep)] + ev:
            w.__dict__ = now
            if e is not None:
                h.ev.append(e)
            h.computed(st if st != "ok" or s in r else "missing", r.get(s) if st == "ok" else None)
        # and everything is at its fiducial value again
        w.__dict__ = keep
        w.rng = rng
        h.ev.append({"op": "par", "name": name, "value": rat(w.par[name])} if name != "h" else {"op": "cosmo", "sky": w.sky()})
        h.collect()
    w.__dict__ = keep
    w.rng = rng


def record(rng, tmp):
    root = Path(tempfile.mkdtemp(dir=tmp))
    if rng.random() < .1:
        tr = counts(rng)
    else:
        h = History(rng, root)
        h.density()
        if rng.random() < .15:
            variations(h)
        else:
            h.collect()
            for _ in range(rng.randint(1, 4)):
                for _ in range(rng.randint(1, 2)):
                    h.change(rng.choice(["par", "par", "method", "ia", "offdiag", "cut", "cosmo"]))
                h.collect()
            h.density()
        tr = h.ev
    shutil.rmtree(root)
    return tr


def replay(ck, trans, tmp):
    """every transition of the small universe in the real code, number by number"""
    for wi, walk in enumerate(vlib.walks(trans, post=lambda t: {x: t["post"][x] for x in ("w", "turned")}, max_len=30)):
        root = tmp / f"w{wi}"
        root.mkdir()
        h = History(ck.rng, root, World.given(walk[0]["pre"]["w"], ck.rng))
        for t in walk:
            ck.s2i += 1
            w = World.given(t["post"]["w"], ck.rng)
            pcs = h.fcfg.probe_configs
            for x, v in w.par.items():
                h.fcfg.phys_pars[x].current_value = float(v)
            pcs["Lensing"].specific_settings["include_IA"] = w.ia
            pcs["SpectroscopicGalaxy"].specific_settings["compute_gcsp_cl_offdiag"] = w.offdiag
            pcs["Void"].specific_settings.update(void_kcut_invMpc=float(w.kcut), void_kcut_width_invMpc=float(w.kwid))
            st, c = vlib.call(cl_core.compute_cls, h.cosmo, h.fcfg.phys_pars, h.dens, h.fcfg, h.acfg, fiducial_cosmology=h.fid)
            data = {"turned": t["post"]["turned"], "method": w.method, "bias": w.probes["PhotometricGalaxy"]["bias"], "points": w.n}
            if st != "ok":
                return ck.violation(f"spectra not computed: {st}", data)
            pairs = {tuple(gu.get_probes_from_comb_key(k)): k for k in c.cl_dict}
            if set(pairs) != {(r["p"], r["q"]) for r in t["post"]["rows"]}:
                return ck.violation(f"pairs of probes {sorted(pairs)}", data)
            for r in t["post"]["rows"]:
                cl = c.cl_dict[pairs[(r["p"], r["q"])]]
                at = {F(float(x)): i for i, x in enumerate(cl.l_bin_centers)}
                if set(at) != {frac(e["l"]) for e in r["e"]} or np.size(cl.c_lij) != len(r["e"]):
                    return ck.violation(f"multipoles or bins of {pairs[(r['p'], r['q'])]}", data)
                for e in r["e"]:
                    v, x = frac(e["v"]), float(cl.c_lij[at[frac(e["l"])], e["i"] - 1, e["j"] - 1])
                    if abs(x - float(v)) > 1e-9 * max(1, abs(float(v))):
                        return ck.violation(f"{pairs[(r['p'], r['q'])]} at bins {e['i']}, {e['j']}, multipole {frac(e['l'])}: {x}, specification {v}", data)
        shutil.rmtree(root)
        if ck.viol:
            return


METHODS = ["newton-cotes_4", "newton-cotes_3", "simpson", "romberg"]


def consts(methods, turns):
    return {"MethodsUsed": "{" + ", ".join(f'"{m}"' for m in methods) + "}", "MaxTurns": str(turns)}


def run(ck):
    trans = ck.graph("SpectraMC", vlib.cfg_text("Spec", consts(METHODS[:2] + METHODS[3:], ck.budget(2, 3)), action_constraints=["Emit"]))
    turned = {x for t in trans for x in t["act"]}
    if turned != {"bgph1", "bgsp0", "voidbias0", "aIA", "ia", "offdiag", "kcut"}:
        raise vlib.MachineryError(f"turns missing: {turned}")
    ck.model("SpectraMC", vlib.cfg_text("Spec", consts(METHODS if not ck.thorough else METHODS + [f"newton-cotes_{i}" for i in (1, 2, 5)] + ["quad"],
                                                        ck.budget(3, 6)), INV), workers=8, timeout=3000)
    tmp = Path(tempfile.mkdtemp(prefix="p21_"))
    try:
        replay(ck, trans, tmp)
        traces = [record(ck.rng, tmp) for _ in range(ck.budget(150, 1500))]
    finally:
        shutil.rmtree(tmp)
    ck.validate("SpectraTrace", traces, label="spectra", batch=60)
    seen = {(e["op"], e.get("out", "") == "ok") for t in traces for e in t}
    need = {(x, True) for x in ("collect", "density", "counts", "total", "overlap")} | {("collect", False)} | {(x, False) for x in
            ("world", "par", "method", "switch", "cut", "cosmo")}
    if not need <= seen:
        raise vlib.MachineryError(f"events missing: {need - seen}")
    if ck.viol:
        return

    def corrupt(op, f, what, fits=lambda e: True):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op and e["out"] == "ok" and fits(e) for e in t)))
        f(next(e for e in t if e["op"] == op and e["out"] == "ok" and fits(e)))
        ck.must_reject("SpectraTrace", t, what)

    def bump(r):
        r[0] = (r[0] + 1) % PRIMES[0]
    corrupt("collect", lambda e: bump(e["spectra"][-1]["c"][0][0][0]), "element of a spectrum")
    corrupt("collect", lambda e: bump(e["weights"][0]["w"][0][1]), "weight of a bin")
    corrupt("collect", lambda e: e["spectra"].pop(), "spectrum missing")
    corrupt("collect", lambda e: e["spectra"][0].update(p="Void", q="Void"), "spectrum of another pair", lambda e: e["spectra"][0]["p"] != "Void")
    corrupt("counts", lambda e: e["got"].reverse(), "objects of another bin", lambda e: len(e["got"]) > 1 and e["got"][0] != e["got"][-1])
    ck.assumptions += ["the weighted integrals over the lensing efficiency are taken on the grid (simpson); densities are given by bin",
                       "numbers of the worlds are short fractions; results are compared exactly, as residues modulo two primes"]
