"""P19  saving and loading, over shared files and roots  (Store.tla)."""
import contextlib
import copy
import hashlib
import io
import json
import shutil
import tempfile
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

import vlib
from seyfert.cosmology import bias as bs
from seyfert.cosmology import c_ells
from seyfert.cosmology import cosmology as cosm
from seyfert.cosmology import kernel_functions as kfs
from seyfert.cosmology import power_spectrum as ps
from seyfert.cosmology import redshift_density as rd
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.utils import general_utils as gu

PROBES = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]
PAIRS = [(a, b) for i, a in enumerate(PROBES) for b in PROBES[i:]]
KINDS = ["density", "kernel", "bias", "weight", "pmm", "cosmology", "cl", "clcoll", "deltacl", "deltacoll"]
FAM = {"pmm": "cosmo", "cosmology": "cosmo", "cl": "cls"}
COSMO = {"Omm": .32, "OmDE": .68, "Omb": .05, "h": .67, "w0": -1., "wa": 0., "ns": .96, "sigma8": .816}


# ------------------------------------------------------------------ tokens

def token(v):
    if v is None:
        return "none"
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, np.ndarray) and v.ndim:
        return f"{v.dtype.kind}{v.shape}" + hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:10]
    return repr(float(v))


def arr(rng, *shape):
    return np.array([rng.random() + .5 for _ in range(int(np.prod(shape)))]).reshape(shape)


def grid(rng, n=None):
    return np.sort(arr(rng, n or rng.randint(2, 5)))


# ------------------------------------------------------------------ one builder and one reader for each kind: reader(object) = flat content

def some(rng, f, p=.75):
    return f() if rng.random() < p else None


def mk_density(rng, probe=None):
    d = rd.RedshiftDensity(probe=probe or rng.choice(PROBES))
    n, nz = rng.randint(1, 11), rng.randint(2, 4)
    d.has_niz_from_input = rng.random() < .5
    d.input_z_domain = grid(rng, nz)
    d.z_bin_edges = grid(rng, n + 1)
    d.catalog_f_sky = rng.random()
    d.dN_dOmega_bins = arr(rng, n) if d.has_niz_from_input else some(rng, lambda: arr(rng, n))
    if d.has_niz_from_input:
        d.input_n_iz = arr(rng, n, nz)
    else:
        d.input_dN_dz_dOmega = arr(rng, nz)
        d.instrument_response = {k: rng.random() for k in ("cb", "co", "fout", "sigb", "sigo")}
    d.z_grid = some(rng, lambda: grid(rng))
    d.norm_density_iz = None if d.z_grid is None else arr(rng, n, len(d.z_grid))
    return d


def rd_density(d):
    out = {k: token(getattr(d, k)) for k in ("probe", "has_niz_from_input", "input_z_domain", "z_bin_edges", "catalog_f_sky", "dN_dOmega_bins",
                                             "input_n_iz", "input_dN_dz_dOmega", "z_grid", "norm_density_iz")}
    out.update({"response/" + k: token(v) for k, v in d.instrument_response.items()})
    return out


def mk_kernel(rng, p1=None, p2=None):
    a, b = rng.choice(PAIRS)
    k = kfs.KernelFunction(p1 or a, p2 or b)
    k.z_grid = grid(rng)
    k.k_ijz = arr(rng, rng.randint(1, 3), rng.randint(1, 3), len(k.z_grid))
    return k


def rd_kernel(k):
    return {x: token(getattr(k, x)) for x in ("probe1", "probe2", "z_grid", "k_ijz")}


def mk_bias(rng, probe=None):
    b = bs.Bias(probe=probe or rng.choice(PROBES[1:]))
    n = rng.choice([1, 3, 10, 12])
    b.z_bin_edges = grid(rng, n + 1)
    b.model_name = rng.choice(["constant", "piecewise", "euclid_flagship_photo", "fiducial_growth_void"])
    names = [f"bg{i}" for i in range(n)] if b.model_name in ("constant", "piecewise") else \
        ["Aph", "Bph", "Cph", "Dph"] if b.model_name == "euclid_flagship_photo" else ["voidbias0"]
    rng.shuffle(names) if rng.random() < .5 else None
    b.nuisance_parameters = {x: rng.random() + 1 for x in names}
    b.additional_parameters = {"R_min": rng.random()} if rng.random() < .3 else {}
    b.z_grid = some(rng, lambda: grid(rng))
    b.b_i_z = None if b.z_grid is None else some(rng, lambda: arr(rng, n, len(b.z_grid)))
    return b


ZS = np.linspace(.1, 3, 7)


def rd_bias(b):
    out = {k: token(getattr(b, k)) for k in ("probe", "z_bin_edges", "model_name", "z_grid", "b_i_z")}
    out.update({"nuisance/" + k: token(v) for k, v in b.nuisance_parameters.items()})
    out.update({"additional/" + k: token(v) for k, v in b.additional_parameters.items()})
    if b.model_name != "fiducial_growth_void":
        # what the stored bias is for: its values bin by bin
        c = copy.deepcopy(b)
        st, _ = vlib.call(c.initBiasModel)
        st, v = vlib.call(c.model.computeBias, ZS) if st == "ok" else (st, None)
        out["computed"] = token(v) if st == "ok" else st
    return out


def mk_weight(rng, probe=None):
    w = wfs.weight_function_for_probe(probe or rng.choice(PROBES))
    w.z_grid = grid(rng)
    w.w_bin_z = arr(rng, rng.randint(1, 3), len(w.z_grid))
    w.density = some(rng, lambda: mk_density(rng, w.probe))
    if isinstance(w, wfs.WeightFunctionWithBias):
        w.bias = some(rng, lambda: mk_bias(rng, w.probe))
    return w


def sub(prefix, d):
    return {f"{prefix}/{k}": v for k, v in d.items()}


def rd_weight(w):
    out = {k: token(getattr(w, k)) for k in ("probe", "z_grid", "w_bin_z")}
    out["density"], out["bias"] = ("none" if x is None else "yes" for x in (w.density, w.bias))
    if w.density is not None:
        out.update(sub("density", rd_density(w.density)))
    if w.bias is not None:
        out.update(sub("bias", rd_bias(w.bias)))
    return out


def mk_pmm(rng):
    p = ps.PowerSpectrum()
    p.boltzmann_code = rng.choice(["CAMB", "CLASS"])
    p.z_grid, p.k_grid = grid(rng), grid(rng)
    p.lin_p_mm_z_k = arr(rng, len(p.z_grid), len(p.k_grid))
    p.nonlin_p_mm_z_k = arr(rng, len(p.z_grid), len(p.k_grid))
    p.transfer_function = some(rng, lambda: arr(rng, 3), .4)
    return p


def rd_pmm(p):
    return {k: token(getattr(p, k)) for k in ("boltzmann_code", "z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function")}


def par(rng, name, v, **kw):
    # (the densities keep the universe flat)
    p = PhysicalParameter(name=name, fiducial=v, current_value=v + (0. if name in ("Omm", "OmDE") else rng.choice([0., .001])), kind=kw.pop("kind", PhysicalParameter.COSMO_PAR_STRING),
                          is_free_parameter=rng.random() < .6, stem_factor=rng.choice([1., 2., .5]), units=rng.choice(["None", "km"]),
                          derivative_method=rng.choice(["SteM", "analytic"]), **kw)
    return p


PARF = ("name", "fiducial", "current_value", "kind", "is_free_parameter", "stem_factor", "derivative_method", "units", "probe")


def mk_cosmology(rng):
    c = cosm.Cosmology(params={k: par(rng, k, v) for k, v in COSMO.items()}, flat=rng.random() < .5, model_name=rng.choice(["CPL", "LCDM"]))
    c.z_grid = grid(rng)
    for k in ("dimensionless_hubble_array", "dimensionless_comoving_distance_array", "growth_factor_z"):
        setattr(c, k, some(rng, lambda: arr(rng, len(c.z_grid))))
    c.power_spectrum = some(rng, lambda: mk_pmm(rng), .6)
    return c


def rd_params(ps_):
    return {f"{n}/{k}": token(getattr(p, k)) for n, p in ps_.items() for k in PARF}


def rd_cosmology(c):
    out = {k: token(getattr(c, k)) for k in ("is_flat", "model_name", "z_grid", "dimensionless_hubble_array",
                                             "dimensionless_comoving_distance_array", "growth_factor_z")}
    out["E_z"], out["r_z"] = token(c.E_z), token(c.r_tilde_z)
    out.update(sub("params", rd_params(c.params)))
    return out


def mk_cl(rng, pair=None, weights=None):
    p1, p2 = pair or rng.choice(PAIRS)
    c = c_ells.AngularCoefficient(p1, p2)
    nl = rng.randint(1, 4)
    c.c_lij, c.l_bin_centers = arr(rng, nl, rng.randint(1, 3), 2), grid(rng, nl)
    c.l_bin_widths = some(rng, lambda: arr(rng, nl), .85)
    if weights is not None:
        c.kernel = mk_kernel(rng, p1, p2)
        c.kernel.weight1, c.kernel.weight2 = weights[p1], weights[p2]
    return c


def rd_cl(c):
    out = {k: token(getattr(c, k)) for k in ("probe1", "probe2", "c_lij", "l_bin_centers", "l_bin_widths")}
    out["kernel"] = "none" if c.kernel is None else "yes"
    if c.kernel is not None:
        out.update(sub("kernel", rd_kernel(c.kernel)))
    return out


def key(c):
    return f"{c.probe1}_{c.probe2}"


def mk_clcoll(rng):
    c = c_ells.AngularCoefficientsCollector()
    pr = rng.sample(PROBES, rng.randint(1, 3))
    ws = {p: mk_weight(rng, p) for p in pr} if rng.random() < .85 else None
    c.z_grid = some(rng, lambda: grid(rng))
    pairs = [p for p in PAIRS if set(p) <= set(pr)]
    rng.shuffle(pairs)
    if ws is None:
        pairs = pairs[:rng.randint(1, len(pairs))]
    for p in pairs:
        x = mk_cl(rng, p, ws)
        c.cl_dict[key(x)] = x
    c.weight_dict = dict(ws or {})
    return c


def mk_deltacl(rng, name=None):
    p1, p2 = rng.choice(PAIRS)
    d = DeltaCl(name=name or rng.choice(["GCph", "WL_XC", "a b"]))
    n, nl = rng.randint(1, 3), rng.randint(1, 3)
    d.delta_c_lij, d.l_bin_centers = arr(rng, nl, n, n), grid(rng, nl)
    d.inv_delta_c_lij = some(rng, lambda: arr(rng, nl, n, n))
    d.c_lij, d.noise_lij, d.l_bin_widths = some(rng, lambda: arr(rng, nl, n, n)), some(rng, lambda: arr(rng, nl, n, n)), some(rng, lambda: arr(rng, nl))
    if rng.random() < .6:
        d.probe_1, d.probe_2 = p1, p2
    return d


def rd_deltacl(d):
    return {k: token(getattr(d, k)) for k in ("name", "probe_1", "probe_2", "delta_c_lij", "inv_delta_c_lij", "c_lij", "noise_lij", "l_bin_centers", "l_bin_widths")}


def mk_deltacoll(rng):
    d = DeltaClCollection()
    names = ["Lensing", "PhotometricGalaxy", "XC(Lensing,Void)", "[WL+GCph+XC(WL,GCph)]"]
    for n in rng.sample(names, rng.randint(0, 3)):
        d[n] = mk_deltacl(rng, n)
    for n in rng.sample([f"{a}_{b}" for a, b in PAIRS], rng.randint(0, 3)):
        d.single_blocks[n] = mk_deltacl(rng, n)
    return d


def rd_deltacoll(d):
    out = {"kind": "deltacoll"}
    for n in d.keys():
        out.update(sub("delta/" + n, rd_deltacl(d[n])))
    for n, x in d.single_blocks.items():
        out.update(sub("single/" + n, rd_deltacl(x)))
    return out


MK = {k: globals()["mk_" + k] for k in KINDS}
READ = {k: globals()["rd_" + k] for k in KINDS if k != "clcoll"}
CLASS = {"density": rd.RedshiftDensity, "kernel": kfs.KernelFunction, "bias": bs.Bias, "weight": wfs.WeightFunction, "pmm": ps.PowerSpectrum,
         "cosmology": cosm.Cosmology, "cl": c_ells.AngularCoefficient, "clcoll": c_ells.AngularCoefficientsCollector, "deltacl": DeltaCl, "deltacoll": DeltaClCollection}


def part(slot, fam, shared, val):
    return {"slot": slot, "fam": fam, "shared": shared, "val": val}


def parts(kind, o, full=True):
    """The parts of an object, as the specification names them."""
    fam = FAM.get(kind, kind)
    if kind == "cosmology":
        out = [part(kind, fam, "no", rd_cosmology(o))]
        if full and o.power_spectrum is not None:
            out.append(part("pmm", fam, "no", rd_pmm(o.power_spectrum)))
    elif kind == "cl":
        out = [part("cl:" + key(o), fam, "no", rd_cl(o))]
        if o.kernel is not None:
            ws = {w.probe: w for w in (o.weight1, o.weight2) if w is not None}
            out += [part("w:" + p, fam, "yes", rd_weight(w)) for p, w in ws.items()]
    elif kind == "clcoll":
        out = [part("clcoll", fam, "no", {"z_grid": token(o.z_grid)})]
        out += [part("cl:" + k, fam, "no", rd_cl(c)) for k, c in o.cl_dict.items()]
        out += [part("w:" + p, fam, "no", rd_weight(w)) for p, w in o.weight_dict.items()]
    else:
        out = [part(kind, fam, "no", READ[kind](o))]
    return out


def content(kind, o, full=True):
    """Parts of a loaded object, checked inside: the weight functions of the coefficients are those of the collection."""
    out = [{"slot": p["slot"], "val": p["val"]} for p in parts(kind, o, full)]
    if kind == "clcoll":
        for k, c in o.cl_dict.items():
            if c.kernel is not None:
                for w in (c.weight1, c.weight2):
                    v = None if w is None else {"slot": "w:" + w.probe, "val": rd_weight(w)}
                    if v not in out:
                        out.append({"slot": f"weight of {k}", "val": {} if v is None else v["val"]})
    return out


# ------------------------------------------------------------------ the files

class Files:
    def __init__(self, root, rng):
        self.root, self.rng = Path(tempfile.mkdtemp(dir=root)), rng
        self.sums = {}

    def path(self, f):
        return self.root / f"file{f}.h5"

    def spell(self, r):
        """a root as the specification names it, in one of the ways of writing it"""
        return self.rng.choice([r, r, "/" + r, "/" + r + "/"]) if r != "top" else "/"

    def file(self, f):
        p = self.path(f)
        return self.rng.choice([p, str(p)])

    def bytes(self):
        new = {}
        for f in range(1, 5):
            if self.path(f).exists():
                new[f] = hashlib.sha1(self.path(f).read_bytes()).hexdigest()
        out = [f for f in range(1, 5) if new.get(f) != self.sums.get(f)]
        self.sums = new
        return out

    @staticmethod
    def open():
        return len(h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE))

    def save(self, kind, o, f, r):
        st, e = vlib.call(o.saveToHDF5, self.file(f), self.spell(r))
        n = self.open()
        e = None
        return st, n

    def load(self, kind, f, r, probes=None, spectrum=True, root=None):
        """returns (outcome, object, files open afterwards)"""
        file, root = self.file(f), root or self.spell(r)
        cls, rng = CLASS[kind], self.rng
        if kind == "cl":
            if rng.random() < .5:
                st, o = vlib.call(cls.fromHDF5, file, probes[0], probes[1], root)
            else:
                o = cls(*probes)
                st, e = vlib.call(o.loadFromHDF5, file, root=root, **(dict(probe1=probes[0], probe2=probes[1]) if rng.random() < .5 else {}))
                e = None
        elif kind == "cosmology":
            if rng.random() < .5:
                st, o = vlib.call(cls.fromHDF5, file, root, load_power_spectrum=spectrum)
            else:
                # (an object keeps what it was already told of its model)
                o = cls(model_name=None)
                if rng.random() < .5:
                    o.power_spectrum = ps.PowerSpectrum()
                st, e = vlib.call(o.loadFromHDF5, file, root=root, load_power_spectrum=spectrum)
                e = None
                if not spectrum and st == "ok":
                    o.power_spectrum = None
        elif kind == "weight" and rng.random() < .4:
            with h5py.File(file, "r") as h:
                probe = h[root].attrs.get("probe") if root in h else None
            if probe in PROBES:
                o = wfs.weight_function_for_probe(probe)
                st, e = vlib.call(o.loadFromHDF5, file, root=root)
                e = None
            else:
                # (an existing weight function is content with missing arrays)
                st, o = vlib.call(cls.fromHDF5, file, root)
        elif kind == "deltacl":
            if rng.random() < .5:
                st, o = vlib.call(cls.fromHDF5, file, name="any", root=root)
            else:
                with h5py.File(file, "r") as h:
                    name = h[root].attrs.get("name", "any") if root in h else "any"
                o = cls(name=name)
                st, e = vlib.call(o.loadFromHDF5, file, root=root)
                e = None
        elif rng.random() < .5 or kind == "weight":
            st, o = vlib.call(cls.fromHDF5, file, root)
        else:
            o = cls()
            st, e = vlib.call(o.loadFromHDF5, file, root=root)
            e = None
        n = self.open()
        return st, (o if st == "ok" else None), n


class AnyIO(AbstractH5FileIO):
    def writeToObject(self, obj):
        pass

    def writeObjectToFile(self, obj):
        pass


# ------------------------------------------------------------------ behaviours of the specification

REAL = ["density", "kernel", "bias", "weight", "deltacl", "deltacoll", "clcoll"]


def replay(ck, recs, tmp):
    runs, cur = [], []
    for r in recs:
        if r["n"] == 0 and cur and cur[-1]["n"] != 0:
            runs.append(cur)
            cur = []
        cur.append(r)
    runs.append(cur)
    k = lambda s: json.dumps(s, sort_keys=True)
    seen = set()
    for run in runs:
        by = {}
        for r in run:
            by.setdefault(r["n"], []).append(r)
        rng = ck.rng
        fs = Files(tmp, rng)
        alpha, beta = rng.sample(REAL, 2)
        p1, p2 = rng.sample(PROBES, 2)
        objs, vals = {}, {}
        c11, c12 = (p1, p1), (p1, p2) if PROBES.index(p1) < PROBES.index(p2) else (p2, p1)
        kinds = {"alpha": alpha, "beta": beta, "cosmology": "cosmology", "bare": "cosmology", "pmm": "pmm", "cl11": "cl", "cl12": "cl"}
        for v in "ab":
            ws = {p: mk_weight(rng, p) for p in (p1, p2)}
            cos = mk_cosmology(rng)
            cos.power_spectrum = mk_pmm(rng)
            bare = copy.deepcopy(cos)
            bare.power_spectrum = None
            objs.update({("alpha", v): MK[alpha](rng), ("beta", v): MK[beta](rng), ("cosmology", v): cos, ("bare", v): bare, ("pmm", v): cos.power_spectrum,
                         ("cl11", v): mk_cl(rng, c11, ws), ("cl12", v): mk_cl(rng, c12, ws)})
        for (kd, v), o in objs.items():
            if kd != "bare":
                vals[kd + v] = json.dumps(content(kinds[kd], o), sort_keys=True)
        want = lambda kd, m: sorted(json.dumps(x, sort_keys=True) for x in spec_content(kd, m))

        def spec_content(kd, ps_):
            out = []
            for slot, val in ps_:
                v = val[-1]
                if slot in ("w1", "w2"):
                    out.append({"slot": "w:" + (p1 if slot == "w1" else p2), "val": rd_weight(objs["cl12", v].kernel.weight1
                                if objs["cl12", v].kernel.weight1.probe == (p1 if slot == "w1" else p2) else objs["cl12", v].kernel.weight2)})
                elif slot in ("cl11", "cl12"):
                    out.append({"slot": "cl:" + key(objs[slot, v]), "val": rd_cl(objs[slot, v])})
                elif slot == "cosmology":
                    out.append({"slot": slot, "val": rd_cosmology(objs["bare", v])})
                elif slot == "pmm":
                    out.append({"slot": slot, "val": rd_pmm(objs["pmm", v])})
                else:
                    out += content(kinds[slot], objs[slot, v])
            return out
        mem, done = {}, []
        for n in sorted(by)[:-1]:
            nxt = k(by[n + 1][0]["pre"])
            cand = [r for r in by[n] if k(r["post"]) == nxt]
            if not cand:
                raise vlib.MachineryError("simulated behaviour does not connect")
            # steps that change nothing are tried as well
            for r in [x for x in rng.sample(by[n], min(4, len(by[n]))) if x["op"]["s"] in ("refuse", "noload")] + [rng.choice(cand)]:
                a, args = r["op"]["s"], r["op"]["a"]
                done.append([a, *args])
                seen.add(a)
                ck.s2i += 1
                fs.bytes()
                say = lambda what: ck.violation(f"after {done} (alpha={alpha}, beta={beta}, probes {p1} {p2}): {what}", r)
                if a == "new":
                    mem[args[0]] = copy.deepcopy(objs[args[1], args[2]])
                    continue
                if a in ("save", "refuse"):
                    kd = r["pre"]["mem"][args[0] - 1]["kind"]
                    st, left = fs.save(kinds[kd], mem[args[0]], args[1], args[2])
                    if (st == "ok") != (a == "save"):
                        say(f"save gives {st}")
                        return seen
                    if [f for f in fs.bytes() if f != args[1]]:
                        say("another file changed")
                        return seen
                else:
                    kd = args[3]
                    if not fs.path(args[1]).exists():
                        continue
                    st, o, left = fs.load(kinds[kd], args[1], args[2], probes=c11 if kd == "cl11" else c12, spectrum=kd == "cosmology")
                    if (st == "ok") != (a == "load"):
                        if a == "noload" and kinds[kd] == "weight" and any(c[0] == args[2] for c in r["pre"]["files"][args[1] - 1]):
                            continue     # a weight function may have no arrays
                        say(f"load gives {st}")
                        return seen
                    if fs.bytes():
                        say("a load changed a file")
                        return seen
                    if a == "load":
                        got = sorted(json.dumps(x, sort_keys=True) for x in content(kinds[kd], o))
                        if got != want(kd, r["post"]["mem"][args[0] - 1]["parts"]):
                            say(f"the loaded object is not {r['post']['mem'][args[0] - 1]['parts']}")
                            return seen
                        mem[args[0]] = o
                if left:
                    say("a file is left open")
                    return seen
        # in the end the files hold what the specification says
        last = by[max(by)][0]["pre"]
        for f, cells in enumerate(last["files"], 1):
            for root in {c[0] for c in cells}:
                here = {c[1]: c for c in cells if c[0] == root}
                for kd in ("alpha", "beta", "cosmology", "bare", "pmm", "cl11", "cl12"):
                    need = {"cosmology": ["cosmology", "pmm"], "bare": ["cosmology"]}.get(kd, [kd])
                    if not set(need) <= set(here):
                        continue
                    also = {"cl11": ["w1"], "cl12": ["w1", "w2"]}.get(kd, [])
                    st, o, left = fs.load(kinds[kd], f, root, probes=c11 if kd == "cl11" else c12, spectrum=kd == "cosmology")
                    got = sorted(json.dumps(x, sort_keys=True) for x in content(kinds[kd], o)) if st == "ok" else st
                    if got != want(kd, [here[s][1:] for s in need + also]):
                        ck.violation(f"after {done} (alpha={alpha}, beta={beta}): file {f}, root {root} does not hold {here}: {st}", last)
                        return seen
        shutil.rmtree(fs.root)
    ck.sample({"operations": done})
    return seen


# ------------------------------------------------------------------ recorded histories

ROOTS = ["top", "grp", "grp/sub", "grp2", "PhotometricGalaxy", "deep/er/place"]


def change(rng, kind, o):
    """the object in memory changes in place"""
    names = [k for k, v in vars(o).items() if isinstance(v, np.ndarray)]
    if names:
        n = rng.choice(names)
        if rng.random() < .5:
            getattr(o, n)[...] *= 2
        else:
            setattr(o, n, getattr(o, n) + 1)


def eq_fields(kind, o):
    if kind == "clcoll":
        return [[k, rd_cl(c)] for k, c in o.cl_dict.items()]
    return parts(kind, o)[0]["val"]


def above(upper, lower):
    return upper == "top" or lower.startswith(upper + "/")


def history(rng, tmp, length):
    fs, tr, mem, cells = Files(tmp, rng), [], {}, {}
    pool = rng.sample(KINDS, rng.randint(1, 4))
    shared = {}      # weight functions of the coefficients of a root
    fs.bytes()

    def log(**ev):
        ev["bytes"] = fs.bytes()
        ev.setdefault("open", fs.open())
        tr.append(ev)
    for _ in range(length):
        r = rng.random()
        f, root = rng.randint(1, 3), rng.choice(ROOTS)
        if r < .45:
            # save: an object of the pool, or one loaded or changed before
            kind = rng.choice(pool)
            have = cells.get((f, root))
            if have and have != FAM.get(kind, kind):
                if rng.random() < .8:
                    continue
                kind = rng.choice([k for k in KINDS if FAM.get(k, k) == have])
            if kind == "cl":
                if (f, root) not in shared and root != "top" and rng.random() < .3 and not {x for x in cells if x[0] == f and x != (f, root) and cells[x] in ("cl", "clcoll") and above(x[1], root)}:
                    shared[f, root] = dict.fromkeys(PROBES)      # kernels without weight functions
                ws = shared.setdefault((f, root), {p: mk_weight(rng, p) for p in PROBES})
                o = mk_cl(rng, None, ws if rng.random() < .8 else None)
            elif kind in mem and rng.random() < .4 and FAM.get(kind, kind) != "cls":
                o = mem[kind]
            else:
                o = MK[kind](rng)
            ps_ = parts(kind, o)
            if kind in ("cl", "clcoll") and any(x[0] == f and x[1] != root and any(w is None for w in ws.values()) and above(root, x[1]) for x, ws in shared.items()):
                continue     # where older versions wrote the weight functions of the coefficients there
            if kind == "cosmology" and o.power_spectrum is not None and cells.get((f, root)):
                # with its spectrum: only where both places are free or the cosmology is there
                if any(e["op"] == "save" and e["f"] == f and e["r"] == root and e["out"] == "ok" and all(p["slot"] != "cosmology" for p in e["parts"]) for e in tr):
                    continue
            if rng.random() < .5:
                mem[kind] = o
            st, n = fs.save(kind, o, f, root)
            log(op="save", f=f, r=root, kind=kind, parts=ps_, out=st, open=n, exists="yes" if fs.path(f).exists() else "no")
            cells[f, root] = FAM.get(kind, kind)
        elif r < .8:
            known = [c for c in cells]
            if known and rng.random() < .85:
                f, root = rng.choice(known)
            kind = rng.choice(pool)
            if (f, root) in cells and rng.random() < .8:
                kind = rng.choice([k for k in KINDS if FAM.get(k, k) == cells[f, root]])
            if not fs.path(f).exists():
                continue
            ev = {"op": "load", "f": f, "r": root, "kind": kind, "parts": [], "weights": []}
            pr, spectrum = None, rng.random() < .7
            if kind == "cl":
                pr = rng.choice(PAIRS)
                done = [p["slot"] for e in tr if e["op"] == "save" and (e["f"], e["r"]) == (f, root) for p in e["parts"] if p["slot"].startswith("cl:")]
                if done and rng.random() < .8:
                    pr = tuple(rng.choice(done)[3:].split("_"))
                ev.update(want=["cl:" + "_".join(pr)], weights=["w:" + p for p in set(pr)])
            elif kind == "cosmology":
                ev["want"] = ["cosmology"] + (["pmm"] if spectrum else [])
            else:
                ev["want"] = [kind]
            st, o, n = fs.load(kind, f, root, pr, spectrum)
            if st == "ok":
                ev["parts"] = content(kind, o, spectrum)
                mem[kind] = o
            log(**ev, out=st, open=n)
        elif r < .86:
            known = [c for c in cells if cells[c] == "clcoll"]
            if known:
                f, root = rng.choice(known)
                pr = rng.choice(PAIRS)
                done = [p["slot"] for e in tr if e["op"] == "save" and (e["f"], e["r"]) == (f, root) for p in e["parts"] if p["slot"].startswith("cl:")]
                if done and rng.random() < .8:
                    pr = tuple(rng.choice(done)[3:].split("_"))
                at = "cls" if root == "top" else root + "/cls"
                st, o, n = fs.load("cl", f, root, pr, root=rng.choice([at, "/" + at]))
                log(op="pick", f=f, r=root, slot="cl:" + "_".join(pr), weights=["w:" + p for p in set(pr)], out=st, open=n,
                    parts=content("cl", o) if st == "ok" else [])
        elif r < .92 and mem:
            kind = rng.choice(sorted(mem))
            if kind not in ("deltacoll", "clcoll", "cl", "cosmology", "bias"):
                mem[kind] = copy.deepcopy(mem[kind]) if rng.random() < .3 else mem[kind]
                change(rng, kind, mem[kind])
                log(op="set", kind=kind)
        else:
            mode = rng.choice(["r", "r+", "a", "w", "w-", "x"])
            h = AnyIO()
            ex = [c[1] for c in cells if c[0] == f]
            st, e = vlib.call(h.openFile, fs.file(f), mode, fs.spell(rng.choice(ex)) if ex and rng.random() < .7 else "/")
            if st == "ok":
                h.closeFile()
            e = h = None
            log(op="open", f=f, mode=mode, out=st, exists="yes" if fs.path(f).exists() else "no")
    shutil.rmtree(fs.root)
    return tr


def comparisons(rng, tmp):
    """Equality of objects: an object with its reloaded self, with itself but for one field, and with another."""
    tr, fs = [], Files(tmp, rng)
    for i in range(6):
        kind = rng.choice([k for k in KINDS if k != "deltacoll"])
        o = MK[kind](rng) if kind != "cl" else mk_cl(rng, None, {p: mk_weight(rng, p) for p in PROBES} if rng.random() < .7 else None)
        how = rng.choice(["reload", "change", "other", "shape"])
        st, _ = fs.save(kind, o, 1, f"o{i}")
        st2, q, _ = fs.load(kind, 1, f"o{i}", (o.probe1, o.probe2) if kind == "cl" else None, getattr(o, "power_spectrum", None) is not None)
        if st != "ok" or st2 != "ok":
            tr.append({"op": "file", "out": f"{kind}: {st} {st2}", "bytes": [], "open": 0, "val": {}, "got": {}})
            continue
        x = q
        if how == "change":
            change(rng, kind, x)
        elif how == "other":
            x = MK[kind](rng)
        elif how == "shape":
            names = [k for k, v in vars(x).items() if isinstance(v, np.ndarray)]
            if names:
                n = rng.choice(names)
                v = getattr(x, n)
                setattr(x, n, rng.choice([np.concatenate([v, v]), v[:1], None]))
            elif kind == "clcoll" and len(x.cl_dict) > 1:
                del x.cl_dict[rng.choice(sorted(x.cl_dict))]
        l, r = (o, x) if rng.random() < .5 else (x, o)
        with contextlib.redirect_stdout(io.StringIO()):
            st, v = vlib.call(lambda: l == r)
        pm = lambda c: rd_pmm(c.power_spectrum) if kind == "cosmology" and c.power_spectrum is not None else {"none": "none"}
        pr = lambda c: {k: w for k, w in pm(c).items() if k != "boltzmann_code"}

        def fields(c):
            d = eq_fields(kind, c)
            if kind == "cosmology":
                d = {"params": json.dumps({k: w for k, w in d.items() if k.startswith("params/") and not k.endswith(("/units", "/probe"))}, sort_keys=True),
                     "is_flat": d["is_flat"], "model_name": d["model_name"]}
            if kind == "bias":
                d.pop("computed", None)
            return d
        tr.append({"op": "eq", "kind": kind, "l": fields(l), "r2": fields(r), "lp": pr(l), "rp": pr(r), "bytes": [], "open": 0,
                   "out": ("true" if v else "false") if st == "ok" else st})
    shutil.rmtree(fs.root)
    return tr


def own_files(rng, tmp):
    """Objects with a file of their own: Fisher matrices, derivatives, parameters, the densities of a run."""
    tr, d = [], Path(tempfile.mkdtemp(dir=tmp))

    def log(**ev):
        tr.append({"bytes": [], "open": Files.open(), **ev})
    for i in range(5):
        what = rng.choice(["fisher", "derivs", "params", "densities", "fisher", "fcsv"])
        ev = {"op": "file", "what": what, "val": {}, "got": {}, "out": "ok"}
        if what in ("fisher", "fcsv"):
            names = rng.sample(["Omm", "Omb", "w0", "wa", "h", "bgph0", "bgph1", "bgph10", "aIA"], rng.randint(1, 6))
            cols = names[:] if rng.random() < .6 else rng.sample(names, len(names))
            # (text files need not keep the last digit)
            m = pd.DataFrame(np.round(arr(rng, len(names), len(names)), 4), index=names, columns=cols)
            ncos = rng.randint(1, len(names))
            name = rng.choice(["GCph", "[WL+GCph+XC(WL,GCph)]", "a, b", "WL + XC"])
            F = FisherMatrix.from_dataframe(m, name=name, cosmological_parameters=names[:ncos], nuisance_parameters=names[ncos:])

            def read(F):
                return {"name": F.name, **{f"{a}|{b}": token(F.matrix.loc[a, b]) for a in F.index for b in F.columns},
                        **{p: "cosmo" for p in F.cosmological_parameters}, **{p: "nuis" for p in F.nuisance_parameters},
                        "square": str(sorted(F.index) == sorted(F.columns))}
            ev["val"] = read(F)
            if what == "fisher":
                out = d / f"f{i}.hdf5"
                sep = rng.random() < .5
                (d / f"dir{i}").mkdir()
                st, e = vlib.call(F.writeToFile, outfile=out) if sep else vlib.call(F.writeToFile, outdir=d / f"dir{i}")
                out = out if sep else next((d / f"dir{i}").iterdir(), out)
                st2, G = vlib.call(FisherMatrix.fromHDF5, out)
                ok = st == st2 == "ok"
            else:
                m.to_csv(d / f"{i}.csv")
                st, G = vlib.call(FisherMatrix.fromCSV, d / f"{i}.csv", cosmological_parameters=names[:ncos], nuisance_parameters=names[ncos:])
                ok = st == "ok"
                if ok:
                    G.name = name
            if ok:
                ev["got"] = read(G)
                same = vlib.call(lambda: F == G)
                if same[0] != "ok" or not same[1]:
                    ev["out"] = f"comparison {same[0]}"
            else:
                ev["out"] = st
        elif what == "derivs":
            c = ClDerivativeCollector()
            for p1, p2 in rng.sample(PAIRS, rng.randint(1, 4)):
                x = ClDerivative(p1=p1, p2=p2)
                x.l_bin_centers, x.dc_lij = grid(rng), arr(rng, 2, 3, 2)
                c.dcl_dict[f"{p1}_{p2}"] = x
            read = lambda c: {f"{k}/{a}": token(getattr(x, a)) for k, x in c.dcl_dict.items() for a in ("dc_lij", "l_bin_centers", "probe1", "probe2")}
            ev["val"] = read(c)
            st, e = vlib.call(c.writeToFile, d / f"d{i}.h5")
            st2, g = vlib.call(ClDerivativeCollector.fromHDF5, d / f"d{i}.h5", "h")
            if st == st2 == "ok":
                ev["got"] = read(g)
                if list(g.dc_lij_array_dict) != list(g.dcl_dict) or any(g[k] is not x for k, x in g.dcl_dict.items()):
                    ev["out"] = "keys"
            else:
                ev["out"] = f"{st} {st2}"
        elif what == "params":
            names = rng.sample(sorted(COSMO), rng.randint(1, 5))
            pc = PhysicalParametersCollection(base_stem_disps=[.01, .02], is_universe_flat=rng.random() < .5)
            for n in names:
                pc[n] = par(rng, n, COSMO[n])
            for j in range(rng.randint(0, 12)):
                pc[f"bgph{j}"] = par(rng, f"bgph{j}", 1. + j, kind=PhysicalParameter.NUISANCE_PAR_STRING, probe="PhotometricGalaxy")

            def read(pc):
                return {**rd_params(dict(pc.items())), "order": ",".join(pc.keys()), "flat": str(pc.is_universe_flat), "disps": token(np.asarray(pc.stem_disps)),
                        "steps": token(np.asarray(pc.stem_steps))}
            ev["val"] = read(pc)
            st, e = vlib.call(pc.writeJSON, d / f"{i}.json")
            if rng.random() < .5:
                st2, g = vlib.call(PhysicalParametersCollection.fromJSON, d / f"{i}.json")
            else:
                g = PhysicalParametersCollection()
                st2, e = vlib.call(g.readJSON, d / f"{i}.json")
            if st == st2 == "ok":
                ev["got"] = read(g)
            else:
                ev["out"] = f"{st} {st2}"
        else:
            ds = {p: mk_density(rng, p) for p in rng.sample(PROBES, rng.randint(1, 4))}
            read = lambda ds: {f"{p}/{k}": v for p, x in ds.items() for k, v in rd_density(x).items()}
            ev["val"] = read(ds)
            st, e = vlib.call(rd.save_densities_to_file, ds, d / f"{i}.h5")
            st2, g = vlib.call(rd.load_densities_from_file, d / f"{i}.h5")
            if st == st2 == "ok":
                ev["got"] = read(g)
            else:
                ev["out"] = f"{st} {st2}"
        e = None
        log(**ev)
    shutil.rmtree(d)
    return tr


def run(ck):
    cfg = lambda n, **kw: vlib.cfg_text("Spec", {"MaxOps": str(n)}, **kw)
    ck.model("StoreMC", cfg(ck.budget(4, 5), invariants=["Kept", "OnePerPlace"], properties=["Faithful", "Isolated"], view="View"), workers=8, timeout=1500, heap="12g")
    tmp = Path(tempfile.mkdtemp(prefix="p19_"))
    try:
        seen = set()
        for i in range(ck.budget(2, 12)):
            recs = ck.graph("StoreMC", cfg(14, action_constraints=["Emit", "Guided"]), repeats=True, simulate=f"num={ck.budget(50, 150)}", extra=["-depth", "15"], seed=ck.seed * 100 + i, coverage=False, timeout=1500)
            recs = [r for r in recs]
            seen |= replay(ck, recs, tmp) or set()
        if not ck.viol and not {"new", "save", "refuse", "load", "noload"} <= seen:
            raise vlib.MachineryError(f"operations missing from the behaviours: {seen}")
        traces = [history(ck.rng, tmp, ck.rng.randint(6, 30)) for _ in range(ck.budget(220, 3000))]
        traces += [comparisons(ck.rng, tmp) for _ in range(ck.budget(80, 1000))]
        traces += [own_files(ck.rng, tmp) for _ in range(ck.budget(80, 1000))]
    finally:
        shutil.rmtree(tmp)
    traces = [t for t in traces if t]
    ck.validate("StoreTrace", traces, label="saved objects", batch=150)
    flat = [e for t in traces for e in t]
    for op, kinds in (("save", KINDS), ("load", KINDS)):
        for k in kinds:
            if not any(e["op"] == op and e["kind"] == k and e["out"] == "ok" for e in flat) and not ck.viol:
                raise vlib.MachineryError(f"no successful {op} of {k}")
    first = lambda f: copy.deepcopy(next(t for t in traces if any(f(e) for e in t)))
    t = first(lambda e: e["op"] == "load" and e["out"] == "ok")
    e = next(e for e in t if e["op"] == "load" and e["out"] == "ok")
    e["parts"][0]["val"]["z_grid"] = "f(2,)0000000000"
    ck.must_reject("StoreTrace", t, "another array loaded")
    t = first(lambda e: e["op"] == "save" and e["out"] != "ok")
    next(e for e in t if e["op"] == "save" and e["out"] != "ok")["out"] = "ok"
    ck.must_reject("StoreTrace", t, "a taken place saved over")
    t = first(lambda e: e["op"] == "load")
    next(e for e in t if e["op"] == "load")["bytes"] = [2]
    ck.must_reject("StoreTrace", t, "a load that writes")
    t = first(lambda e: e["op"] == "eq" and e["out"] == "true")
    next(e for e in t if e["op"] == "eq" and e["out"] == "true")["out"] = "false"
    ck.must_reject("StoreTrace", t, "equal objects that compare different")
    ck.assumptions += ["one family of objects under each root, and coefficients saved under one root agree on their weight functions",
                       "objects are complete: the fields their files require are set",
                       "the description of a parameter is not part of what is persisted"]
