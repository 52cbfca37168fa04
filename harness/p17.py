"""P17  the step-fit derivative  (Stem.tla)."""
import copy
import itertools
import os
import shutil
import tempfile
import types
from fractions import Fraction
from pathlib import Path

import h5py
import numpy as np

import repo
import vlib
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.derivatives import cl_derivative as cd
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.derivatives.differentiator import AnalyticClDifferentiator, SteMClDifferentiator
from seyfert.main import cl_derivative_core
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from seyfert.utils.workspace import WorkSpace

INV = ["Alone", "Exact", "Odd", "Widest", "Scales"]
MAXDEN = 12000
PROBES = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]


def frac(v):
    v = float(v)
    if not np.isfinite(v):
        return [0, 0]
    f = Fraction(v).limit_denominator(MAXDEN)
    if abs(float(f) - v) > 1e-8 * (1 + abs(v)):
        return [0, 0]
    return [f.numerator, f.denominator]


# ------------------------------------------------------------------ replay of the model's elements

def replay(ck, trans, n):
    rng = ck.rng
    trans = sorted(trans, key=lambda t: t["y"])
    if len(trans) > (lim := ck.budget(6000, 60000)):
        trans = rng.sample(trans, lim)
    xs = np.array([i - n // 2 for i in range(n)], float)
    rng.shuffle(trans)
    i = 0
    while i < len(trans):
        chunk = trans[i:i + rng.choice([1, 2, 5, 60, 400])]
        i += len(chunk)
        x0, h = rng.choice([0., 1., -1., .25]), rng.choice([1., .0625, -.125])
        x = x0 + h * xs
        y = np.array([t["y"] for t in chunk], float).T / 64
        st, r = vlib.call(SteMClDifferentiator.vectorizedSteM, x, y.reshape(n, 1, len(chunk), 1))
        vec = np.asarray(r).ravel() * h * 64 if st == "ok" else [np.nan] * len(chunk)
        for j, t in enumerate(chunk):
            ck.s2i += 1
            want = [t["n"], t["d"]]
            got = frac(vec[j])
            if got != want:
                ck.violation(f"samples {t['y']} in a batch of {len(chunk)}: the slope on the {n - 2 * t['s']} central samples is "
                             f"{Fraction(*want)}, the derivative was {vec[j]} ({st})", {"samples": t["y"], "batch": [c["y"] for c in chunk][:50]})
                return
            if j % 3 == 0:
                st1, one = vlib.call(SteMClDifferentiator.STEM_derivative, x, y[:, j])
                if st1 != "ok" or frac(one * h * 64) != want:
                    ck.violation(f"samples {t['y']} alone: the slope on the {n - 2 * t['s']} central samples is {Fraction(*want)}, "
                                 f"the derivative was {one} ({st1})", {"samples": t["y"]})
                    return
    ck.sample({"samples": [t["y"] for t in trans[:4]], "shrunk": sorted({t["s"] for t in trans})})


# ------------------------------------------------------------------ recorded executions

def stencil(rng):
    k = rng.choice([1, 2, 3, 3, 5, 7])
    return sorted(rng.sample(range(1, max(k, 7) + rng.choice([1, 3])), k)) if rng.random() < .5 else list(range(1, k + 1))


def element(rng, x):
    kind = rng.choice(["line", "near", "near", "kink", "random", "const", "zero", "zeros", "curve"])
    a = rng.choice([-1, 1]) * rng.randint(60, 200)
    b = rng.randint(-12, 12)
    y = [a + b * v for v in x]
    if kind == "near":
        y = [v + rng.choice([0, 0, 1, -1]) for v in y]
    elif kind == "kink":
        m = rng.choice(x)
        y = [v + (rng.choice([40, -30]) if abs(t) >= abs(m) and t else 0) for v, t in zip(y, x)]
    elif kind == "random":
        y = [rng.randint(-150, 150) for _ in x]
    elif kind == "const":
        y = [a] * len(x)
    elif kind == "zero":
        y = [0] * len(x)
    elif kind == "zeros":
        y = [v if rng.random() < .7 else 0 for v in y]
    elif kind == "curve":
        c = rng.choice([-2, -1, 1, 2])
        y = [v + c * t * t for v, t in zip(y, x)]
    return y


def setup(rng, nuis_probe=None):
    disps = stencil(rng)
    x = [-d for d in reversed(disps)] + [0] + disps
    fid = rng.choice([1., -1., .5, 0., 2.])
    factor = rng.choice([1., 2.])
    name = rng.choice(["h", "w0", "wa"]) if nuis_probe is None else {"Lensing": "aIA", "PhotometricGalaxy": "bgph1",
                                                                     "SpectroscopicGalaxy": "bgsp2"}[nuis_probe]
    kind = PhysicalParameter.COSMO_PAR_STRING if nuis_probe is None else PhysicalParameter.NUISANCE_PAR_STRING
    par = PhysicalParameter(name=name, kind=kind, fiducial=fid, current_value=fid, is_free_parameter=True, units="None",
                            stem_factor=factor, derivative_method="SteM", probe=nuis_probe)
    coll = PhysicalParametersCollection(data_dict={name: par}, base_stem_disps=np.array(disps) / 64, is_universe_flat=False)
    unit = factor / 64 * (fid if fid else 1.)       # one integer step in units of the parameter
    return x, par, coll, unit


def spectra(rng, x, probes, same=()):
    """samples of every element of every spectrum, one array per step"""
    out = {}
    for p1, p2 in itertools.combinations_with_replacement(probes, 2):
        shape = (rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2))
        el = {ix: element(rng, x) for ix in np.ndindex(*shape)}
        if (p1, p2) in same:
            el = {ix: [y[0]] * len(x) for ix, y in el.items()}
        out[p1, p2] = (shape, el)
    return out


def arrays(shape, el, j):
    a = np.zeros(shape)
    for ix, y in el.items():
        a[ix] = y[j] / 1024
    return a


def judged(dc, shape, el, unit):
    if dc.shape != shape:
        return [{"y": y, "n": 0, "d": 0} for y in el.values()]
    return [{"y": y, "n": (f := frac(dc[ix] * unit * 1024))[0], "d": f[1]} for ix, y in el.items()]


def stem_event(st, dc, x, shape, el, unit):
    return {"op": "stem", "out": st, "x": x, "elements": judged(dc, shape, el, unit) if st == "ok" else []}


def record_direct(rng):
    tr = []
    for _ in range(rng.randint(1, 4)):
        x, par, coll, unit = setup(rng)
        shape, el = spectra(rng, x, ["Lensing"])["Lensing", "Lensing"]
        d = SteMClDifferentiator(probe1="Lensing", probe2="Lensing", param=par, phys_pars=coll, vectorized=rng.random() < .5)
        d.c_dvar_lij = np.stack([arrays(shape, el, j) for j in range(len(x))])
        st, dc = vlib.call(d.doComputeDerivative)
        tr.append(stem_event(st, dc, x, shape, el, unit))
    return tr


def record_inprocess(rng):
    x, par, coll, unit = setup(rng)
    probes = sorted(rng.sample(PROBES, rng.randint(1, 3)), key=PROBES.index)
    sp = spectra(rng, x, probes)
    steps = list(range(-(len(x) // 2), len(x) // 2 + 1))
    cls = {}
    for s in rng.sample(steps, len(steps)):       # in any order
        d = {gu.get_probes_combination_key(*k): types.SimpleNamespace(c_lij=arrays(*v, steps.index(s)), l_bin_centers=np.array([10., 20.]))
             for k, v in sp.items()}
        c = type("Coll", (), {"cl_dict": d, "__getitem__": lambda self, k: self.cl_dict[k]})()
        cls[s] = c
    with repo.Patched((cl_derivative_core, "compute_cls_variations", lambda *a, **k: cls)):
        st, coll_ = vlib.call(cl_derivative_core.compute_cls_derivatives_wrt, par.name, cls[0], None, coll, {}, None, None)
    tr = [{"op": "keys", "want": [gu.get_probes_combination_key(*k) for k in sp], "got": list(coll_.dcl_dict) if st == "ok" else []}]
    if st == "ok":
        for k, (shape, el) in sp.items():
            tr.append(stem_event("ok", coll_[gu.get_probes_combination_key(*k)].dc_lij, x, shape, el, unit))
    return tr


def quiet(*a, **k):
    pass


def record_program(rng, tmp, script):
    """bin/compute_derivatives on a scratch run directory"""
    probes = sorted(rng.sample(PROBES, rng.randint(1, 3)), key=PROBES.index)
    nuis = rng.choice([None, None] + probes)
    x, par, coll, unit = setup(rng, nuis)
    pairs = list(itertools.combinations_with_replacement(probes, 2))
    indep = [k for k in pairs if nuis is not None and nuis not in k]
    sp = spectra(rng, x, probes)
    rd = Path(tempfile.mkdtemp(dir=tmp))
    ws = WorkSpace(rd)
    ws.cl_dir.mkdir()
    steps = list(range(-(len(x) // 2), len(x) // 2 + 1))
    order = rng.sample(steps, len(steps))
    drop = rng.choice([s for s in steps if s]) if rng.random() < .15 else None
    for s in order:
        if s == drop:
            continue
        d = ws.cl_dir / fsu.get_cosmology_jobdir_name(dvar=par.name if s else "central", step=s)
        d.mkdir()
        with h5py.File(d / "cls.h5", "w") as hf:
            for k, v in sp.items():
                g = hf.create_group(f"cls/{gu.get_probes_combination_key(*k)}")
                g["c_lij"] = arrays(*v, steps.index(s))
                g["l_bin_centers"] = np.arange(v[0][0]) * 10. + 5
                g["l_bin_widths"] = np.ones(v[0][0])
    # a parameter whose name starts alike
    for s in (1, -1):
        d = ws.cl_dir / fsu.get_cosmology_jobdir_name(dvar=par.name + "1", step=s)
        d.mkdir()
        shutil.copy(ws.cl_dir / fsu.get_cosmology_jobdir_name(dvar="central", step=0) / "cls.h5", d)
    wd = ws.der_dir / par.name if hasattr(ws, "der_dir") else rd / "Derivative" / par.name
    wd.mkdir(parents=True)
    cfg = types.SimpleNamespace(probes_combinations=pairs, present_probes=probes)
    with repo.Patched((WorkSpace, "getForecastConfiguration", lambda self: cfg), (WorkSpace, "getParamsCollection", lambda self: coll),
                      (script.gu, "configure_logger", quiet)):
        st, e = vlib.call(script.main, {"workdir": str(wd), "rundir": str(rd), "main_config": "x.json", "logfile": "log.log"})
    tr = []
    files = list(wd.glob("cl_derivatives*.h5"))
    if drop is not None:
        if any(k not in indep for k in pairs):
            tr.append({"op": "refuse", "out": "ok" if st == "ok" and files else st})
    else:
        res = cd.ClDerivativeCollector.fromHDF5(files[0], dvar=par.name) if files else None
        tr.append({"op": "keys", "want": [gu.get_probes_combination_key(*k) for k in pairs], "got": list(res.dcl_dict) if res else []})
        if res:
            for k in pairs:
                dcl = res[gu.get_probes_combination_key(*k)]
                if k in indep:
                    tr.append({"op": "other", "out": "ok", "values": [0 if v == 0 else 1 for v in dcl.dc_lij.flat]})
                else:
                    tr.append(stem_event("ok", dcl.dc_lij, x, *sp[k], unit))
                tr.append({"op": "same", "what": "written and read back (multipoles)",
                           "same": bool(np.array_equal(dcl.l_bin_centers, np.arange(sp[k][0][0]) * 10. + 5))})
    shutil.rmtree(rd)
    return tr


def coefficient(p1, p2, w, c, z, kernel=None):
    k = types.SimpleNamespace(probe1=p1, probe2=p2, weight1=w[p1], weight2=w[p2], k_ijz=kernel, obs_key=f"{p1}_{p2}", z_grid=z,
                              cosmology=types.SimpleNamespace(z_grid=z))
    cl = AngularCoefficient(kernel=k)
    cl.c_lij = c
    cl.l_bin_centers = np.arange(len(c)) * 10. + 5
    return cl


def record_analytic(rng):
    tr = []
    for _ in range(rng.randint(1, 3)):
        probe = rng.choice(PROBES[1:])
        p1, p2 = rng.choice([(probe, probe), ("Lensing", probe), (probe, "Lensing"), tuple(PROBES[1:])])
        nb = {q: rng.choice([2, 3, 12]) for q in PROBES}
        k = rng.randrange(nb[probe])
        b = rng.choice([[1, 2], [2, 1], [3, 1], [5, 4]])
        par = PhysicalParameter(name=f"bg{'ph' if 'Ph' in probe else 'sp'}{k}", kind=PhysicalParameter.NUISANCE_PAR_STRING, fiducial=b[0] / b[1],
                                current_value=1., is_free_parameter=True, units="None", stem_factor=1., probe=probe,
                                derivative_method="Analytic")
        c = np.array([rng.randint(-50, 50) for _ in range(2 * nb[p1] * nb[p2])], float).reshape(2, nb[p1], nb[p2])
        w = {q: types.SimpleNamespace(probe=q, n_bins=nb[q], bias=types.SimpleNamespace(model_name="constant")) for q in PROBES}
        d = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=par)
        d.fiducial_cl = coefficient(p1, p2, w, c, np.arange(3.))
        st, dc = vlib.call(d.computeDerivative)
        els = []
        if st == "ok":
            for l, i, j in np.ndindex(c.shape):
                f = frac(dc[l, i, j])
                els.append({"i": i, "j": j, "c": int(c[l, i, j]), "n": f[0], "d": f[1]})
        tr.append({"op": "analytic", "out": st, "p1": p1, "p2": p2, "probe": probe, "k": k, "b": b, "elements": els})
    tr.append(record_piecewise(rng))
    return tr


def record_piecewise(rng):
    """one bias value per interval of redshift: the part of the integral inside the interval"""
    probe = rng.choice(PROBES[1:])
    p1, p2 = rng.choice([(probe, probe), ("Lensing", probe), (probe, "Lensing"), tuple(PROBES[1:])])
    n = rng.randint(2, 4)
    step = rng.choice([2, 4])                       # redshifts are in sixteenths
    edges = {}
    for q in PROBES:                                # an odd number of samples in every interval
        at = [rng.choice([0, 2])]
        for _ in range(n):
            at.append(at[-1] + 2 * rng.randint(1, 2))
        at = [x * step + off for x, off in zip(at, [rng.choice([-1, 0]) if rng.random() < .3 else 0] + [0] * (n - 1) + [rng.choice([0, 1])])]
        edges[q] = at
    z = [i * step for i in range(max(e[-1] for e in edges.values()) // step + 2)]
    k = rng.randrange(n)
    b = rng.choice([[1, 2], [2, 1], [3, 1], [5, 4]])
    par = PhysicalParameter(name=f"bg{'ph' if 'Ph' in probe else 'sp'}{k}", kind=PhysicalParameter.NUISANCE_PAR_STRING, fiducial=b[0] / b[1],
                            current_value=1., is_free_parameter=True, units="None", stem_factor=1., probe=probe, derivative_method="Analytic")
    shape = (rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3))
    model = "piecewise" if rng.random() < .9 else rng.choice(["euclid_flagship", "constant_external"])
    ints = lambda *sh: np.array([rng.randint(-4, 4) for _ in range(int(np.prod(sh)))], float).reshape(*sh)
    power, kernel = ints(shape[0], len(z)), ints(*shape[1:], len(z))
    w = {q: types.SimpleNamespace(probe=q, n_bins=n, bias=types.SimpleNamespace(model_name=model if q == probe else "constant"), z_bin_edges=np.array(edges[q]) / 16) for q in PROBES}
    d = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=par)
    d.fiducial_cl = coefficient(p1, p2, w, np.ones(shape), np.array(z) / 16, kernel)
    d.fiducial_cl.evaluateLimberApproximatedPowerSpectrum = lambda *a, **k: setattr(d.fiducial_cl, "limber_power_spectrum_l_z", power)
    st, dc = vlib.call(d.computeDerivative)
    els = []
    if st == "ok":
        for l, i, j in np.ndindex(shape):
            f = frac(dc[l, i, j])
            els.append({"y": [int(x) for x in power[l] * kernel[i, j]], "n": f[0], "d": f[1]})
    return {"op": "piecewise", "model": model, "out": st, "p1": p1, "p2": p2, "probe": probe, "k": k, "b": b, "z": z, "edges": edges[probe], "elements": els}


def run(ck):
    cfg = lambda preset, inv, **kw: vlib.cfg_text("Spec", {"Preset": f'"{preset}"'}, inv, **kw)
    ck.model("StemMC", cfg("five", INV, properties=["Terminates"]), workers=8)
    ck.model("StemMC", cfg("pair", INV, properties=["Terminates"]), workers=8)
    if ck.thorough:
        ck.model("StemMC", cfg("seven", INV, properties=["Terminates"]), workers=8)
    for preset, n in (("five", 5), ("more" if ck.thorough else "seven", 7)):
        trans = ck.graph("StemMC", cfg(preset, [], action_constraints=["Emit"]))
        if {t["s"] for t in trans} != set(range((n - 1) // 2)):
            raise vlib.MachineryError("windows never used")
        replay(ck, trans, n)
    tmp = Path(tempfile.mkdtemp(prefix="p17_"))
    script = repo.script("compute_derivatives")
    try:
        k = ck.budget(1, 10)
        traces = [record_direct(ck.rng) for _ in range(120 * k)]
        traces += [record_inprocess(ck.rng) for _ in range(40 * k)]
        traces += [record_program(ck.rng, tmp, script) for _ in range(50 * k)]
        traces += [record_analytic(ck.rng) for _ in range(60 * k)]
    finally:
        shutil.rmtree(tmp)
    traces = [t for t in traces if t]
    ck.validate("StemTrace", traces, label="derivatives")
    t = copy.deepcopy(next(t for t in traces if t[0]["op"] == "stem" and any(e["d"] > 1 for e in t[0]["elements"])))
    next(e for e in t[0]["elements"] if e["d"] > 1)["n"] += 1
    ck.must_reject("StemTrace", t, "slope of an element")
    t = copy.deepcopy(next(t for t in traces if t[0]["op"] == "analytic"))
    t[0]["elements"][0]["n"] += 1
    ck.must_reject("StemTrace", t, "analytic derivative")
    t = copy.deepcopy(next(t for t in traces if t[-1]["op"] == "piecewise" and t[-1]["elements"]))
    t[-1]["elements"][0]["n"] += t[-1]["elements"][0]["d"]
    ck.must_reject("StemTrace", t, "analytic derivative, one bias value per interval")
    ck.assumptions += ["samples are small integers times a power of two; derivatives are compared to 1e-8",
                       "samples exactly on the one-per-cent edge are not judged", "analytic derivatives: integrands sampled at an odd number of redshifts in every interval"]
