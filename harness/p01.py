"""P01  parameter variation state machine (Params.tla)."""
import json
import shutil
import tempfile
from pathlib import Path

import numpy as np

import vlib
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection

COSMO = PhysicalParameter.COSMO_PAR_STRING
NUIS = PhysicalParameter.NUISANCE_PAR_STRING
INV = ["OnlyRequestedMoves", "OnlyFreeIsVaried", "FlatStaysFlat", "Symmetric", "Monotone"]


def build(par, disps, flat):
    d = {}
    for n, p in par.items():
        kw = dict(name=n, fiducial=p["fid"] / 16, stem_factor=p["fac"] / 4, is_free_parameter=p["free"],
                  kind=COSMO if p["cosmo"] else NUIS)
        if not p["cosmo"]:
            kw["probe"] = p["probe"]
        d[n] = PhysicalParameter(**kw)
    return PhysicalParametersCollection(data_dict=d, base_stem_disps=np.array(disps) / 64, is_universe_flat=flat)


def scaled(v, unit):
    x = v * unit
    return int(x) if float(x) == int(x) else f"INEXACT {v!r}"


def values(coll):
    return {n: scaled(coll[n].current_value, 4096) for n in coll}


def defs(coll):
    out = {}
    for n in coll:
        p = coll[n]
        out[n] = {"fid": scaled(p.fiducial, 16), "fac": scaled(p.stem_factor, 4), "free": bool(p.is_free_parameter),
                  "cosmo": bool(p.is_cosmological), "probe": "NONE" if p.probe is None else p.probe}
    return out


def views(coll, probes):
    return {"op": "views", "free": list(coll.free_physical_parameters), "cosmo": list(coll.cosmological_parameters),
            "nuis": list(coll.nuisance_parameters),
            "byprobe": {x: list(coll.getFreePhysicalParametersForProbe(x)) for x in probes}}


def vary(coll, p, k):
    par = coll[p]
    st, v = vlib.call(coll.updatePhysicalParametersForDvarStep, dvar=p, step=k)
    if st == "ok":
        return "ok"
    if st == "ParameterError":
        return "refused" if not par.is_free_parameter else "refusedflat"
    if st == "KeyError":
        return "nostep"
    return st


def reload(coll, only, tmp):
    f = tmp / "params.json"
    if f.exists():
        f.unlink()
    coll.writeJSON(f)
    new = PhysicalParametersCollection.fromJSON(f, only_cosmological=only)
    return new


def replay(ck, tmp, trans):
    """Every transition of the bounded state graph, stepped through the real collection."""
    init = [t["pre"] for t in trans if t["lvl"] == 1]
    for w in vlib.walks(trans, init=init):
        pre = w[0]["pre"]
        coll = build(pre["par"], pre["disps"], pre["flat"])
        for t in w:
            a = t["act"]
            if a["op"] == "vary":
                out = vary(coll, a["p"], a["k"])
            elif a["op"] == "restore":
                out, _ = vlib.call(coll.updatePhysicalParametersForDvarStep, dvar="central", step=0)
            else:
                coll = reload(coll, a["only"], tmp)
                out = "ok"
            ck.s2i += 1
            post = t["post"]
            bad = None
            if out != a["out"]:
                bad = f"outcome {out}, specification {a['out']}"
            elif not post["dirty"] and values(coll) != post["cur"]:
                bad = f"values {values(coll)}, specification {post['cur']}"
            elif a["op"] == "reload" and defs(coll) != post["par"]:
                bad = f"definitions {defs(coll)}, specification {post['par']}"
            if bad:
                ck.violation(f"replayed behaviour deviates after {a}: {bad}", {"walk": w[:w.index(t) + 1]})
                return
    ck.sample({"replayed_walk": [t["act"] for t in w[:8]], "from": w[0]["pre"]})


def random_def(rng):
    names = ["Omm", "OmDE"] + rng.sample(["h", "w0", "wa", "Omb", "ns", "sigma8", "mnu", "gamma"], rng.randint(0, 4))
    par = {}
    for n in names:
        par[n] = {"fid": rng.choice([0, 1, 5, 16, -16, 11, 37]), "fac": rng.choice([4, 4, 1, 8, 28]),
                  "free": rng.random() < .7, "cosmo": True, "probe": "NONE"}
    for i in range(rng.randint(0, 4)):
        n = rng.choice(["bgph", "bgsp", "Psn", "aIA"]) + str(rng.randint(0, 12))
        par[n] = {"fid": rng.choice([0, 3, 16, -7]), "fac": rng.choice([4, 2]), "free": rng.random() < .7,
                  "cosmo": False, "probe": rng.choice(["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"])}
    flat = rng.random() < .6
    if rng.random() < .75:
        a = rng.choice([5, 3, 8])
        par["Omm"]["fid"], par["OmDE"]["fid"] = a, 16 - a
        if rng.random() < .8:
            par[rng.choice(["Omm", "OmDE"])]["free"] = False
    else:
        par["Omm"]["fid"], par["OmDE"]["fid"] = 5, 10
    n = rng.choice([1, 3, 7, 7, 12])
    disps = rng.sample(range(1, 22), n)
    if rng.random() < .5:
        disps.sort()
    items = list(par.items())
    rng.shuffle(items)
    return dict(items), disps, flat


PROBES = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]


def record(ck, rng, tmp, n_ops):
    par, disps, flat = random_def(rng)
    coll = build(par, disps, flat)
    tr = [{"op": "setup", "par": par, "disps": disps, "flat": flat, "cur": values(coll)}]
    for _ in range(n_ops):
        r = rng.random()
        if r < .55:
            free = list(coll.free_physical_parameters)
            p = rng.choice(free) if free and rng.random() < .85 else rng.choice(list(coll))
            k = rng.choice([s for s in range(-len(disps), len(disps) + 1) if s != 0] + [len(disps) + 1])
            if "Omm" not in coll or "OmDE" not in coll:
                continue
            out = vary(coll, p, k)
            tr.append({"op": "vary", "p": p, "k": k, "out": out, "cur": values(coll)})
            if out not in ("ok", "refused"):
                coll.updatePhysicalParametersForDvarStep(dvar="central", step=0)
                tr.append({"op": "restore", "cur": values(coll)})
        elif r < .75:
            if rng.random() < .5:
                coll.resetPhysicalParametersToFiducial()
            else:
                coll.updatePhysicalParametersForDvarStep(dvar="central", step=0)
            tr.append({"op": "restore", "cur": values(coll)})
        elif r < .83:
            only = rng.random() < .15
            coll = reload(coll, only, tmp)
            tr.append({"op": "reload", "only": only, "par": defs(coll), "cur": values(coll),
                       "disps": [scaled(x, 64) for x in coll.stem_disps if x > 0],
                       "flat": bool(coll.is_universe_flat)})
        elif r < .93:
            tr.append(views(coll, PROBES))
        else:
            p = rng.choice(list(coll))
            tr.append({"op": "stem", "p": p, "values": [scaled(x, 4096) for x in coll.computePhysParSTEMValues(p)]})
    return tr


def record_loop(ck, rng, tmp):
    """The in-process variation loop of the angular-spectra stage, with the spectra themselves stubbed."""
    from seyfert.main import cl_core
    par, disps, flat = random_def(rng)
    disps = sorted(rng.sample(range(1, 22), 7))
    for p in ("Omm", "OmDE"):
        par[p]["free"] = False
    par["Omm"].update(fid=5, free=True)
    par["OmDE"]["fid"] = 11
    coll = build(par, disps, flat)
    tr = [{"op": "setup", "par": par, "disps": disps, "flat": flat, "cur": values(coll)}]
    free = list(coll.free_physical_parameters)
    class FakeCosmo:
        z_grid = np.linspace(0, 1, 3)
    saved = cl_core.load_cosmology, cl_core.compute_cls
    for dvar in rng.sample(free, min(3, len(free))):
        seen, files = [], []
        cl_core.load_cosmology = lambda ws, dvar, step, phys_pars: (files.append((dvar, int(step))), FakeCosmo())[1]
        cl_core.compute_cls = lambda cosmology, phys_pars, *a, **k: (seen.append(values(phys_pars)), len(seen))[1]
        try:
            fid = ("fid",)
            res = cl_core.compute_cls_variations(dvar, fid, None, coll, None, None, None)
        finally:
            cl_core.load_cosmology, cl_core.compute_cls = saved
        for k, token in res.items():
            if int(k) == 0:
                ck.expect(token is fid, "the fiducial spectra are not the step-0 entry of the variations")
                continue
            tr.append({"op": "compute", "p": dvar, "k": int(k), "seen": seen[token - 1]})
            ck.expect(files[token - 1] == (dvar, int(k)), "a variation used the power spectrum of another variation",
                      {"dvar": dvar, "step": int(k), "asked": files[token - 1]})
        tr.append({"op": "loopend", "done": sorted(int(k) for k in res), "cur": values(coll)})
    return tr


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp01_"))
    try:
        cfg = vlib.cfg_text("Spec", {"Big": "FALSE"}, INV, view="View", action_constraints=["Emit"])
        trans = ck.graph("ParamsMC", cfg)
        kinds = {(t["act"]["op"], t["act"]["out"]) for t in trans}
        need = {("vary", o) for o in ("ok", "refused", "refusedflat", "nostep")} | {("restore", "ok"), ("reload", "ok")}
        if not need <= kinds:
            raise vlib.MachineryError(f"vacuous model: {need - kinds}")
        if ck.thorough:
            ck.model("ParamsMC", vlib.cfg_text("Spec", {"Big": "TRUE"}, INV, view="View"), workers=8)
        replay(ck, tmp, trans)
        rng = ck.rng
        traces = [record(ck, rng, tmp, 25) for _ in range(ck.budget(250, 3000))]
        traces += [record_loop(ck, rng, tmp) for _ in range(ck.budget(60, 600))]
        ck.validate("ParamsTrace", traces, label="parameter history")
        # binding: a corrupted value must be rejected
        t = json.loads(json.dumps(vlib._noempty(traces[-1])))
        for e in t:
            if e["op"] == "compute":
                e["seen"][next(iter(e["seen"]))] = 12345677
                break
        ck.must_reject("ParamsTrace", t, "value seen by a variation")
        ck.assumptions += ["fiducials, displacements and factors are dyadic so that float arithmetic is exact"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
