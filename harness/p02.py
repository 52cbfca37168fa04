"""P02  job directories <-> (parameter, step)  (JobDirs.tla, Params.tla)."""
import copy
import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

import repo
import vlib
from harness import p01
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace

INV = ["Unambiguous", "OneDirPerPair", "ListedAllAndOnly", "Sorted"]
STAGE = {"cl": "Angular", "pmm": "PowerSpectrum", "der": "Derivative"}
FILE = {"cl": "cl_WL.h5", "pmm": "p_mm.h5", "der": "cl_derivatives_x.h5"}


def jobdir(ws, st, p, k):
    base = {"cl": ws.cl_dir, "pmm": ws.pmm_dir, "der": ws.der_dir}[st]
    if st == "der":
        return base / fsu.get_derivative_jobdir_name_from_dvar(p)
    return base / fsu.get_cosmology_jobdir_name(dvar=p, step=k)


def set_files(d, st, n):
    for f in d.glob("*"):
        f.unlink()
    for i in range(n):
        (d / (FILE[st] if i == 0 else f"cl_other{i}.h5")).write_text("x")


def samples(ws, p):
    from seyfert.derivatives.differentiator import SteMClDifferentiator
    from seyfert.cosmology.parameter import PhysicalParameter
    par = PhysicalParameter(name=p, fiducial=1.0, kind=p01.COSMO, is_free_parameter=True)
    d = SteMClDifferentiator(probe1="Lensing", probe2="Lensing", param=par, workspace=ws)
    st, fs = vlib.call(d.collectClVariationsFiles)
    if st != "ok":
        return ["error"]
    out = []
    for f in fs:
        n = Path(f).parent.name
        # decode with the model's own table, not with the code under test
        out.append(TABLE.get(n, ("?", n)) if TABLE.get(n, ("?",))[0] not in (p, "central") else TABLE[n][1])
    return out


TABLE = {}


def fill_table(params, n):
    TABLE.clear()
    TABLE["dvar_central_step_0"] = ("central", 0)
    for p in params:
        for k in range(1, n + 1):
            TABLE[f"dvar_{p}_step_m_{k}"] = (p, -k)
            TABLE[f"dvar_{p}_step_p_{k}"] = (p, k)


def replay(ck, tmp, trans):
    fill_table(["Om", "Omm"], 1)
    n = 0
    for w in vlib.walks(trans, init=[[]], max_len=200):
        n += 1
        rd = tmp / f"walk{n}"
        ws = WorkSpace(rd)
        ws.cl_dir.mkdir(parents=True)
        for t in w:
            op, st, p, k = t["act"]
            d = jobdir(ws, st, p, k)
            if op == "mkdir":
                d.mkdir()
            elif op == "put":
                m = next(x["files"] for x in t["post"] if (x["p"], x["k"]) == (p, k))
                set_files(d, st, m)
            else:
                shutil.rmtree(d)
            ck.s2i += 1
            got = {"vars": sorted([v[0], v[1], x.name] for v, x in ws.collectClVariationDirectories().items()),
                   "params": sorted(ws.collectClVariationParams())}
            want = {"vars": sorted([v[0], v[1], next(n for n, a in TABLE.items() if a == tuple(v))] for v in t["vars"]),
                    "params": sorted(t["params"])}
            for (q, j, o) in t["files"]:
                s, f = vlib.call(ws.getClFile, dvar=q, step=j)
                good = (s != "ok") if o == "error" else (s == "ok" and TABLE.get(Path(f).parent.name) == (q, j))
                if not good:
                    got[f"file {q} {j}"] = str(f)
                    want[f"file {q} {j}"] = o
            for q, exp in t["samples"].items():
                if any(x["files"] > 1 for x in t["post"] if x["p"] in (q, "central")):
                    continue
                g = samples(ws, q)
                if g != exp:
                    got[f"samples {q}"], want[f"samples {q}"] = g, exp
            if got != want:
                ck.violation(f"workspace lookups after {t['act']}: got {got}, specification {want}", {"walk": [x["act"] for x in w[:w.index(t) + 1]]})
                return
        shutil.rmtree(rd)
    ck.sample({"replayed_walk": [t["act"] for t in w[:10]]})


# ------------------------------------------------------------------ recorded executions

NAMES = ["Omm", "Om", "OmDE", "h", "w0", "wa", "sigma8", "s8", "gamma", "ns", "bgph1", "bgph10", "bgph11", "bgph", "bgsp3",
         "aIA", "step", "p1", "m", "x0", "Psn"]


def record_dirs(rng, tmp, i):
    params = rng.sample(NAMES, rng.randint(2, 5))
    n = rng.choice([1, 2, 7, 7, 10, 12])
    fill_table(params, n)
    rd = tmp / f"rec{i}"
    ws = WorkSpace(rd)
    for d in (ws.cl_dir, ws.pmm_dir, ws.der_dir):
        d.mkdir(parents=True)
    par = {p: {"fid": 1, "fac": 4, "free": True, "cosmo": True, "probe": "NONE"} for p in params}
    tr = [{"op": "setup", "params": params, "n": n, "par": par, "disps": list(range(1, n + 1)), "flat": False}]
    pairs = [("central", 0)] + [(p, k) for p in params for k in range(-n, n + 1) if k]
    have = set()

    def mk(st, p, k):
        name = fsu.get_cosmology_jobdir_name(dvar=p, step=k)
        (ws.run_dir / STAGE[st] / name).mkdir(exist_ok=True)
        tr.append({"op": "mkdir", "st": st, "name": name, "p": p, "k": k})
        s, v = vlib.call(fsu.get_dvar_step_from_cosmology_jobdir_name, name)
        tr.append({"op": "parse", "name": name, "p": v[0] if s == "ok" else s, "k": v[1] if s == "ok" else 99})
        have.add((st, p, k))
    full = rng.random() < .5
    todo = pairs if full else rng.sample(pairs, min(len(pairs), rng.randint(2, 12)))
    for (p, k) in todo:
        mk("cl", p, k)
        if rng.random() < (1 if full else .6):
            set_files(jobdir(ws, "cl", p, k), "cl", 1)
            tr.append({"op": "put", "st": "cl", "p": p, "k": k, "n": 1})
    for (p, k) in rng.sample(pairs, min(len(pairs), 6)):
        mk("pmm", p, k)
    for p in params:
        if rng.random() < .7:
            (ws.der_dir / fsu.get_derivative_jobdir_name_from_dvar(p)).mkdir()
            tr.append({"op": "mkder", "p": p})
            if rng.random() < .8:
                set_files(jobdir(ws, "der", p, 0), "der", 1)
                tr.append({"op": "put", "st": "der", "p": p, "k": 0, "n": 1})
            s, f = vlib.call(ws.getClDerivativeFile, p)
            tr.append({"op": "derfile", "p": p, "out": "found" if s == "ok" else "error",
                       "dir": Path(f).parent.name if s == "ok" else p})

    def observe():
        tr.append({"op": "listing",
                   "vars": [[v[0], v[1], x.name] for v, x in ws.collectClVariationDirectories().items()],
                   "clparams": sorted(ws.collectClVariationParams()),
                   "pmmparams": sorted(ws.collectPmmVariationParams()),
                   "derparams": sorted(ws.collectDerivativeParams())})
        for p in params:
            tr.append({"op": "samples", "p": p, "steps": samples(ws, p)})
        for (p, k) in rng.sample(pairs, min(len(pairs), 5)):
            s, f = vlib.call(ws.getClFile, dvar=p, step=k)
            tr.append({"op": "clfile", "p": p, "k": k, "out": "found" if s == "ok" else "error",
                       "dir": Path(f).parent.name if s == "ok" else ""})
            tr.append({"op": "pmmfile", "p": p, "k": k, "dir": Path(ws.getPowerSpectrumFile(dvar=p, step=k)).parent.name})
    observe()
    gone = [x for x in have if x[0] == "cl"]
    for (st, p, k) in rng.sample(gone, min(2, len(gone))):
        shutil.rmtree(jobdir(ws, st, p, k))
        tr.append({"op": "drop", "st": st, "p": p, "k": k})
    observe()
    shutil.rmtree(rd)
    return tr


def record_jobs(ck, rng, tmp, i, n_jobs):
    """Run the real job programs (compute_pmm, compute_cls) in job directories; only the Boltzmann solver and the
    Limber integrals are replaced."""
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    from seyfert.main import cl_core
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.parameter import PhysicalParametersCollection
    C = lambda f, free, fac=4: {"fid": f, "fac": fac, "free": free, "cosmo": True, "probe": "NONE"}
    Nn = lambda f, pr: {"fid": f, "fac": 4, "free": True, "cosmo": False, "probe": pr}
    par = {"h": C(11, True), "w0": C(-16, True), "wa": C(0, True), "Omm": C(5, True), "OmDE": C(11, False),
           "Omb": C(1, False), "ns": C(15, True), "sigma8": C(13, False), "mnu": C(1, True, 28), "gamma": C(9, False),
           "bgph1": Nn(16, "PhotometricGalaxy"), "bgph10": Nn(17, "PhotometricGalaxy"), "aIA": Nn(27, "Lensing")}
    if rng.random() < .3:
        par["Omm"]["free"], par["OmDE"]["free"] = False, True
    flat = rng.random() < .75
    n = rng.choice([2, 10, 12])
    disps = list(range(1, n + 1))
    coll = p01.build(par, disps, flat)
    fill_table(par, n)
    rd = (tmp / f"run{i}").resolve()
    ws = WorkSpace(rd)
    for d in (ws.cl_dir, ws.pmm_dir):
        d.mkdir(parents=True)
    data = vlib.REPO / "seyfert/data/config_files"
    pcfg = json.loads((data / "power_spectrum_config.json").read_text())
    pcfg["redshift_grid"] = {"z_min": 0.01, "z_max": 2.0, "n_redshifts": 3}
    (rd / "power_spectrum_config.json").write_text(json.dumps(pcfg))
    ws.createInputFilesDir(src_input_files={"forecast": vlib.REPO / "seyfert/data/test_data/test_fcfg.json",
                                            "PowerSpectrum": rd / "power_spectrum_config.json",
                                            "Angular": data / "angular_config.json"},
                           phys_pars=coll, input_data_dir=vlib.REPO / "seyfert/data/input_data")
    tr = [{"op": "setup", "params": list(par), "n": n, "par": par, "disps": disps, "flat": flat}]

    def fake_solve(self, workdir):
        self.k_grid = np.array([.1, 1.])
        shape = (len(self.z_grid), 2)
        self.lin_p_mm_z_k = np.ones(shape)
        self.nonlin_p_mm_z_k = np.ones(shape)
        self.transfer_function = np.ones(2)

    free = [p for p in par if par[p]["free"]]
    jobs = [("central", 0)] + [(p, rng.choice([k for k in range(-n, n + 1) if k])) for p in
                               [rng.choice(free) for _ in range(n_jobs)]]
    jobs = list(dict.fromkeys(jobs))
    pmm_script, cl_script = repo.script("compute_pmm"), repo.script("compute_cls")
    quiet = lambda *a, **k: None
    cwd = os.getcwd()

    def cosmo_vals(c):
        return {q: p01.scaled(c.params[q].current_value, 4096) for q in c.params}
    try:
        os.chdir(rd)
        for (p, k) in jobs:
            if p != "central" and not par[p]["cosmo"]:
                continue
            wd = ws.pmm_dir / fsu.get_cosmology_jobdir_name(dvar=p, step=k)
            wd.mkdir()
            shutil.copy(rd / "power_spectrum_config.json", wd)
            with repo.Patched((PowerSpectrum, "evaluateLinearAndNonLinearPowerSpectra", fake_solve),
                              (pmm_script.gu, "configure_logger", quiet)):
                st, e = vlib.call(pmm_script.main, {"workdir": str(wd), "rundir": str(rd), "main_config": "power_spectrum_config.json",
                                                    "logfile": "log.log"})
            out = wd / "p_mm.h5"
            if st != "ok" or not out.exists():
                ck.violation(f"the power-spectrum job of {wd.name} did not produce its spectrum: {st} {e}",
                             {"dir": wd.name})
                return None
            c = Cosmology.fromHDF5(out)
            tr.append({"op": "mkdir", "st": "pmm", "name": wd.name, "p": p, "k": k})
            tr.append({"op": "pmmjob", "p": p, "k": k, "seen": cosmo_vals(c), "flat": bool(c.is_flat)})
        for (p, k) in jobs:
            wd = ws.cl_dir / fsu.get_cosmology_jobdir_name(dvar=p, step=k)
            wd.mkdir()
            shutil.copy(data / "angular_config.json", wd)
            seen = {}

            class FakeColl:
                def saveToHDF5(self, f, *a, **k):
                    Path(f).write_text("x")

            def fake_cls(cosmology, phys_pars, densities, forecast_config, angular_config, *a, **kw):
                seen.update(cosmo=cosmo_vals(cosmology), seen=p01.values(phys_pars),
                            fid=cosmo_vals(kw.get("fiducial_cosmology") or a[-1]))
                return FakeColl()
            with repo.Patched((cl_core, "compute_cls", fake_cls), (cl_script.gu, "configure_logger", quiet),
                              (cl_script.redshift_density, "load_densities_from_file", lambda f: {})):
                st, e = vlib.call(cl_script.main, {"workdir": str(wd), "rundir": str(rd), "main_config": "angular_config.json",
                                                   "logfile": "log.log"})
            if st != "ok":
                ck.violation(f"the angular job of {wd.name} failed: {st} {e}", {"dir": wd.name})
                return None
            saved = p01.values(PhysicalParametersCollection.fromJSON(wd / "params.json"))
            tr.append({"op": "mkdir", "st": "cl", "name": wd.name, "p": p, "k": k})
            tr.append({"op": "cljob", "p": p, "k": k, "cosmo": seen["cosmo"], "fidcosmo": seen["fid"],
                       "seen": seen["seen"], "saved": saved})
    finally:
        os.chdir(cwd)
        shutil.rmtree(rd, ignore_errors=True)
    return tr


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp02_"))
    try:
        base = {"P": '{"Om", "Omm"}', "N": "1"}
        trans = ck.graph("JobDirsMC", vlib.cfg_text("Spec", base, INV, view="View", action_constraints=["Emit"]))
        if ck.thorough:
            ck.model("JobDirsMC", vlib.cfg_text("Spec", {"P": '{"Om", "Omm"}', "N": "2"}, INV, view="View"), workers=8)
        replay(ck, tmp, trans)
        rng = ck.rng
        traces = [record_dirs(rng, tmp, i) for i in range(ck.budget(80, 600))]
        ck.validate("JobDirsTrace", traces, label="job directories")
        jobs = [record_jobs(ck, rng, tmp, i, ck.budget(5, 12)) for i in range(ck.budget(6, 40))]
        jobs = [t for t in jobs if t]
        if jobs:
            ck.validate("JobDirsTrace", jobs, label="job programs")
            t = copy.deepcopy(jobs[0])
            t[-1]["cosmo"]["h"] += 1
            ck.must_reject("JobDirsTrace", t, "cosmology of an angular job")
        ck.assumptions += ["the Boltzmann solver and the Limber integrals are replaced by stubs; everything around them is real",
                           "parameter names are alphanumeric"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
