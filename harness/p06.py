"""P06  interrupted and restarted forecasts  (Restart.tla).

A forked child runs the real in-process forecast (seyfert_core.do_forecast, physics stubbed) or the Fisher stage of a
submitted one, and is killed (os._exit) at a chosen primitive file operation.  What is complete on disk afterwards is
judged from outside, by comparing every product with that of an uninterrupted run."""
import builtins
import copy
import io
import json
import logging
import multiprocessing
import os
import pickle
import random
import shutil
import sys
import tempfile
import types
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

import hdfstore
import repo
import vlib
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology import c_ells, cosmology, redshift_density
from seyfert.fisher import final_results_core, fisher_utils
from seyfert.main import cl_core, cl_derivative_core, fisher_core, seyfert_core, task_runners
from seyfert.main.bsub_utils import BsubInterface
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace

INV = ["NothingWrong", "NotAgain", "DoneIsComplete"]
DATA = vlib.REPO / "seyfert/data"
DVS = [("[WL]", ["wlwl"]), ("[GCph]", ["phph"]), ("[GCsp]", ["spsp"]), ("[WL+GCph]", ["wlwl", "phph"]),
       ("[GCph+GCsp]", ["phph", "spsp"]), ("[XC(WL,GCph)]", ["wlph"])]
BRIEF = ["_".join(b) for _, b in DVS]
AUTOS = BRIEF[:3]
POST = ["[WL] + [GCph]", "[WL+GCph] - [XC(WL,GCph)] + [GCsp]"]
PROBE = {"wlwl": ("Lensing", "WL", "wl"), "phph": ("PhotometricGalaxy", "GCph", "ph"), "spsp": ("SpectroscopicGalaxy", "GCsp", "sp")}


# ---------------------------------------------------------------- killing
class Killer:
    """Counts the primitive file operations below `root` and ends the process at the chosen one."""

    def __init__(self, root, log, kill_at=None, after=None, before=None):
        self.root, self.log_file = str(root), log
        self.n = 0
        self.kill_at, self.after, self.before = kill_at, after, before
        self.since = None
        self.on = False
        self.fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def log(self, *words):
        os.write(self.fd, (" ".join(words) + "\n").encode())

    def die(self):
        self.log("killed")
        os._exit(9)

    def tick(self, what):
        if not self.on:
            return
        self.n += 1
        if self.since is not None:
            self.since += 1
            if self.since == self.after[1]:
                self.die()
        if self.kill_at == self.n:
            self.die()

    def compute(self, product, sub=""):
        if self.before == product:
            self.die()
        self.log("compute", product, sub)
        if self.since is not None:        # the watched product's turn is over
            self.die()
        if self.after and self.after[0] == product:
            self.since = 0

    def inside(self, p):
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return False
        return os.path.abspath(p).startswith(self.root)

    def arm(self):
        k = self

        def audit(ev, args):
            if not k.on:
                return
            if ev == "open":
                if args[2] is not None and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and k.inside(args[0]):
                    k.tick(ev)
            elif ev in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.symlink", "os.link", "os.truncate") and k.inside(args[0]):
                k.tick(ev)
        sys.addaudithook(audit)
        real_open = builtins.open

        def w_open(file, mode="r", *a, **kw):
            f = real_open(file, mode, *a, **kw)
            if k.on and not isinstance(file, int) and set(mode) & set("wax+") and k.inside(file):
                k.tick("opened")
            return f
        builtins.open = w_open
        io.open = w_open

        def around(obj, name, half=None):
            real = getattr(obj, name)

            def f(*a, **kw):
                k.tick("before " + name)
                if half:
                    half(*a, **kw)
                r = real(*a, **kw)
                k.tick("after " + name)
                return r
            setattr(obj, name, f)

        def half_pickle(obj, f, *a, **kw):
            if k.on:
                pos = f.tell()
                f.write(pickle.dumps(obj)[: max(1, len(pickle.dumps(obj)) // 2)])
                f.flush()
                k.tick("half pickled")
                f.seek(pos)
                f.truncate()
        around(pickle, "dump", half_pickle)
        around(json, "dump")
        around(h5py.File, "__init__")
        around(h5py.Group, "create_dataset")
        around(h5py.File, "close")
        around(pd.HDFStore, "put")
        around(shutil, "copyfile")
        around(Path, "write_text")
        self.on = True


# ---------------------------------------------------------------- stubbed physics
class H5Stub:
    """an object kept in an HDF5 file, several datasets, all needed when reading back"""
    def __init__(self, vals):
        self.vals = vals

    def saveToHDF5(self, file, root="/"):
        mode = "a" if Path(file).exists() else "w"
        with h5py.File(file, mode) as hf:
            for i, v in enumerate(self.vals):
                hf.create_dataset(f"{root}/v{i}", data=np.full(3, float(v)))

    @classmethod
    def fromHDF5(cls, file, root="/"):
        with h5py.File(file, "r") as hf:
            return cls([float(hf[f"{root}/v{i}"][0]) for i in range(3)])


def install(k):
    class Density(H5Stub):
        probe = None
        z_grid = None

        @classmethod
        def fromHDF5(cls, file, root="/"):
            if str(root).strip("/"):
                return super().fromHDF5(file, root)
            d = cls([1., 2., 3.])
            return d

        def setUp(self): pass
        def evaluateSurfaceDensity(self): pass
        def evaluate(self, z_grid=None):
            k.compute("dens", str(id(self)))
    redshift_density.RedshiftDensity = Density

    class Cosmo:
        z_grid = [0., 1.]
        def evaluateOverRedshiftGrid(self): pass
    cosmology.Cosmology.fromHDF5 = staticmethod(lambda *a, **kw: Cosmo())

    def f_cls(*a, **kw):
        k.compute("cls")
        d = kw["densities"]
        return H5Stub([sum(x.vals) for _, x in sorted(d.items())][:3] + [7.] * (3 - min(3, len(d))))
    cl_core.compute_cls = f_cls
    seyfert_core.c_ells.AngularCoefficientsCollector = H5Stub

    def f_ders(dvar, **kw):
        k.compute("ders", dvar)
        return {"dvar": dvar, "v": [len(dvar) * v for v in kw["fid_cls"].vals]}
    cl_derivative_core.compute_cls_derivatives_wrt = f_ders

    def f_delta(ws, *a, **kw):
        k.compute("delta")
        return H5Stub([v + 1 for v in H5Stub.fromHDF5(ws.getClFile("central", 0)).vals])
    cl_core.compute_delta_cls = f_delta
    cl_core.DeltaClCollection = H5Stub
    fisher_core.DeltaClCollection = H5Stub
    install_fisher(k)


def install_fisher(k):
    class Evaluator:
        def __init__(self, dv):
            self.data_vector = dv
            self.n = len(dv.name)

        def computeFisherMatrix(self, phys_pars=None, delta_cls=None, dcoll_dvar_dict=None, auto_f_ells=None, return_f_ell=False):
            name = self.data_vector.toBriefString()
            k.compute("fisher:" + name)
            self.free_cosmological_parameters = set(phys_pars.free_cosmological_parameters)
            self.free_nuisance_parameters = {"aIA"}
            idx = sorted(self.free_cosmological_parameters) + ["aIA"]
            s = sum(delta_cls.vals) + sum(v for d in dcoll_dvar_dict.values() for v in d["v"])
            if auto_f_ells is not None:
                s += sum(float(df.to_numpy().sum()) for _, df in sorted(auto_f_ells.items()))
            m = pd.DataFrame(np.diag(np.arange(1., len(idx) + 1) * (1 + s % 97)) + self.n / 100., index=idx, columns=idx)
            if return_f_ell:
                return m, pd.DataFrame({"ell": [1., 2.], "f": [s, float(self.n)]})
            return m
    fisher_core.FisherEvaluator = Evaluator


def orders(rng):
    """orders in which the data vectors may be listed (the last of a list starts with a spectrum of an earlier one, or not)"""
    a, c = DVS[:3], DVS[3:]       # the own spectra come first, by convention
    return {"given": DVS, "crossed": rng.sample(a, 3) + [c[2], c[0], c[1]], "mixed": rng.sample(a, 3) + rng.sample(c, 3)}


def aux_dir(d, dvs):
    d.mkdir()
    (d / "selected_datavectors.txt").write_text("".join(f"{n}: {b}\n" for n, b in dvs))
    (d / "a_posteriori_fisher_combs.txt").write_text("\n".join(POST) + "\n")
    return d


def args_for(root, rd):
    return {"workdir": rd, "input_data_dir": DATA / "input_data", "forecast_config": root / "fcfg.json", "test": False,
            "powerspectrum_config": DATA / "config_files/power_spectrum_config.json",
            "angular_config": DATA / "config_files/angular_config.json",
            "derivative_config": DATA / "config_files/derivative_config.json",
            "fisher_config": DATA / "config_files/fisher_config.json"}


def run_core(k, root, rd):
    install(k)
    log = root / "the_log.txt"
    k.arm()
    seyfert_core.do_forecast(args_for(root, rd), log)


def run_fisher_stage(mode):
    def run(k, root, rd):
        install_fisher(k)
        script = repo.script("compute_fisher_matrix")
        script.gu.configure_logger = lambda *a, **kw: None
        fisher_core.prepare_inputs = lambda *a, **kw: (H5Stub([1., 2., 3.]), {"h": {"v": [1., 2.]}})
        ws = WorkSpace(rd)

        def launch(cmd, *a, **kw):
            words = str(cmd).split()
            if words[0] != "compute_fisher_matrix":
                raise RuntimeError(f"unknown program {words[0]}")
            script.main(vars(script.program_options().parse_args(words[1:])))
            return str(os.getpid())
        BsubInterface.submitJob = lambda self, cmd_to_execute=None, **kw: launch(cmd_to_execute)
        BsubInterface.waitForJobsToComplete = lambda self, *a, **kw: None
        task_runners.time.sleep = lambda s: None
        args = types.SimpleNamespace(execution=mode, overwrite_results=False, queue="q", memory=1000, n_cores_per_job=1, verbose=False)
        fc = ForecastConfig(input_file=root / "fcfg.json", input_data_dir=DATA / "input_data")
        fc.loadPhysicalParametersFromJSONConfig()
        r = task_runners.FisherTaskRunner(workspace=ws, args=args, json_input=DATA / "config_files/fisher_config.json", forecast_config=fc)
        r.executeCommand = launch
        k.arm()
        r.run()
    return run


DRIVERS = {"core": run_core, "batch": run_fisher_stage("batch"), "interactive": run_fisher_stage("interactive")}


# ---------------------------------------------------------------- judging from outside
def content(p):
    p = Path(p)
    try:
        if p.is_dir():
            return {x.name: content(x) for x in sorted(p.iterdir())}
        if p.suffix in (".h5", ".hdf5"):
            out = {}
            if p.suffix == ".hdf5" and p.name.startswith("fisher_"):      # the order of parameters does not matter
                with h5py.File(p, "r") as hf:
                    idx = [i.decode() if isinstance(i, bytes) else i for i in hf["indices"][()]]
                    m = hf["fisher_matrix"][()]
                    out = {f"{a} {b}": m[i, j] for i, a in enumerate(idx) for j, b in enumerate(idx)}
                    return {"name": hf["name"][()], "n": len(idx), "m": out,
                            **{k: sorted(hf[k][()].tolist()) if k in hf else [] for k in ("cosmological_pars", "nuisance_pars")}}
            with h5py.File(p, "r") as hf:
                def visit(name, o):
                    if isinstance(o, h5py.Dataset):
                        v = o[()]
                        if isinstance(v, np.ndarray):
                            v = v.tolist()
                            if name.endswith("_pars"):
                                v = sorted(v)      # sets have no order
                        out[name] = repr(v)
                hf.visititems(visit)
            return out
        if p.suffix == ".pickle":
            return repr(pickle.loads(p.read_bytes()))
        return p.read_bytes()
    except Exception:
        return None


def results(d):
    """names of all files, contents of the matrices (the order of the tables follows the directory listing)"""
    if not d.is_dir():
        return None
    out = {str(f.relative_to(d)): content(f) if f.suffix == ".hdf5" else "" for f in sorted(d.rglob("*")) if f.is_file()}
    return out if out and all(v is not None for v in out.values()) else None


def products(rd, driver):
    ws = WorkSpace(rd)
    out = {}
    if driver == "core":
        out["dens"] = content(ws.niz_file)
        out["cls"] = content(ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5")
        out["ders"] = content(ws.der_dir / "cl_ders.pickle")
        out["delta"] = content(ws.delta_cls_file)
        out["gcsp"] = content(ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
        out["results"] = results(ws.final_results_dir)
    try:
        ells = content(ws.auto_f_ells_file) or {}
    except Exception:
        ells = {}
    for b in BRIEF:
        c = content(ws.base_fishers_dir / f"fisher_{b}.hdf5")
        if b in PROBE:
            e = {n: v for n, v in ells.items() if n.split("/")[0] in PROBE[b]} if c is not None else {}
            c = (c, e) if c is not None and e else None
        out["fisher:" + b] = c
    return out


def child(driver, order, root, rd, log, **kill):
    k = Killer(rd, log, **kill)
    rc = 0
    try:
        fsu.fisher_aux_files_dir = lambda: root / ("aux_" + order)
        DRIVERS[driver](k, root, rd)
        k.on = False
        k.log("done", str(k.n))
    except BaseException as e:
        k.on = False
        k.log("error", f"{type(e).__name__}: {e}"[:300].replace("\n", " "))
        rc = 1
    os._exit(rc)


def attempt(driver, order, root, rd, **kill):
    log = Path(str(rd) + ".log")
    if log.exists():
        log.unlink()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        child(driver, order, root, rd, log, **kill)
    os.waitpid(pid, 0)
    lines = [l.split(" ", 2) for l in log.read_text().splitlines()]
    computed = []
    seen = set()
    for w in lines:
        if w[0] == "compute":
            key = (w[1], w[2] if len(w) > 2 else "")
            if key[0] not in computed or key in seen:
                computed.append(w[1])      # a second entry for the same part = computed twice
            seen.add(key)
    last = lines[-1] if lines else ["error", "no log"]
    end = {"killed": "killed", "done": "ok"}.get(last[0], " ".join(last[1:]))
    return computed, end, int(last[1]) if last[0] == "done" else 0


def prepare(driver, rd, root):
    rd.mkdir()
    if driver != "core":
        fc = ForecastConfig(input_file=root / "fcfg.json", input_data_dir=DATA / "input_data")
        fc.loadPhysicalParametersFromJSONConfig()
        ws = WorkSpace(rd)
        files = {s: DATA / "config_files" / f for s, f in (("PowerSpectrum", "power_spectrum_config.json"), ("Angular", "angular_config.json"),
                                                           ("Derivative", "derivative_config.json"), ("Fisher", "fisher_config.json"))}
        files["forecast"] = root / "fcfg.json"
        ws.createInputFilesDir(files, fc.phys_pars, DATA / "input_data")


def history(job):
    """one forecast, killed at every position of `kills`, then left to run; returns its trace"""
    driver, order, root, name, kills, ref = job
    root = Path(root)
    rd = root / name / "run"            # the same base name everywhere: run names appear in results
    rd.parent.mkdir()
    try:
        prepare(driver, rd, root)
        tr = [{"op": "setup", "products": list(ref), "untracked": ["gcsp", "results"]}]
        for kill in kills + [{}]:
            computed, end, n = attempt(driver, order, root, rd, **kill)
            now = products(rd, driver)
            tr.append({"op": "attempt", "computed": computed, "end": end, "after": [p for p in ref if now[p] is not None and now[p] == ref[p]],
                       "kill": f"{driver} {order} {json.dumps(kill)}"})
            if end not in ("ok", "killed") or (end == "ok" and kill):
                if end != "ok":
                    break
        return tr, n
    finally:
        shutil.rmtree(rd.parent)


def reference(driver, order, root):
    rd = root / f"ref_{driver}_{order}" / "run"
    rd.parent.mkdir()
    prepare(driver, rd, root)
    computed, end, n = attempt(driver, order, root, rd)
    if end != "ok":
        return computed, end, 0, None
    return computed, end, n, products(rd, driver)


def model_kill(c, rng):
    p, phase = c
    p = {"auto": "fisher:" + rng.choice(AUTOS), "fisher": "fisher:" + rng.choice(BRIEF[3:])}.get(p, p)
    if p in ("end", "results"):
        return None
    return {"before": p} if phase == "before" else {"after": [p, 1 if phase == "computed" else rng.randint(2, 9)]}


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp06_")).resolve()
    hdfstore.install()
    try:
        cons = {"Products": "<- MCProducts", "InPlace": "FALSE", "MaxCrash": "2"}
        acts = ["Reuse", "Compute", "BeginWrite", "EndWrite", "Start", "Finish", "Crash"]
        scen = ck.graph("RestartMC", vlib.cfg_text("Spec", cons, INV, properties=["Completes"], action_constraints=["Emit"]))
        if not {2, 1, 0} <= {len(s["crashes"]) for s in scen}:
            raise vlib.MachineryError("vacuous restart model")
        bad = ck.model("RestartMC", vlib.cfg_text("Spec", {**cons, "InPlace": "TRUE"}, INV), workers=1, allow_error=True, count=False)
        if "NothingWrong" not in (bad.error or ""):
            raise vlib.MachineryError("the restart model does not see incomplete products")
        lists = orders(ck.rng)
        for o, dvs in lists.items():
            aux_dir(tmp / f"aux_{o}", dvs)
        (tmp / "the_log.txt").write_text("log\n")
        shutil.copy(DATA / "config_files/basic_forecast_config.json", tmp / "fcfg.json")
        traces = []
        jobs = []
        for driver, order in [(d, o) for d in DRIVERS for o in lists]:
            computed, end, n, ref = reference(driver, order, tmp)
            if ref is None:
                traces.append([{"op": "setup", "products": ["any"], "untracked": []}, {"op": "attempt", "computed": computed, "end": end, "after": [], "kill": f"{driver} {order}"}])
                continue
            if any(v is None for v in ref.values()):
                traces.append([{"op": "setup", "products": list(ref), "untracked": ["gcsp", "results"]},
                               {"op": "attempt", "computed": computed, "end": end, "after": [p for p in ref if ref[p] is not None], "kill": f"{driver} {order}"}])
                continue
            rng = ck.rng
            plans = []
            if driver == "core":
                for s in scen:
                    ks = [model_kill(c, rng) or {"kill_at": rng.randint(int(n * .75), n)} for c in s["crashes"]]
                    plans.append(ks)
                rng.shuffle(plans)
                plans = plans[:ck.budget(24, len(plans))]
            one = list(range(1, n + 1))
            if not ck.thorough:
                one = sorted(rng.sample(one, min(len(one), 30 if driver == "core" else 18)))
            plans += [[{"kill_at": i}] for i in one]
            for _ in range(ck.budget(15, 200)):
                plans.append([{"kill_at": rng.randint(1, n)} for _ in range(rng.choice((2, 2, 3)))])
            jobs += [(driver, order, str(tmp), f"{driver}_{order}_{i}", p, ref) for i, p in enumerate(plans)]
        with multiprocessing.get_context("fork").Pool(8) as pool:
            traces += [t for t, _ in pool.imap(history, jobs, chunksize=4)]
        ck.s2i += len(jobs)
        if jobs and sum(1 for t in traces if any(e.get("end") == "killed" for e in t)) < len(jobs) * .8:
            raise vlib.MachineryError("too few attempts were actually killed")
        tc = {"Products": "<- TProducts", "InPlace": "FALSE"}
        ck.validate("RestartTrace", traces, constants=tc, label="restarted forecast")
        if not ck.viol:
            t = copy.deepcopy(next(t for t in traces if len(t) > 2 and "cls" in t[1]["after"]))
            t[2]["computed"] = ["cls"] + t[2]["computed"]
            ck.must_reject("RestartTrace", t, "complete product computed again", tc)
            t = copy.deepcopy(next(t for t in traces if len(t) > 2))
            t[-1]["after"] = t[-1]["after"][1:]
            ck.must_reject("RestartTrace", t, "product missing at the end", tc)
        ck.assumptions += ["a kill ends the process between two primitive file operations (opening, creating a dataset, renaming, ...) or halfway through a pickle; the file system keeps what was written",
                           "physics (densities, spectra, derivatives, Fisher elements) is stubbed by quick functions of their inputs"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
