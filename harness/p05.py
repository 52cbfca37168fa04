"""P05  run directories: inputs recorded, external results untouched  (RunDirs.tla)."""
import copy
import datetime
import hashlib
import json
import os
import shutil
import tempfile
from pathlib import Path

import fcast
import repo
import vlib
from fcast import STAGES, OPT, CFG, DATA
from seyfert.config import forecast_config as fcfg
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.main import cl_core, seyfert_core, task_runners
from seyfert.utils.workspace import WorkSpace

INV = ["ExternalIntact", "OthersIntact", "LinksResolve", "Recorded"]
PARS = {"h": {"free": True, "cosmo": True, "stem": True}, "aIA": {"free": True, "cosmo": False, "stem": True}}
ON_JOB = '''
case "$name" in compute_fisher_matrix) mkdir -p "$rd/base_fishers"; echo product > "$rd/base_fishers/product_$$";;
*) echo product >> "$wd/product";; esac
'''


class FakeClock:
    """module stand-in for task_runners.datetime"""
    now_ = datetime.datetime(2021, 6, 1, 12, 0, 0)

    def __init__(self):
        clock = self

        class D(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return clock.now_
        self.datetime = D


def fake_cosmology():
    from seyfert.cosmology.cosmology import Cosmology

    class C:
        z_grid = [0., 1.]
    return [(Cosmology, "fromHDF5", staticmethod(lambda *a, **k: C()))]


def tree_hash(d):
    h = hashlib.sha1()
    d = Path(d)
    if not os.path.lexists(d):
        return None
    for root, dirs, files in os.walk(d, followlinks=False):
        dirs.sort()
        for n in sorted(dirs + files):
            p = Path(root) / n
            h.update(str(p.relative_to(d)).encode())
            if p.is_symlink():
                h.update(b"L" + os.readlink(p).encode())
            elif p.is_file():
                h.update(b"F" + p.read_bytes() + str(p.stat().st_mtime_ns).encode())
            else:
                h.update(b"D")
    return h.hexdigest()


class Site:
    """A directory holding external results, input files and runs; keeps the recorded trace."""

    def __init__(self, fc, rng, relative=False):
        self.fc, self.rng = fc, rng
        self.d = fc.scratch()
        self.clock = FakeClock()
        self.runs = {}
        self.born = {}
        self.latest = self.clock.now_
        self.inputs = {}
        self.relative = relative
        self.tr = [{"op": "setup"}]
        (fc.fp.d / "on_job").write_text(ON_JOB)
        self.data = self.d / "some" / "input data"
        self.data.parent.mkdir()
        shutil.copytree(DATA / "input_data", self.data)
        self.ext = {}
        for name, has in (("E1", STAGES + ["delta"]), ("E2", ["Angular", "Derivative"]), ("E3", [])):
            e = self.d / ("elsewhere" if name != "E3" else "linked") / name
            e.mkdir(parents=True)
            self.ext[name] = e
            for s in has:
                if s == "delta":
                    (e / "delta_cls.h5").write_text(name)
                else:
                    for p in ("h", "aIA"):
                        for x in ([f"dvar_{p}_step_m_1", "dvar_central_step_0"] if s in ("PowerSpectrum", "Angular") else [p]):
                            (e / s / x).mkdir(parents=True, exist_ok=True)
                            (e / s / x / "product").write_text(f"{name} {s}")
        for e, s in (("E1", "PowerSpectrum"), ("E1", "Fisher"), ("E2", "Angular"), ("E2", "Derivative")):
            (self.ext[e] / s / s).mkdir()       # a directory kept inside the results, named like the stage
        for s in STAGES:        # a tree that only links to another one
            (self.ext["E3"] / s).symlink_to(os.path.relpath(self.ext["E1"] / s, self.ext["E3"]))
        (self.ext["E3"] / "delta_cls.h5").symlink_to(self.ext["E1"] / "delta_cls.h5")
        self.nin = 0

    def make_inputs(self, shape):
        """a set of input files; shape chooses how their names and directories collide"""
        self.nin += 1
        d = self.d / "inputs" / str(self.nin)
        cfg = fcast.forecast_config(PARS, 1)
        cfg["metadata"]["forecast_id"] = f"id{self.nin}"
        contents = {"forecast": cfg}
        for s in STAGES:
            contents[s] = {**json.loads((DATA / "config_files" / CFG[s]).read_text()), "marker": f"{s}-{self.nin}"}
        files = {}
        for role in contents:
            if shape == "same":
                f = d / role / "config.json"
            elif shape == "params":
                f = d / role / ("params.json" if role == "Derivative" else "input_files_dict.json" if role == "Fisher" else f"{role}.json")
            elif shape == "swapped":
                # the names of the roles are permuted, and one is shared
                f = d / role / {"forecast": "config.json", "PowerSpectrum": "Angular_config.json", "Angular": "config.json",
                                "Derivative": "Derivative_config.json", "Fisher": "PowerSpectrum_config.json"}[role]
            else:
                f = d / (CFG[role] if role != "forecast" else "forecast_basic.json")
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text(json.dumps(contents[role]))
            files[role] = f
        return f"i{self.nin}", files, contents

    def path(self, t):
        return self.ext[t] if t in self.ext else self.runs.get(t, self.d / f"missing_{t}")

    def hashes(self):
        h = {t: tree_hash(p) for t, p in {**self.ext, **self.runs}.items()}
        h["inputs"] = tree_hash(self.d / "inputs")
        h["data"] = tree_hash(self.data)
        return h

    def arg(self, p):
        return os.path.relpath(p, self.d) if self.relative else p

    def op(self, kind, r, sel, g, mode="interactive", shape="plain", over=False, via_main=False):
        sel = [s for s in STAGES if s in sel]
        opts = ["-ex", mode, "-i", self.arg(self.data)]
        if kind == "rerun":
            inp, files, contents = self.inputs[r]
            opts += ["-rd", self.arg(self.runs[r])]
        else:
            inp, files, contents = self.make_inputs(shape) if kind != "clash" else self.inputs[r]
            opts += ["-fcfg", self.arg(files["forecast"]), "-id", f"run_{r}"]
        if kind == "replace" or (kind == "new" and getattr(self, "test_ids", False)):
            opts.append("-t")
        for s in STAGES:
            if s in sel:
                opts.append("--" + OPT[s])
            opts += [f"--{OPT[s]}_config", self.arg(files[s])]
            if g.get(s, "none") != "none":
                opts += [f"--{OPT[s]}_dir", self.arg(self.path(g[s]) / s)]
        if over:
            opts.append("-ow")
        if kind == "clash":        # the second in which that directory was created
            self.clock.now_ = self.born[r]
        else:
            self.clock.now_ = self.latest = self.latest + datetime.timedelta(seconds=self.rng.choice([1, 60, 3600]))
        before = self.hashes()
        listing = {x.name for x in self.d.iterdir()}
        st, exc, runner, events = self.fc.run(self.d, opts, via_main=via_main and bool(sel),
                                              patches=fake_cosmology() + [(task_runners, "datetime", self.clock)])
        created = {x.name for x in self.d.iterdir() if not x.name.startswith("logfile")} - listing
        for x in self.d.glob("logfile*"):
            x.unlink()
        rd = Path(runner.rundir) if runner is not None and runner.rundir is not None else None
        if kind == "new" and rd is not None:
            self.runs[r] = rd
            self.born[r] = self.clock.now_
            newdir = created == {rd.name} and rd.parent == self.d.resolve()
        elif kind == "replace":
            newdir = not created and rd == self.runs[r]
        else:
            newdir = not created and (kind == "clash" or rd == self.runs[r])
        after = self.hashes()
        touched = [t for t in after if t in before and before[t] != after[t]] + [f"new directory {x}" for x in created
                                                                              if rd is None or x != rd.name]
        if kind != "clash" and r not in touched and r in before:
            pass
        ev = {"op": kind, "r": r, "sel": sel, "g": {s: g.get(s, "none") for s in STAGES}, "ex": mode != "no", "inp": inp,
              "out": st, "touched": touched if kind == "clash" else [t for t in touched if t != r], "newdir": newdir,
              "slots": self.slots(r), "delta": self.delta(r), "wrote": self.wrote(r)}
        self.tr.append(ev)
        if kind in ("new", "replace"):
            self.inputs[r] = (inp, files, contents)
        if st == "ok" and kind != "clash":
            self.tr.append(self.readback(r))
        return ev, exc

    def core(self, r, g, shape):
        """the in-process forecast (run_seyfert): workspace preparation and fiducial spectra"""
        inp, files, contents = self.make_inputs(shape)
        rd = self.d / f"core_{r}"
        args = {"workdir": rd, "input_data_dir": self.data, "forecast_config": self.arg_path(files["forecast"]),
                "powerspectrum_config": files["PowerSpectrum"], "angular_config": files["Angular"],
                "derivative_config": files["Derivative"], "fisher_config": files["Fisher"]}
        for s in STAGES:
            if g.get(s, "none") != "none":
                args[OPT[s] + "_dir"] = self.path(g[s]) / s
        before = self.hashes()
        st, v = vlib.call(lambda: seyfert_core.prepare_workspace(args))
        after = self.hashes()
        self.runs[r] = rd
        self.inputs[r] = (inp, files, contents)
        ev = {"op": "core", "r": r, "g": {s: g.get(s, "none") for s in STAGES}, "inp": inp, "out": st,
              "touched": [t for t in before if before[t] != after[t]], "slots": self.slots(r), "cl": "", "cltouched": []}
        if st == "ok":
            class Cls:
                def saveToHDF5(self, f):
                    Path(f).write_text("cls")
            fcfg_, ws = v
            with repo.Patched((cl_core, "compute_cls", lambda **k: Cls())):
                ev["cl"], _ = vlib.call(lambda: seyfert_core.compute_fiducial_cls(ws, fcfg_, ws.getTasksJSONConfigs(), fcfg_.phys_pars, None, None))
            last = self.hashes()
            ev["cltouched"] = [t for t in before if before[t] != last[t]]
        self.tr.append(ev)
        if st == "ok":
            self.tr.append(self.readback(r))
        return ev, v

    def arg_path(self, p):
        return p

    def slots(self, r):
        out = {}
        for s in STAGES:
            p = self.runs[r] / s if r in self.runs else None
            out[s] = "none" if p is None or not os.path.lexists(p) else self.target(p, s) if p.is_symlink() else "own"
        return out

    def delta(self, r):
        p = self.runs[r] / "delta_cls.h5" if r in self.runs else None
        return "none" if p is None or not os.path.lexists(p) else self.target(p, "delta_cls.h5") if p.is_symlink() else "own"

    def target(self, p, leaf):
        t = Path(os.path.normpath(p.parent.resolve() / os.readlink(p)))
        if not p.exists():
            return f"?broken link {t}"
        for name, d in {**self.ext, **self.runs}.items():
            if t == d.resolve() / leaf:
                return name
        return f"?{t}"

    def wrote(self, r):
        out = {}
        for s in STAGES:
            d = self.runs[r] / s if r in self.runs else None
            dirs = [x for x in d.iterdir() if x.is_dir()] if d is not None and d.is_dir() and not d.is_symlink() else []
            out[s] = bool(dirs) and all((x / "product").exists() for x in dirs)
        return out

    def readback(self, r):
        rd = self.runs[r]
        inp, files, contents = self.inputs[r]
        # what a reader sees afterwards does not depend on the source files any more
        moved = self.d / "inputs_moved"
        os.rename(self.d / "inputs", moved)
        try:
            ws = WorkSpace(rd)
            roles = {}
            st, v = vlib.call(lambda: json.loads(Path(ws.getForecastConfigFilePath()).read_text()))
            roles["forecast"] = v if st == "ok" else st
            for s in STAGES:
                st, v = vlib.call(lambda: json.loads(Path(ws.getTaskJSONPath(s)).read_text()))
                roles[s] = v if st == "ok" else st
                st, v = vlib.call(lambda: ws.getTaskJSONConfiguration(s))
                if st != "ok":
                    roles[s] = f"{st}: {v}"
            cfg_ok = params_ok = False
            st, fc = vlib.call(lambda: ws.getForecastConfiguration(load_params=True))
            if st == "ok":
                src = fcfg.ForecastConfig(input_file=moved / files["forecast"].relative_to(self.d / "inputs"), input_data_dir=self.data)
                src.loadPhysicalParametersFromJSONConfig()
                same = lambda a, b: {n: vars(p) for n, p in a.items()} == {n: vars(p) for n, p in b.items()}
                cfg_ok = same(fc.phys_pars, src.phys_pars) and fc.getConfigID() == src.getConfigID()
                params_ok = same(ws.getParamsCollection(), src.phys_pars)
            return {"op": "readback", "r": r, "inp": inp, "roles": {k: self.tag(v, contents) for k, v in roles.items()},
                    "want": {k: k for k in contents}, "cfg": cfg_ok, "params": params_ok,
                    "datadir": str(vlib.call(lambda: Path(ws.getInputDataDirPath()).resolve())[1]), "wantdata": str(self.data.resolve())}
        finally:
            os.rename(moved, self.d / "inputs")

    @staticmethod
    def tag(v, contents):
        for role, c in contents.items():
            if v == c:
                return role
        return f"?{v}"[:80]


def replay(ck, fc, tr, rng, cap):
    def key(p):
        o = p["op"]
        r = o["r"]
        oth = "R1" if r == "R2" else "R2"
        return json.dumps([o, p["pre"]["s"][r], p["pre"]["d"][r], p["out"], p["pre"]["s"][oth] if oth in o["g"].values() else 0])
    # shortest histories leading to every state
    K = lambda s: json.dumps(s, sort_keys=True)
    init = K({"x": [], "s": {r: {s: "none" for s in ("PowerSpectrum", "Angular")} for r in ("R1", "R2")},
              "d": {"R1": "none", "R2": "none"}, "dead": []})
    parent = {init: []}
    queue = [init]
    succ = {}
    for t in tr:
        succ.setdefault(K(t["pre"]), []).append(t)
    for s in queue:
        for t in succ.get(s, ()):
            k = K(t["post"])
            if k not in parent:
                parent[k] = parent[s] + [t]
                queue.append(k)
    classes = {}
    for t in tr:
        if K(t["pre"]) in parent:
            classes.setdefault(key(t), []).append(t)
    reps = [rng.choice(v) for v in classes.values()]
    rng.shuffle(reps)
    # every (operation, outcome, selection) first
    first = {}
    for t in reps:
        first.setdefault(json.dumps([t["op"]["op"], t["out"], t["op"]["sel"], len(parent[K(t["pre"])])]), t)
    reps = (list(first.values()) + [t for t in reps if not any(t is u for u in first.values())])[:cap]
    traces = []
    for i, t in enumerate(reps):
        hist = parent[K(t["pre"])] + [t]
        site = Site(fc, rng, relative=i % 3 == 1)
        site.test_ids = any(u["op"]["op"] == "replace" for u in hist)
        for u in hist:
            o = u["op"]
            ev, exc = site.op(o["op"], o["r"], o["sel"], o["g"])
            live = [x for x in ("R1", "R2") if x not in u["post"]["dead"]]      # a half-prepared run is not specified
            got = {"out": ev["out"], "s": {x: {s: v for s, v in site.slots(x).items() if s in ("PowerSpectrum", "Angular")}
                                           for x in live}, "d": {x: site.delta(x) for x in live}}
            ck.s2i += 1
            want = {"out": u["out"], "s": {x: u["post"]["s"][x] for x in live}, "d": {x: u["post"]["d"][x] for x in live}}
            if got != want or ev["touched"]:
                ck.violation(f"{o}: observed {got} touching {ev['touched']}, specification {want} ({exc})",
                             {"history": [x["op"] for x in hist]})
                break
        traces.append(site.tr)
        shutil.rmtree(site.d)
        if len(ck.viol) > 3:
            break
    ck.sample({"history": [x["op"] for x in hist], "end": got})
    return traces


def random_history(ck, fc, rng):
    site = Site(fc, rng, relative=rng.random() < .4)
    alive = []
    dead = set()
    try:
        for _ in range(rng.randint(2, 5)):
            kind = rng.choice(["new", "new", "rerun", "rerun", "clash"])
            free = [r for r in ("R1", "R2", "R3") if r not in site.runs]
            if kind == "new" and not free:
                kind = "rerun"
            if kind in ("rerun", "clash") and not alive:
                kind = "new"
            r = free[0] if kind == "new" else rng.choice(alive)
            if kind in ("rerun", "clash") and r in dead:
                continue
            sel = [s for s in STAGES if rng.random() < .45]
            g = {}
            for s in STAGES:
                if rng.random() < (.6 if s not in sel else .15):
                    c = [t for t in list(site.ext) + [a for a in alive if a not in dead] if t != r]
                    g[s] = rng.choice(c + ["E1", "E3"])
            if kind == "rerun" and rng.random() < .6:     # mostly extend what is there
                sel = [s for s in sel if site.slots(r)[s] in ("none", "own")]
            if "Angular" in sel and "PowerSpectrum" not in sel and site.runs.get(r) is None and "PowerSpectrum" not in g:
                g["PowerSpectrum"] = "E1"
            if kind == "new" and rng.random() < .35:
                ev, exc = site.core(r, {s: t for s, t in g.items() if s != "Fisher"}, rng.choice(["plain", "same", "params", "swapped"]))
                alive.append(r)
                dead.add(r)         # not a run of the submitter: neither repeated nor linked
                continue
            ev, exc = site.op(kind, r, sel, g, mode=rng.choice(["interactive", "interactive", "no", "batch"]),
                              shape=rng.choice(["plain", "same", "params", "swapped"]), over=rng.random() < .3,
                              via_main=rng.random() < .4)
            if kind == "new":
                alive.append(r)
            if ev["out"] != "ok" and kind != "clash":
                dead.add(r)
        return site.tr
    finally:
        shutil.rmtree(site.d)


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp05_")).resolve()
    try:
        fc = fcast.Forecast(tmp)
        cons = {"StageSet": '{"PowerSpectrum", "Angular"}', "RunSet": '{"R1", "R2"}', "ExtSet": '{"E1", "E2"}',
                "ExtHas": "<- MCHas", "WritesThrough": "FALSE", "MaxOps": "3", "Uniform": "TRUE"}
        tr = ck.graph("RunDirsMC", vlib.cfg_text("Spec", cons, INV, view="View"))
        if {(t["op"]["op"], t["out"]) for t in tr} < {("new", "ok"), ("rerun", "ok"), ("replace", "ok"), ("rerun", "FileExistsError"),
                                                      ("new", "FileNotFoundError")}:
            raise vlib.MachineryError("vacuous run directory model")
        # the invariants are not vacuous: a stage allowed to write through a link breaks them
        bad = ck.model("RunDirsMC", vlib.cfg_text("Spec", {**cons, "WritesThrough": "TRUE"}, INV, view="View"), workers=1,
                       allow_error=True, count=False)
        if "ExternalIntact" not in (bad.error or ""):
            raise vlib.MachineryError("the run directory model does not see writes into external results")
        if ck.thorough:
            ck.model("RunDirsMC", vlib.cfg_text("Spec", {**cons, "Uniform": "FALSE", "MaxOps": "4"}, INV, view="View"), workers=8,
                     timeout=1500, heap="8g")
        traces = replay(ck, fc, tr, ck.rng, ck.budget(130, 1200))
        for _ in range(ck.budget(60, 600)):
            traces.append(random_history(ck, fc, ck.rng))
        tc = {"StageSet": "<- TStages", "RunSet": "<- TRuns", "ExtSet": "<- TExt", "ExtHas": "<- THas", "WritesThrough": "FALSE"}
        # the two-stage replays used a smaller stage set; absent stages simply stay empty
        ck.validate("RunDirsTrace", traces, constants=tc, label="run directories")
        if not ck.viol:
            t = copy.deepcopy(next(t for t in traces if any(e["op"] == "readback" for e in t)))
            e = next(e for e in t if e["op"] == "readback")
            e["roles"]["Angular"] = "Derivative"
            ck.must_reject("RunDirsTrace", t, "swapped record", tc)
            t = copy.deepcopy(next(t for t in traces if any("E1" in e.get("slots", {}).values() for e in t)))
            e = next(e for e in t if "E1" in e.get("slots", {}).values())
            e["touched"] = ["E1"]
            ck.must_reject("RunDirsTrace", t, "external tree changed", tc)
        ck.assumptions += ["job programs are stand-ins writing one product into the directory they were launched for",
                           "a run directory left by a refused or failed preparation is not specified beyond touching nothing else"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
