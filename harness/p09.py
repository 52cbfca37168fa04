"""P09  a multi-run launches each configured combination once, as asked for  (Orchestrate.tla)."""
import copy
import datetime
import types
import itertools
import json
import os
import re
import runpy
import shlex
import shutil
import sys
import tempfile
from pathlib import Path

import repo
import vlib
from seyfert import VERSION
from seyfert.fisher import final_results_core
from seyfert.main import bsub_utils, orchestration, seyfert_core, task_runners
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from seyfert.utils.workspace import WorkSpace

TASKS = ["powerspectrum", "angular", "derivative", "fisher"]
SHORT = {"powerspectrum": "-pmm", "angular": "-cl", "derivative": "-der", "fisher": "-fish"}
SWITCHES = ["verbose", "test", "keep_cl_variations", "overwrite_results"]
CFGS = ["powerspectrum", "angular", "derivative", "fisher", "results"]
CFGOPT = {"powerspectrum": "-pmm_cfg", "angular": "-cl_cfg", "derivative": "-der_cfg", "fisher": "-fish_cfg", "results": "-res_cfg"}
DIROPT = {"powerspectrum": "-pmm_dir", "angular": "-cl_dir", "derivative": "-der_dir", "fisher": "-fish_elems_dir"}
STAMPS = ["", f"_{VERSION}_2021-03-04T10-11-12", "_1.2.0_2020-01-31T00-00-59"]
NONE = {"path": "none", "label": [], "bins": 0, "nsp": 0}


class Site:
    """A scratch working directory whose commands run in this process: what the launched programs read is recorded."""

    def __init__(self, rng, tmp):
        self.rng = rng
        self.root = Path(tempfile.mkdtemp(dir=tmp)).resolve()
        self.wd = self.root / "work"
        self.wd.mkdir()
        self.tr = []
        self.bsub = None       # what was asked of the batch system for the command that runs
        self.n = 0

    # ---- names of things in the recorded events

    def tok(self, p):
        if p is None:
            return "none"
        p = Path(os.path.realpath(self.wd / p))
        if p == Path(os.path.realpath(fsu.default_seyfert_input_data_dir())):
            return "default"
        return os.path.relpath(p, self.root)

    def val(self, k, v):
        return self.tok(v) if re.search("_(config|dir)$|^rundir$", k) else "none" if v is None else str(v)

    # ---- files

    def make(self, path, text="{}"):
        p = self.root / path
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
        return p

    def file(self, path, label, bins=0, nsp=0):
        return {"path": self.tok(path), "label": label, "bins": bins, "nsp": nsp}

    # ---- running

    def patched(self):
        site = self

        class Runner(task_runners.ForecastRunner):
            def doForecast(self):
                site.forecast(self)

        class Config:
            def __init__(self, input_file=None, input_data_dir=None, **k):
                self.n_sp_bins = json.loads(Path(input_file).read_text())["n"]

            def getConfigID(self):
                return "id"

        class Proc:
            returncode, stderr, stdout = 0, b"", b"Job <77> is submitted to queue <long>"

        class SP:
            PIPE = -1

            @staticmethod
            def run(cmd, **k):
                site.execute(cmd)
                return Proc()
        class Clock(datetime.datetime):
            ticks = itertools.count()

            @classmethod
            def now(cls, tz=None):
                return datetime.datetime(2026, 1, 1) + datetime.timedelta(seconds=next(cls.ticks))
        noop = lambda *a, **k: None
        return repo.Patched(
            (task_runners, "ForecastRunner", Runner), (task_runners, "datetime", types.SimpleNamespace(**{**vars(datetime), "datetime": Clock})), (orchestration, "subprocess", SP), (bsub_utils, "sp", SP), (bsub_utils.time, "sleep", noop),
            (bsub_utils.BsubInterface, "waitForJobsToComplete", noop),
            (seyfert_core, "ForecastConfig", Config), (seyfert_core, "do_forecast", self.seyfert),
            (final_results_core, "create_final_results", self.results),
            (gu, "configure_logger", lambda logger, logfile=None, **k: logfile is not None and Path(logfile).touch()), (gu, "print_script_login", noop), (gu, "print_script_logout", noop))

    def execute(self, cmd):
        """a command, in this process; one that the batch system gets runs at once"""
        words = shlex.split(cmd)
        bsub = None
        if words[0] == "bsub":
            i = next(i for i, w in enumerate(words) if (vlib.REPO / "bin" / w).is_file() and "/" not in w)
            o = dict(zip(words[1:i], words[2:i]))
            bsub, words = {"bsub_queue": o["-q"], "bsub_cores": o["-n"], "bsub_memory": o["-M"]}, words[i:]
        saved, self.bsub = self.bsub, bsub
        try:
            self.program(words)
        finally:
            self.bsub = saved

    def program(self, words):
        argv, cwd, cfg = sys.argv, os.getcwd(), sys.dont_write_bytecode
        sys.argv = [words[0]] + [str(w) for w in words[1:]]
        sys.dont_write_bytecode = True
        os.chdir(self.wd)
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            runpy.run_path(str(vlib.REPO / "bin" / words[0]), run_name="__main__")
        except SystemExit as e:
            if e.code:
                raise vlib_refused(f"{words[0]} ends with {e.code}")
        finally:
            sys.stderr.close()
            sys.stderr = err
            sys.argv, sys.dont_write_bytecode = argv, cfg
            os.chdir(cwd)

    def res(self):
        return dict(self.bsub or dict.fromkeys(["bsub_queue", "bsub_cores", "bsub_memory"], "none"))

    def forecast(self, runner):
        a = runner.args
        args = {k: self.val(k, a[k]) for k in TASKS + SWITCHES + ["execution", "queue", "memory", "n_cores_per_job", "forecast_config", "rundir", "run_id"]
                + [f"{c}_config" for c in CFGS] + [f"{t}_dir" for t in TASKS]}
        args["input_data_dir"] = self.tok(runner.input_data_dir)
        types = {k: type(a[k]) for k in TASKS + SWITCHES}
        if set(types.values()) != {bool} or {type(a[k]) for k in ("memory", "n_cores_per_job")} != {int}:
            args["types"] = "wrong"
            for k in TASKS + SWITCHES:
                if not isinstance(a[k], bool):
                    args[k] = f"{a[k]!r}"
        ev = {"op": "launch", "args": args, "id": [w for w in str(a["run_id"]).split("_")], "kept": ""}
        self.tr.append(ev)
        if runner.rundir is None:
            runner.setRunID()
            runner.createRundir()
            self.created.append((runner.rundir, ev["id"]))
        else:
            runner.workspace = WorkSpace(runner.rundir)
        runner.buildTasks()
        self.last = (ev, runner.workspace)
        for d in ("dvar_central_step_0", "dvar_h_step_p_1", "dvar_bgph0_step_m_3"):
            (runner.workspace.cl_dir / d).mkdir(parents=True, exist_ok=True)

    def looked(self):
        """once the program has ended: what is left of the variations"""
        ev, ws = self.last
        left = {d.name for d in ws.cl_dir.iterdir()}
        ev["kept"] = "yes" if len(left) == 3 else "no" if left == {"dvar_central_step_0"} else "mixed"

    def seyfert(self, args, logfile):
        a = {k: self.val(k, v) for k, v in args.items()}
        wd = Path(args["workdir"])
        a["own"] = str(wd.resolve() != self.wd)
        if a["own"] == "True" and not (wd.parent.resolve() == self.wd and wd.name.startswith(f"run_{Path(args['forecast_config']).stem}_") and wd.is_dir()):
            a["own"] = "elsewhere"
        self.tr.append({"op": "launch", "args": {**a, **self.res()}, "id": [str(wd)], "kept": ""})

    def results(self, rundir=None, outdir_name=None, overwrite=False, **k):
        a = {"rundir": self.tok(rundir), "outdir_name": str(outdir_name), "overwrite": str(overwrite)}
        self.tr.append({"op": "launch", "args": {**a, **self.res()}, "id": [], "kept": ""})

    def run(self, words, req):
        self.created = []
        self.tr.append({"op": "request", "req": req})
        before = set(self.wd.glob("rundirs_*.json"))
        st, e = vlib.call(self.program, words)
        new = [f for f in self.wd.glob("rundirs_*.json") if f not in before]
        listed = [x for f in new for x in json.loads(f.read_text())]
        for f in new:
            f.unlink()
        if st not in ("ok", "vlib_refused"):
            self.why = str(e)
        self.tr.append({"op": "end", "out": st, "why": "" if st == "ok" else str(e)[:200], "listed": sorted(map(self.tok, listed)), "created": sorted([self.tok(d), w] for d, w in self.created)})
        return st


class vlib_refused(Exception):
    pass


def spell(rng, opt, on):
    """a switch, on or off, in one of the ways of saying so"""
    if on:
        return rng.choice([[opt], [opt, "True"], [opt, "true"]])
    return rng.choice([[], [], [opt, "False"], [opt, "false"]])


def listing(site, paths, what):
    """a text file listing directories"""
    lines = [str(p) for p in paths]
    for _ in range(site.rng.choice([0, 0, 1, 2])):
        lines.insert(site.rng.randint(0, len(lines)), site.rng.choice(["", "  "]))
    site.n += 1
    return site.make(f"work/{what}{site.n}.txt", "\n".join(lines) + site.rng.choice(["", "\n", "\n\n"]))


def orchestrate(site, a):
    """an abstract request (labels and switches), laid out in files and given to the orchestrator"""
    rng, wd = site.rng, site.wd
    cfg = wd / "config"
    if cfg.is_dir():
        shutil.rmtree(cfg)
    words, tree = ["orchestrate_run"], rng.random() < .3 and [len(a["pmm_cfg"]), len(a["der_cfg"]), len(a["res_cfg"])] == [1, 1, 1] and a["fish"] and a["cl"]
    sub = {"pmm_cfg": [f"m{i}.json" for i in range(len(a["pmm_cfg"]))], "der_cfg": [f"d{i}.json" for i in range(len(a["der_cfg"]))],
           "res_cfg": [f"r{i}.json" for i in range(len(a["res_cfg"]))]}
    if tree:
        # the configuration directory made by the orchestrator itself from files elsewhere
        src = {n: site.make(f"src/{n}/{sub[n + '_cfg'][0]}") for n in ("pmm", "der", "res")}
        src["fish"], src["cl"] = (site.make(f"src/{n}/{'_'.join(a[n][0]['label'])}.json") for n in ("fish", "cl"))
        opts = [x for n in src for x in (f"-{n}_cfg", str(src[n]))]
        st, _ = vlib.call(site.program, ["orchestrate_run", "-ccfg"] + opts)
        found = [str(f.relative_to(cfg)) for f in cfg.rglob("*") if f.is_file()] if st == "ok" else [st]
        site.tr.append({"op": "tree", "found": sorted(found), "given": sorted([f"{n}_cfg/{p.name}" for n, p in src.items()] + ["external_dirs.json"])})
    for n in ("fcfg", "fish_cfg", "cl_cfg", "pmm_cfg", "der_cfg", "res_cfg"):
        (cfg / n).mkdir(parents=True, exist_ok=True)
        if rng.random() < .15:
            site.make(f"work/config/{n}/notes.txt")
        for f in sub.get(n, []):
            site.make(f"work/config/{n}/{f}")
    if rng.random() < .2:
        (cfg / "old").mkdir()
    req = {"mode": "new", "extra": a["extra"], "opts": dict(a["opts"]), "missing": a["missing"], "ini": [], "input": "none", "rundirs": [], "args": [], "outdir": "", "small": True}
    for n in ("pmm_cfg", "der_cfg", "res_cfg"):
        req[n] = [site.tok(cfg / n / f) for f in sub[n]]
    fcfg, given, used = [], rng.random() < .3 and a["fcfg"], set()
    for i, f in enumerate(a["fcfg"]):
        stem = "_".join(f["label"]) + (f"_{f['bins']}_sp_bins" if f["bins"] else "")
        free = [s for s in STAMPS if (stem, s) not in used]
        s = free[0] if rng.random() < .7 else rng.choice(free)
        used.add((stem, s))
        p = site.make(f"{'elsewhere' if given else 'work/config/fcfg'}/{stem}{s}.json", json.dumps({"n": f["nsp"]}))
        fcfg.append((p, site.file(p, stem.split("_"), f["bins"], f["nsp"])))
    req["fcfg"] = [f for _, f in fcfg]
    for n in ("fish", "cl"):
        req[n] = [site.file(site.make(f"work/config/{n}_cfg/{'_'.join(f['label'])}.json"), f["label"]) for f in a[n]]
    powers = []

    def power(f, i):
        name, s = "_".join(f["label"]), rng.choice(STAMPS)
        p = site.root / f"pmms{i}" / (f"{name}{s}/PowerSpectrum" if rng.random() < .5 else f"{name}{s}")
        p.mkdir(parents=True, exist_ok=True)
        return p, site.file(p, f["label"])
    powers = [power(f, i) for i, f in enumerate(a["powers"])]
    req["powers"] = [f for _, f in powers]
    ext = {"pmm_dir": None, "cl_dir": None, "der_dir": None}
    req["ext_pmm"], req["ext_cl"], req["ext_der"] = NONE, "none", "none"
    if a["ext_pmm"]["path"] != "none":
        p, req["ext_pmm"] = power(a["ext_pmm"], "x")
        ext["pmm_dir"] = str(p)
    for n in ("cl", "der"):
        if a[f"ext_{n}"] != "none":
            ext[f"{n}_dir"] = str(site.root / f"ext_{n}")
            req[f"ext_{n}"] = f"ext_{n}"
    site.make("work/config/external_dirs.json", json.dumps(ext))
    if given:
        words += ["-fcfgs"] + ([str(listing(site, [p for p, _ in fcfg], "fcfgs"))] if rng.random() < .4 else [str(p) for p, _ in fcfg])
    if powers or a["missing"]:
        ps = [p for p, _ in powers] or [site.root / "nowhere"]
        if a["missing"]:
            ps[-1] = site.root / "nowhere"
        words += ["-pmms", str(ps[0] if len(ps) == 1 and rng.random() < .5 else listing(site, ps, "pmms"))]
    common(site, words, req, a)
    return site.run(words, req)


def common(site, words, req, a):
    rng = site.rng
    for t in TASKS:
        words += spell(rng, rng.choice([f"--{t}", SHORT[t]]), a["opts"][t] == "True")
    if a["opts"]["execution"] != "none":
        words += [rng.choice(["-ex", "--execution"]), a["opts"]["execution"]]
    default = {"queue": "long", "memory": "2048", "n_cores_per_job": "1"}
    for k, o in (("queue", "-q"), ("memory", "-mem"), ("n_cores_per_job", "-ncj")):
        if a["opts"][k] != default[k] or rng.random() < .3:
            words += [rng.choice([o, f"--{k}"]), a["opts"][k]]
    if a["ini"]:
        site.n += 1
        words += ["-ini", str(site.make(f"work/run{site.n}.ini", "[config]\n" + "\n".join(f"{k} = {v}" for k, v in a["ini"]) + "\n"))]
        req["ini"] = [[k, "True" if v == "true" else v] for k, v in a["ini"]]
    if a["input"] != "none":
        d = site.root / "data" / a["input"]
        d.mkdir(parents=True, exist_ok=True)
        words += ["-i", str(d)]
        req["input"] = site.tok(d)
    if a["extra"]:
        words += ["-af"] + a["extra"]


def existing(site, a):
    rng = site.rng
    req = {"mode": "existing", "extra": a["extra"], "opts": dict(a["opts"]), "missing": False, "ini": [], "input": "none", "args": [], "outdir": "", "small": True, "fcfg": [], "fish": [], "cl": [],
           "powers": [NONE], "pmm_cfg": ["m"], "der_cfg": ["d"], "res_cfg": ["r"], "ext_pmm": NONE, "ext_cl": "none", "ext_der": "none", "rundirs": []}
    shutil.rmtree(site.wd / "config", ignore_errors=True)
    for n in ("fcfg", "fish_cfg", "cl_cfg", "pmm_cfg", "der_cfg", "res_cfg"):
        site.make(f"work/config/{n}/c.json")
    site.make("work/config/external_dirs.json")
    dirs = []
    for i in range(rng.randint(1, 4)):
        d = site.root / f"runs{site.n}" / f"r{i}_{VERSION}_2021-01-0{i + 1}T01-02-03"
        (d / "input_files").mkdir(parents=True)
        data = site.root / f"data/own{i}"
        if rng.random() < .8:
            data.mkdir(parents=True, exist_ok=True)
        files = {}
        for n in ("forecast", "PowerSpectrum", "Angular", "Derivative", "Fisher"):
            f = d / "input_files" / f"{rng.choice('abc')}_{n}.json"
            f.write_text("{}")
            files[n] = str(f.relative_to(d))
        (d / "input_files_dict.json").write_text(json.dumps({**files, "params": "input_files/params.json", "input_data_dir": str(data)}))
        dirs.append(d)
        req["rundirs"].append({"path": site.tok(d), "input": site.tok(data) if data.is_dir() else "default", **{n: site.tok(d / f) for n, f in files.items()}})
    site.n += 1
    words = ["orchestrate_run", "-rds"] + rundirs(site, dirs)
    if a["opts"]["angular"] == "True":
        (site.root / "pm").mkdir(exist_ok=True)
        words += ["-pmms", str(site.root / "pm")]
    common(site, words, req, a)
    return site.run(words, req)


def rundirs(site, dirs):
    """run directories, as paths or in files listing them"""
    rng = site.rng
    r = rng.random()
    if r < .4:
        return [str(d) for d in dirs]
    site.n += 1
    if r < .7:
        return [str(site.make(f"work/list{site.n}.json", json.dumps([str(d) for d in dirs])))]
    k = rng.randint(0, len(dirs))
    return [str(listing(site, ds, "runs")) for ds in (dirs[:k], dirs[k:]) if ds]


def seyfert(site, a):
    rng = site.rng
    ex = a["opts"]["execution"]
    words, args, fcfg = ["run_seyfert", "-ex", ex], [], []
    named, one = rng.random() < .7, ex == "interactive" and rng.random() < .3
    for i in range(1 if one else rng.randint(1, 4)):
        n = rng.choice([4, 12, 24, 25, 40])
        p = site.make(f"work/f/{rng.choice('abc')}{i}" + (f"_{n}_sp_bins" if named else "") + ".json", json.dumps({"n": n}))
        fcfg.append((p, {"path": site.tok(p), "label": [], "bins": n if named else 0, "nsp": n}))
    rng.shuffle(fcfg)
    words += ["-fcfg"] + ([str(listing(site, [p for p, _ in fcfg], "fc"))] if rng.random() < .3 else [rng.choice([str(p), os.path.relpath(p, site.wd)]) for p, _ in fcfg])
    for c in CFGS:
        if rng.random() < .5:
            p = site.make(f"work/c/{c}{rng.randint(1, 3)}.json")
            words += [rng.choice([CFGOPT[c], f"--{c}_config"]), str(p)]
            args.append([f"{c}_config", site.tok(p)])
    for t in TASKS:
        p = site.root / f"ext_{t}"
        if rng.random() < .4:
            words += [rng.choice([DIROPT[t], f"--{t}_dir"]), str(p)]
        else:
            p = None
        args.append([f"{t}_dir", site.tok(p)])
    if a["input"] != "none":
        words += ["-i", str(site.root / a["input"])]
    args.append(["input_data_dir", a["input"] if a["input"] != "none" else "default"])
    for k, o in (("queue", "-q"), ("memory", "-mem"), ("n_cores_per_job", "-ncj")):
        words += [o, a["opts"][k]]
        args.append([k, a["opts"][k]])
    words += spell(rng, "--is_batch_job", one) + spell(rng, "--test_batch", "test" in a["extra"])
    args.append(["own", str(not one)])
    if rng.random() < .5:
        words += ["-wd", str(site.wd)]
    req = {"mode": "seyfert", "fcfg": [f for _, f in fcfg], "args": args, "opts": dict(a["opts"]), "extra": a["extra"], "small": int(a["opts"]["memory"]) < 10000, "rundirs": [], "outdir": ""}
    return site.run(words, req)


def results(site, a):
    rng = site.rng
    dirs = [site.root / f"done{i}" for i in rng.sample(range(6), rng.randint(1, 3))]
    for d in dirs:
        d.mkdir(exist_ok=True)
    out = rng.choice(["final_results", "res2"])
    words = ["evaluate_final_results", "-ex", a["opts"]["execution"], "-i"] + rundirs(site, dirs)
    for k, o in (("queue", "-q"), ("memory", "-mem"), ("n_cores_per_job", "-ncj")):
        words += [o, a["opts"][k]]
    if out != "final_results":
        words += ["-o", out]
    words += spell(rng, "-ow", "overwrite" in a["extra"]) + spell(rng, "--test", "test" in a["extra"]) + spell(rng, "-nowait", rng.random() < .3) + spell(rng, "--silent", rng.random() < .3)
    req = {"mode": "results", "rundirs": [{"path": site.tok(d)} for d in dirs], "outdir": out, "opts": dict(a["opts"]), "extra": a["extra"], "fcfg": [], "args": [], "small": True}
    return site.run(words, req)


LABELS = [["a"], ["a", "b"], ["b"], ["b", "c"], ["c"], ["opt", "flat"], ["007"], ["a", "2"], ["true"]]


def random_request(rng):
    F = lambda ls, k, bins=lambda: 0: [{"path": "f", "label": l, "bins": b, "nsp": b or 4} for l in rng.sample(ls, min(k, len(ls))) for b in [bins()]]
    named = rng.random() < .5
    fcfg = F(LABELS, rng.choice([1, 1, 2, 3]), lambda: rng.choice([4, 12, 24, 40]) if named else 0)
    if rng.random() < .4:
        fcfg.append(dict(rng.choice(fcfg)))     # the same name but for the version
    on = {t: str(rng.random() < p) for t, p in (("powerspectrum", .2), ("angular", .5), ("derivative", .5), ("fisher", .5))}
    sick = rng.random()
    m = lambda k: ["x"] * (k if sick >= .1 else rng.choice([0, 1, 2]))
    return {"fcfg": fcfg if sick < .97 else [], "fish": F(LABELS, rng.choice([1, 1, 2, 3])) if sick < .96 or sick > .98 else [], "cl": F(LABELS, rng.choice([1, 1, 2])),
            "powers": [{"path": "p", "label": rng.choice(LABELS), "bins": 0, "nsp": 0} for _ in range(rng.choice([0, 1, 1, 2, 3] if on["angular"] == "False" or rng.random() < .1 else [1, 1, 2, 3]))],
            "missing": rng.random() < .04, "pmm_cfg": m(1), "der_cfg": m(1), "res_cfg": m(1),
            "ext_pmm": {"path": "x", "label": rng.choice(LABELS), "bins": 0, "nsp": 0} if rng.random() < .25 else NONE, "ext_cl": rng.choice(["none", "none", "y"]), "ext_der": rng.choice(["none", "none", "y"]),
            "extra": sorted(rng.sample(SWITCHES, rng.choice([0, 0, 1, 2]))), "input": rng.choice(["none", "none", "mydata"]),
            "ini": [[k, v] for k, v in [("memory", "4096"), ("fisher", "False"), ("derivative", "true"), ("queue", "medium"), ("n_cores_per_job", "8"), ("verbose", "True"), ("overwrite_results", "False")]
                    if rng.random() < .5] if rng.random() < .25 else [],
            "opts": {"execution": rng.choice(["interactive", "interactive", "batch", "batch", "no"]) if rng.random() < .95 else "none", **on, "queue": rng.choice(["long", "medium", "q2"]),
                     "memory": rng.choice(["2048", "9999", "10000", "16000"]), "n_cores_per_job": rng.choice(["1", "8"])}}


def history(rng, tmp, wanted=None):
    site = Site(rng, tmp)
    real = site.program

    def program(words):
        n = len(site.tr)
        real(words)
        if words[0] == "job_submitter" and len(site.tr) > n:
            site.looked()
    site.program = program
    with site.patched():
        for i in range(rng.randint(1, 2)):
            a = wanted if wanted and i == 0 else random_request(rng)
            kind = "new" if wanted and i == 0 else rng.choice(["new", "new", "existing", "seyfert", "results"])
            if kind == "new":
                if i == 0 and rng.random() < .3:
                    # other directories that begin alike
                    for x in a["fcfg"]:
                        (site.wd / ("_".join(x["label"]) + f"_z_{VERSION}_2020-02-02T02-02-02")).mkdir(exist_ok=True)
                orchestrate(site, a)
            else:
                if a["opts"]["execution"] == "none":
                    a["opts"]["execution"] = "no"
                if kind == "existing":
                    existing(site, a)
                else:
                    a["extra"] = sorted(x for x in ("test", "overwrite") if rng.random() < .25)
                    (seyfert if kind == "seyfert" else results)(site, a)
    shutil.rmtree(site.root)
    return site.tr


def run(ck):
    C = lambda f, g, p: {"MaxF": str(f), "MaxG": str(g), "MaxP": str(p)}
    ck.model("OrchestrateMC", vlib.cfg_text("Spec", C(2, 2, 2), ["Once", "All", "Faithful", "Names", "Order"], properties=["Ends"]), workers=8, timeout=1500, heap="10g")
    if ck.thorough:
        ck.model("OrchestrateMC", vlib.cfg_text("Spec", C(4, 1, 3), ["Once", "All", "Faithful", "Names", "Order"]), workers=8, timeout=2500, heap="16g")
    recs = ck.graph("OrchestrateMC", vlib.cfg_text("Spec", C(2, 2, 1), action_constraints=["Emit"]), timeout=1500)
    by = {}
    for r in recs:
        q = r["req"]
        by.setdefault((r["refused"], r["n"], len(q["fish"]), len(q["cl"]), len(q["powers"]), q["opts"]["execution"], q["ext_pmm"]["path"], bool(q["ini"])), []).append(q)
    if not any(k[0] for k in by) or max(k[1] for k in by) < 8:
        raise vlib.MachineryError("kinds of requests missing")
    tmp = Path(tempfile.mkdtemp(prefix="p09_"))
    traces = []
    try:
        groups = sorted(by)
        for k in range(ck.budget(220, 3000)):
            g = groups[k % len(groups)]
            traces.append(history(ck.rng, tmp, copy.deepcopy(ck.rng.choice(by[g]))))
            ck.s2i += 1
        traces += [history(ck.rng, tmp) for _ in range(ck.budget(220, 4000))]
    finally:
        shutil.rmtree(tmp)
    ck.validate("OrchestrateTrace", traces, label="launched runs")
    flat = [e for t in traces for e in t]
    ck.sample({"requests": sum(e["op"] == "request" for e in flat), "launches": sum(e["op"] == "launch" for e in flat)})
    if ck.viol:
        return
    # vacuity: kinds of requests and corrupted recordings
    modes = {}
    for t in traces:
        for e in t:
            if e["op"] == "request":
                m = e["req"]["mode"]
            elif e["op"] == "launch":
                modes[m] = modes.get(m, 0) + 1
    if set(modes) != {"new", "existing", "seyfert", "results"} or min(modes.values()) < 10:
        raise vlib.MachineryError(f"launches missing: {modes}")
    has = lambda t, n: sum(e["op"] == "launch" for e in t) >= n and t[0]["op"] == "request" and t[0]["req"]["mode"] == "new" and t[1]["op"] == "launch"
    t = copy.deepcopy(next(t for t in traces if has(t, 2)))
    i = next(i for i, e in enumerate(t) if e["op"] == "launch")
    u = copy.deepcopy(t)
    del u[i]
    ck.must_reject("OrchestrateTrace", u, "a combination not launched")
    u = copy.deepcopy(t)
    u.insert(i, u[i])
    ck.must_reject("OrchestrateTrace", u, "a combination launched twice")
    u = copy.deepcopy(t)
    u[i]["args"]["fisher_config"] = "else"
    ck.must_reject("OrchestrateTrace", u, "another configuration")
    u = copy.deepcopy(t)
    u[i]["args"]["memory"] = "1"
    ck.must_reject("OrchestrateTrace", u, "other resources")
    ck.assumptions += ["paths, queues and labels have no white space or other characters special to the shell", "launched commands run in this process up to the forecast itself; the batch system runs what it is given",
                       "the Fisher stage and the final results of job_submitter ask the batch system for fixed memory by design"]
