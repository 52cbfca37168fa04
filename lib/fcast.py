"""Drive a whole forecast of the real submitter (bin/job_submitter or ForecastRunner) on stand-in programs."""
import contextlib
import io
import itertools
import json
import logging
import os
import shutil
from pathlib import Path

import numpy as np

import repo
import vlib
from fakepipe import FakePipe, Hang, PROGRAMS
from seyfert.main import task_runners, cl_core

DATA = vlib.REPO / "seyfert/data"
STAGES = ["PowerSpectrum", "Angular", "Derivative", "Fisher"]
OPT = {"PowerSpectrum": "powerspectrum", "Angular": "angular", "Derivative": "derivative", "Fisher": "fisher"}
CFG = {"PowerSpectrum": "power_spectrum_config.json", "Angular": "angular_config.json",
       "Derivative": "derivative_config.json", "Fisher": "fisher_config.json"}


def crosses_and_autos():
    autos, crosses = [], []
    for line in (DATA / "fishers/selected_datavectors.txt").read_text().splitlines():
        line = line.strip()
        if line and not line.startswith("#"):
            briefs = [x.strip().strip("'\"") for x in line.split(":")[1].strip().strip("[]").split(",")]
            (autos if len(briefs) == 1 and briefs[0] in ("wlwl", "phph", "spsp") else crosses).append("_".join(briefs))
    return autos, crosses


def forecast_config(pars, n, probes=("WL",), scenario="optimistic"):
    """pars: name -> {free, cosmo, stem}; cosmological names must exist in the test configuration."""
    d = json.loads((DATA / "test_data/test_fcfg.json").read_text())
    d["synthetic_opts"]["scenario"] = scenario
    d["derivative_settings"]["base_stem_disps"] = [0.0125 * (i + 1) for i in range(n)]
    for p in d["cosmology"]["parameters"]:
        q = pars.get(p["name"])
        p["is_free_parameter"] = bool(q and q["free"])
        p["derivative_method"] = "SteM" if not q or q["stem"] else "Analytic"
    for name, pr in d["probes"].items():
        pr["presence_flag"] = name in probes
        for p in pr.get("extra_nuisance_parameters", []):
            q = pars.get(p["name"])
            p["is_free_parameter"] = bool(q and q["free"])
            p["derivative_method"] = "SteM" if not q or q["stem"] else "Analytic"
    return d


class FakeDensity:
    def __init__(self, log):
        self.log = log

    def saveToHDF5(self, f, root=None):
        Path(f).write_text("densities")


class FakeDelta:
    def saveToHDF5(self, f):
        Path(f).write_text("delta")


class Forecast:
    """Runs forecasts inside `root` (a scratch directory) and records everything they do."""

    def __init__(self, root):
        self.root = Path(root)
        self.root.mkdir(exist_ok=True)
        self.fp = FakePipe(self.root / "fake")
        self.script = repo.script("job_submitter")
        self.n = 0

    def scratch(self):
        self.n += 1
        d = self.root / f"w{self.n}"
        d.mkdir()
        return d

    def run(self, work, opts, plan=(), delays=(), patches=(), via_main=False, stub=True, dens=None, delta=None):
        """opts: list of command-line words.  Returns (outcome, exception, runner, events)."""
        gu = self.script.gu
        args = self.script.specific_program_options().parse_args([str(o) for o in opts])
        args = gu.convert_keyval_params_type(vars(args))
        self.fp.reset(plan, delays)
        fp = self.fp
        keep = {}

        class Runner(task_runners.ForecastRunner):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                keep["runner"] = self

        def f_dens(probe_configs=None, z_grid=None, **k):
            fp.log("dens")
            if dens:
                dens()
            return {"Lensing": FakeDensity(fp.log)}

        def f_delta(ws, *a, **k):
            fp.log("delta")
            if delta:
                delta()
            return FakeDelta()

        def f_log(logger, logfile=None):
            if logfile:
                Path(logfile).write_text("")
        pat = [(task_runners, "ForecastRunner", Runner), (gu, "configure_logger", f_log)]
        if stub:
            pat += [(cl_core, "compute_densities", f_dens), (cl_core, "compute_delta_cls", f_delta)]
        cwd = os.getcwd()
        try:
            os.chdir(work)
            with fp, repo.Patched(*pat, *patches):
                try:
                    if via_main:
                        st, v = vlib.call(self.script.main, args)
                    else:
                        rd = args["rundir"]
                        rd = Path(rd).resolve() if rd is not None else None
                        st, v = vlib.call(lambda: Runner(cmd_line_args=args, rundir=rd).doForecast())
                except Hang as h:
                    st, v = "hang", h
        finally:
            os.chdir(cwd)
        return st, v, keep.get("runner"), self.fp.events()


def decode_dir(name, stage, table):
    return table.get((stage, name), (f"?{name}", 99))


def dir_table(pars, n):
    t = {}
    for st in ("PowerSpectrum", "Angular"):
        t[(st, "dvar_central_step_0")] = ("central", 0)
        for p in pars:
            for k in range(1, n + 1):
                t[(st, f"dvar_{p}_step_m_{k}")] = (p, -k)
                t[(st, f"dvar_{p}_step_p_{k}")] = (p, k)
    for p in pars:
        t[("Derivative", p)] = (p, 0)
    return t


def trace_events(events, rundir, table, plan, autos, crosses, cfg_names, mode):
    """Translate the recorded log into specification events."""
    rundir = str(rundir)
    plan = {(n, k): o for n, k, o in plan}
    out = []

    def fisher_key(words):
        if words.split() == autos:
            return ("autos", 0)
        if mode == "batch":
            return (words, 0)
        return ("crosses", 0) if words.split() == crosses else (f"?{words}", 0)
    for e in events:
        if e[0] in ("dens", "delta"):
            out.append({"op": e[0]})
        elif e[0] == "send":
            words = e[2].split()
            if words[0] == "compute_fisher_matrix":
                k = words.index("--rundir")
                p, s = fisher_key(" ".join(words[1:k]))
                out.append({"op": "send", "s": "Fisher", "p": p, "k": s})
            else:
                f = Path(words[0])
                st = f.parent.parent.name
                p, s = decode_dir(f.parent.name, st, table)
                if str(f.parent.parent.parent) != rundir:
                    p = f"?{f}"
                out.append({"op": "send", "s": st, "p": p, "k": s})
        elif e[0] == "job":
            _, prog, wd, cwd, rd, cfg, pos = e
            st = PROGRAMS[prog]
            if st == "Fisher":
                p, k = fisher_key(pos)
                o = plan.get((prog, pos), "ok")
                cwd = c = "own"
            else:
                p, k = decode_dir(Path(wd).name, st, table)
                o = plan.get((prog, Path(wd).name), "ok")
                c = "own" if cfg == cfg_names[st] else cfg
                cwd = "own" if cwd == wd and str(Path(wd).parent.parent) == rundir and Path(wd).parent.name == st else cwd
            out.append({"op": "job", "s": st, "p": p, "k": k, "good": o in ("ok", "slow"), "cwd": cwd,
                        "rundir": "own" if rd == rundir else rd, "cfg": c})
        elif e[0] == "res":
            w = e[1].split()
            opt = {a: b for a, b in zip(w, w[1:]) if a.startswith("-")}
            g = lambda *n: next((opt[x] for x in n if x in opt), "")
            out.append({"op": "res", "rundir": "own" if g("-i", "--input_rundirs") == rundir else g("-i", "--input_rundirs"),
                        "over": g("-ow", "--overwrite") == "True" or ("-ow" in w and not g("-ow")), "ex": g("-ex", "--execution")})
    return out


def tree_event(rundir, table, cfg_contents, scripts_expected=None):
    dirs = {}
    for st in STAGES:
        d = Path(rundir) / st
        rows = []
        if d.is_dir() and not d.is_symlink():
            for x in sorted(d.iterdir()):
                if x.is_dir():
                    p, k = decode_dir(x.name, st, table)
                    ok = any(all(json.loads(f.read_text()).get(a) == b for a, b in cfg_contents[st].items()) for f in x.glob("*.json"))
                    rows.append([p, k, len(list(x.glob("*.sh"))), ok])
        dirs[st] = rows
    return {"op": "tree", "dirs": dirs}
