"""P08  reports tell what became of the jobs  (Report.tla)."""
import contextlib
import copy
import datetime
import io
import itertools
import json
import logging
import os
import re
import runpy
import shlex
import shutil
import sys
import tempfile
import types
from pathlib import Path

import repo
import vlib
from seyfert import VERSION
from seyfert.main import bsub_utils, report_maker, task_runners
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from seyfert.utils.workspace import WorkSpace

STAGE = {"A": "PowerSpectrum", "B": "Angular", "C": "Derivative"}
ENDS = {"ok": ("empty", "done", True, False), "error": ("text", "exited", False, False), "noise": ("text", "done", True, False), "core": ("core", "exited", False, True),
        "corefile": ("text", "exited", False, True), "killed": ("empty", "exited", True, False), "empty": ("empty", "done", False, False),
        "open": ("empty", "open", True, False), "noout": ("empty", "none", True, False), "noerr": ("none", "done", True, False)}
TEXT = {"empty": [""], "text": ["Traceback (most recent call last):\n  File \"compute_cls\", line 1\nKeyError: 'h'\n", "slurm: warning\n", "\n"],
        "core": ["/x/job.sh: line 5: 77 Segmentation fault      (core dumped) compute_cls\n", "Illegal instruction, Core Dump\n"]}
DATA = {"PowerSpectrum": "p_mm.h5", "Angular": "cl_WL_PhC.h5", "Derivative": "cl_derivatives_WL.h5"}
EXIT = ["Exited with exit code 1.", "Exited with exit code 137.", "TERM_MEMLIMIT: job killed after reaching LSF memory usage limit.\nExited with signal termination: 9.", "TERM_RUNLIMIT: job killed after reaching LSF run time limit.\nExited with exit code 140."]
LSF = """Sender: LSF System <lsfadmin@{host}.ge.infn.it>
Subject: Job {id}: <{cmd}> in cluster <farm> {word}

Job <{cmd}> was submitted from host <farmui01.ge.infn.it> by user <rossi> in cluster <farm> at {start}.
Job was executed on host(s) {hosts}, in queue <medium>, as user <rossi> in cluster <farm> at {start}.
</home/rossi> was used as the home directory.
</home/rossi/runs> was used as the working directory.
Started at {start}.
Terminated at {end}.
Results reported on {end}.

Your job looked like:

------------------------------------------------------------
# LSBATCH: User input
{cmd}
------------------------------------------------------------

{verdict}

Resource usage summary:

    CPU time :                                   {cpu} sec.
    Max Memory :                                 {mem} MB
    Average Memory :                             {avg} MB
    Total Requested Memory :                     2048.00 MB
    Delta Memory :                               {delta} MB
    Max Swap :                                   -
    Max Processes :                              4
    Run time :                                   {secs} sec.

The output (if any) follows:

2021-03-04T10:11:12.345-root-INFO: {said}
"""
date = lambda t: f"{t:%a %b} {t.day:2d} {t:%H:%M:%S %Y}"


class Farm:
    """The batch system: runs what is submitted at once, and leaves the logs it is told to."""

    def __init__(self, rng, tmp):
        self.rng = rng
        self.root = Path(tempfile.mkdtemp(dir=tmp)).resolve()
        self.n = rng.choice([7, 98, 12345])
        self.now = datetime.datetime(rng.choice([2020, 2021, 2023, 2026]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 59, 58)
        self.tr = []

    def patched(self):
        farm = self

        class Clock(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                farm.now += datetime.timedelta(seconds=farm.rng.choice([1, 1, 2, 7000]))
                return farm.now

        class SP:
            PIPE = -1

            @staticmethod
            def run(cmd, **k):
                return types.SimpleNamespace(stdout=farm.bsub(shlex.split(cmd)), stderr=b"", returncode=0)
        noop = lambda *a, **k: None
        dt = types.SimpleNamespace(**{**vars(datetime), "datetime": Clock})
        return repo.Patched((bsub_utils, "sp", SP), (bsub_utils, "datetime", dt), (task_runners, "datetime", dt), (bsub_utils.BsubInterface, "waitForJobsToComplete", noop), (task_runners.time, "sleep", noop),
                            (gu, "configure_logger", lambda logger, logfile=None, **k: logfile is not None and Path(logfile).touch()), (gu, "print_script_login", noop), (gu, "print_script_logout", noop))

    def bsub(self, words):
        o = dict(zip(words[1:], words[2:]))
        self.n += self.rng.choice([1, 1, 3])
        self.leave(Path(o["-e"]), Path(o["-o"]), words[-1] if not words[-1].startswith("-R") else "x")
        return b"Job <%d> is submitted to queue <medium>." % self.n

    def leave(self, err, out, cmd):
        p = self.plan
        err_, out_, data, core = ENDS[p["end"]]
        if err_ != "none":
            err.write_text(self.rng.choice(TEXT[err_]))
        if out_ != "none":
            t0 = self.now
            t1 = t0 + datetime.timedelta(seconds=p["secs"])
            verdict = {"done": "Successfully completed.", "exited": self.rng.choice(EXIT), "open": ""}[out_]
            hosts = "".join(f"<{self.rng.choice(['', '8*'])}{h}.ge.infn.it>" for h in p["hosts"])
            p["hosts"] = re.findall(r"<([^>]*)\.ge\.infn\.it>", hosts)
            text = LSF.format(host=p["hosts"][0], id=self.n, cmd=cmd, word={"done": "Done", "exited": "Exited", "open": "Done"}[out_], hosts=hosts, start=date(t0), end=date(t1), verdict=verdict, secs=p["secs"],
                              cpu=p["cpu"], mem=p["mem"], avg=p["avg"], delta=p["delta"], said=self.rng.choice(["Done.", "exited the loop with 3", "Job 1 of 2", ""]))
            out.write_text(text.replace(f"<lsfadmin@{p['hosts'][0]}", "<lsfadmin@farm"))
        if data and p.get("data") is not None:
            p["data"].write_bytes(b"x" * (1000 * p["kB"]))
        if core and p.get("dir") is not None:
            if p["end"] == "corefile" or self.rng.random() < .5:
                (p["dir"] / f"core.{self.n}").write_text("")

    def plan_for(self, end, **k):
        r = self.rng
        self.plan = {"end": end, "secs": r.choice([0, 1, 59, 3600, 3661, 86399, 86400, 90061, 200000]), "hosts": r.sample(["teo22", "teo23", "farm4", "n1"], r.choice([1, 1, 2])), "kB": r.choice([0, 1, 7, 25]),
                     "cpu": r.choice(["12.34", "7", "100000.5"]), "mem": r.choice(["1000", "3.5"]), "avg": r.choice(["900.00", "2"]), "delta": r.choice(["1048.00", "-"][:1]), **k}
        return self.plan


class Run:
    """A run directory made of job directories, and what its reports say."""

    def __init__(self, farm, stages, linked, names):
        self.farm, self.rng, self.names = farm, farm.rng, names
        self.dir = farm.root / f"run{farm.rng.randint(1, 9)}_{VERSION}_2021-01-01T00-00-0{farm.rng.randint(1, 9)}"
        self.dir.mkdir()
        self.ws = WorkSpace(self.dir)
        self.jobdirs = {}
        self.runners = {}
        for s, n in stages.items():
            if s in linked:
                target = farm.root / "other" / STAGE[s]
                target.mkdir(parents=True)
                self.ws.task_dirs[STAGE[s]].symlink_to(target)
            base = self.ws.task_dirs[STAGE[s]]
            base.mkdir(exist_ok=True)
            for j, name in enumerate(names[s][:n]):
                (base / name).mkdir()
                (base / name / f"job_{name}_2021-01-01T00-00-00.sh").write_text("#!/bin/bash\n")
                (base / name / "config.json").write_text("{}")
                self.jobdirs[s, j] = base / name
            if farm.rng.random() < .3:
                (base / "notes.txt").write_text("")
        if farm.rng.random() < .3:
            (self.dir / "base_fishers").mkdir()
        farm.tr.append({"op": "setup", "stages": {STAGE[s]: names[s][:n] for s, n in stages.items()}, "linked": [STAGE[s] for s in linked]})

    def exec(self, s, j, end):
        """submitted the way the task runners do"""
        cls = {"A": task_runners.PowerSpectrumTaskRunner, "B": task_runners.AngularTaskRunner, "C": task_runners.DerivativeTaskRunner}[s]
        d = self.jobdirs[s, j]
        p = self.farm.plan_for(end, data=d / DATA[STAGE[s]], dir=d)
        r = cls.__new__(cls)
        r.workspace, r.bsub, r.task_name = self.ws, bsub_utils.BsubInterface(), STAGE[s]
        r.shell_scripts_paths = [next(d.glob("*.sh"))]
        r.submitBatchJobs()
        e, o, data, core = ENDS[end]
        core = core and any(d.glob("core.*"))
        self.farm.tr.append({"op": "exec", "stage": STAGE[s], "job": d.name, "left": {"err": e, "out": o, "data": data, "core": core}, "id": str(self.farm.n), "hosts": p["hosts"], "secs": p["secs"], "kB": p["kB"]})

    def report(self, how=None):
        how = how or self.rng.choice(["api", "script"])
        for f in self.dir.glob("*_run*.log"):
            f.unlink()
        if how == "api":
            def go():
                m = report_maker.RunReportMaker(self.dir)
                m.buildTaskReportMakers()
                m.writeReportFiles()
                return m.run_summary
            st, said = vlib.call(go)
        elif how == "script":
            st, said = script(["do_jobs_report", str(self.dir)], self.farm.root)
        else:
            st, said = "ok", None
        ev = {"op": "report", "out": st, "why": "" if st == "ok" else str(said)[:200]}
        if st == "ok":
            rep, summ = self.dir / f"report_{self.dir.name}.log", self.dir / f"summary_{self.dir.name}.log"
            ev.update(parse(rep.read_text()))
            s = parse(summ.read_text())
            strip = lambda x: {k: {a: b for a, b in v.items() if a != "jobs"} for k, v in x["stages"].items()}
            ev["summary"] = s["status"]
            ev["same"] = strip(s) == strip(ev) and (said is None or strip(parse(said)) == strip(ev)) and not any(v["jobs"] for v in s["stages"].values())
        self.farm.tr.append(ev)


class Failed(Exception):
    pass


def script(words, cwd):
    argv, old, cfg = sys.argv, os.getcwd(), sys.dont_write_bytecode
    sys.argv, sys.dont_write_bytecode = words, True
    os.chdir(cwd)
    out = io.StringIO()

    def go():
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(str(vlib.REPO / "bin" / words[0]), run_name="__main__")
        except SystemExit as e:
            if e.code:
                raise Failed(f"{words[0]} ends with {e.code}")
        return out.getvalue()
    try:
        return vlib.call(go)
    finally:
        sys.argv, sys.dont_write_bytecode = argv, cfg
        os.chdir(old)


def ms(text):
    m = re.fullmatch(r"(\d+)h (\d+)m (\d+)s ([\d.]+)ms", text)
    if not m:
        return -1
    h, mi, s = map(int, m.groups()[:3])
    return round((h * 3600 + mi * 60 + s) * 1000 + float(m[4]))


def parse(text):
    """a report, read"""
    stages, cur, job, doubles = {}, None, None, False
    status = re.match(r"Run \S+: (\w+)\n", text)[1]
    words = lambda s: sorted(x for x in re.split(r"[, ]+", s.strip()) if x)
    for line in text.split("\n")[1:]:
        if m := re.match(r"#{5,} WORKDIR: (\S+) (\w+) #", line):
            doubles = doubles or m[1] in stages
            cur, job = stages.setdefault(m[1], {"status": m[2], "n": -1, "succeeded": -1, "failed": -1, "dumped": -1, "good": [], "bad": [], "ms": -1, "kB": -1, "jobs": []}), None
        elif cur is None:
            continue
        elif m := re.match(r"## (\S+)$", line):
            job = {"job": m[1], "id": "", "num": 0, "status": "", "hosts": [], "ms": -1, "kB": -1, "dumped": ""}
            cur["jobs"].append(job)
        elif job is None:
            if m := re.match(r"(\d+)/(\d+) jobs (succeeded|failed)", line):
                cur[m[3]], cur["n"] = int(m[1]), int(m[2])
            elif m := re.match(r"(\d+)/(\d+) failed jobs core dumped", line):
                cur["dumped"] = int(m[1])
            elif m := re.match(r"Mean Execution Time: (.*)", line):
                cur["ms"] = ms(m[1])
            elif m := re.match(r"Total output size: ([\d.]+) MB", line):
                cur["kB"] = round(float(m[1]) * 1000)
            elif m := re.match(r"Hosts on which jobs (failed|succeeded):(.*)", line):
                cur["bad" if m[1] == "failed" else "good"] = words(m[2])
        elif m := re.match(r"- JobID: (\S+)", line):
            job["id"], job["num"] = m[1], int(m[1]) if m[1].isdigit() else 0
        elif m := re.match(r"- Status: (\S+)", line):
            job["status"] = m[1]
        elif m := re.match(r"- Execution Hosts:(.*)", line):
            job["hosts"] = m[1].split()
        elif m := re.match(r"- Execution Time: (.*)", line):
            job["ms"] = ms(m[1])
        elif m := re.match(r"\s+- Size: ([\d.]+) MB", line):
            job["kB"] = round(float(m[1]) * 1000)
        elif m := re.match(r"- Core Dump: (\w+)", line):
            job["dumped"] = m[1]
    return {"status": status, "stages": stages, "doubles": doubles}


def names(rng):
    cosmo = [fsu.get_cosmology_jobdir_name("central", 0)] + [fsu.get_cosmology_jobdir_name(p, s) for p, s in (("h", 1), ("h", -1), ("w0", 2), ("bgph0", -10), ("Omm", 3))]
    out = {}
    for s in "ABC":
        ns = list(cosmo) if s != "C" else [fsu.get_derivative_jobdir_name_from_dvar(p) for p in ("h", "w0", "bgph0", "Omm", "aIA", "sigma8")]
        rng.shuffle(ns)
        out[s] = ns
    return out


def replayed(rng, tmp, rec):
    """a history of the specification: at its end the report says what the specification says"""
    farm = Farm(rng, tmp)
    ns = names(rng)
    with farm.patched():
        run = Run(farm, rec["own"], rec["linked"], ns)
        for s, j, e in rec["hist"]:
            run.exec(s, j - 1, e)
            if rng.random() < .3:
                run.report()
        run.report()
    ev = farm.tr[-1]
    want = rec["report"]
    wrong = []
    if ev["out"] != "ok":
        wrong = [ev["why"]]
    else:
        for s, w in want["stages"].items():
            x = ev["stages"].get(STAGE[s])
            if x is None or x["status"] != w["status"] or (w["status"] != "NOT_EXECUTED" and any(x[k] != w[k] for k in ("n", "succeeded", "failed"))):
                wrong.append((STAGE[s], w, x))
        if ev["status"] != want["status"] or len(ev["stages"]) != len(want["stages"]):
            wrong.append((ev["status"], want["status"]))
    shutil.rmtree(farm.root)
    return farm.tr, wrong


def random_run(rng, tmp):
    farm = Farm(rng, tmp)
    ns = names(rng)
    mood = rng.choice([["ok"], ["ok"], ["ok"] * 12 + list(ENDS), list(ENDS)])
    with farm.patched():
        stages = {s: rng.choice([0, 1, 3, 6] if rng.random() < .2 else [2, 4, 6]) for s in "ABC" if rng.random() < .85}
        linked = [s for s in stages if rng.random() < .15]
        if rng.random() < .5:
            run = Run(farm, stages, linked, ns)
            for _ in range(rng.randint(1, 3)):
                for k in list(run.jobdirs):
                    if rng.random() < (.97 if len(set(mood)) == 1 else .7):
                        run.exec(*k, rng.choice(mood))
                run.report()
        else:
            batch(farm, stages, linked, ns, mood)
        if rng.random() < .5:
            sweep(farm, mood)
        if rng.random() < .5:
            usage(farm)
        if rng.random() < .3:
            r = task_runners.ForecastRunner()
            secs = rng.choice([0, 59, 3600, 86400, 90061, 500000])
            r.start_datetime = datetime.datetime(2021, 3, 4, 5, 6, 7)
            r.end_datetime = r.start_datetime + datetime.timedelta(seconds=secs)
            r.addTimingDataToMetadata()
            farm.tr.append({"op": "timing", "secs": secs, "ms": ms(r.metadata["duration"])})
    shutil.rmtree(farm.root)
    return farm.tr


def batch(farm, stages, linked, ns, mood):
    """job_submitter, up to the forecast itself"""
    rng = farm.rng
    box = {}
    present = {n: STAGE_OF.get(n) in stages and STAGE_OF.get(n) not in linked or n == "Fisher" and rng.random() < .5 for n in ("PowerSpectrum", "Angular", "Derivative", "Fisher")}
    if not any(present.values()):
        present["Fisher"] = True

    class Runner(task_runners.ForecastRunner):
        def doForecast(self):
            run = box["run"] = Run(farm, stages, linked, ns)
            self.rundir, self.workspace = run.dir, run.ws
            self.buildTasks()
            for k in run.jobdirs:
                run.exec(*k, rng.choice(mood))
    cfg = farm.root / "c.json"
    cfg.write_text("{}")
    words = ["job_submitter", "-ex", "batch", "-fcfg", str(cfg), "--keep_cl_variations", "True"]
    for n, on in present.items():
        words += [f"--{n.lower()}", str(on)]
    with repo.Patched((task_runners, "ForecastRunner", Runner)):
        st, e = script(words, farm.root)
    run = box.get("run")
    written = st == "ok" and run is not None and (run.dir / f"report_{run.dir.name}.log").is_file()
    farm.tr.append({"op": "batch", "out": st, "why": "" if st == "ok" else str(e)[:300], "written": written})
    if written:
        rep = {f: f.read_text() for f in run.dir.glob("*_run*.log")}
        keep = Path.unlink
        ev_n = len(farm.tr)
        # what that report says
        run.rng = types.SimpleNamespace(choice=lambda x: "there")
        saved = {f: t for f, t in rep.items()}
        text = saved[run.dir / f"report_{run.dir.name}.log"]
        ev = {"op": "report", "out": "ok", "why": "", **parse(text)}
        s = parse(saved.get(run.dir / f"summary_{run.dir.name}.log", "Run x: missing\n"))
        strip = lambda x: {k: {a: b for a, b in v.items() if a != "jobs"} for k, v in x["stages"].items()}
        ev["summary"], ev["same"] = s["status"], strip(s) == strip(ev)
        farm.tr.append(ev)


STAGE_OF = {v: k for k, v in STAGE.items()}


def sweep(farm, mood):
    """runs in batch, and what report_batch_jobs tells of their logs"""
    rng = farm.rng
    wd = farm.root / "sweep"
    logs = []
    for i in range(rng.randint(1, 4)):
        d = wd / f"run_c{i}_2021-01-01T00-00-00" / "batch_logs"
        end = rng.choice([e for e in mood if ENDS[e][1] != "none"] or ["ok"])
        farm.plan_for(end)
        before = set(d.rglob("*.out"))
        bsub_utils.BsubInterface().submitJob("run_seyfert x", logs_path=d, separate_err_out_dirs=True, logs_start_str=f"c{i}", silent=True)
        new = [f for f in d.rglob("*.out") if f not in before]
        logs.append({"name": new[0].name, "out": ENDS[end][1]})
    for r, l in enumerate(sorted(logs, key=lambda l: l["name"])):
        l["rank"] = r
    ranks = {l["name"]: l["rank"] for l in logs}
    got = []

    class H(logging.Handler):
        def emit(self, record):
            got.append((record.levelname, record.getMessage()))
    h = H()
    lg = logging.getLogger()
    level = lg.level
    lg.addHandler(h)
    lg.setLevel(logging.DEBUG)
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        with repo.Patched((gu, "configure_logger", lambda *a, **k: None)):
            st, _ = script(["report_batch_jobs", "-wd", str(wd)], farm.root)
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
        logging.disable(off)
    flagged = sorted(ranks[m[1]] for l, t in got if l == "ERROR" and (m := re.search(r"(\S+\.out)", t)))
    farm.tr.append({"op": "sweep", "out": st, "logs": logs, "flagged": flagged, "all": any("uccessfully completed" in t and l == "INFO" for l, t in got)})


def usage(farm):
    rng = farm.rng
    d = farm.root / "usage"
    jobs = []
    for name in rng.sample(["auto_corrs", "WL_WL", "WL_WL+GCph_GCph+XC", "a_2021_b", "phph_2020", "x"], rng.randint(1, 4)):
        p = farm.plan_for("ok")
        bsub_utils.BsubInterface().submitJob("compute_fisher_matrix x", logs_path=d, separate_err_out_dirs=True, logs_start_str=name, silent=True)
        jobs.append({"name": name, "secs": p["secs"], "cpu": round(float(p["cpu"]) * 100), "mem": round(float(p["mem"]) * 100), "avg": round(float(p["avg"]) * 100), "ms": p["secs"] * 1000})
    st, df = vlib.call(bsub_utils.BsubInterface().getResourceUsageTable, out_files_dir=d / "out")
    rows = []
    if st == "ok":
        f = d / "t.csv"
        df.to_csv(f)
        import pandas as pd
        for _, r in pd.read_csv(f).iterrows():
            rows.append({"name": r["fisher"], "secs": round(r["duration_s"]), "cpu": round(r["cpu_time_s"] * 100), "mem": round(r["max_mem_MB"] * 100), "avg": round(r["avg_mem_MB"] * 100), "ms": ms(r["duration_h_m_s_ms"])})
    farm.tr.append({"op": "usage", "out": st, "jobs": jobs, "rows": rows})


def run(ck):
    C = lambda e, j: {"MaxExec": str(e), "MaxJobs": str(j)}
    inv = ["Sound", "Told", "Real", "Counted", "Others", "NeverRun", "Recovers"]
    for e, j in [(2, 2), (3, 1)] + ([(3, 2), (5, 1)] if ck.thorough else []):
        ck.model("ReportMC", vlib.cfg_text("Spec", C(e, j), inv, view="View"), workers=8, timeout=2500, heap="12g")
    recs = ck.graph("ReportMC", vlib.cfg_text("Spec", C(2, 1 if not ck.thorough else 2), action_constraints=["Emit"], view="View"), timeout=900)
    by = {}
    for r in recs:
        r["own"], r["report"]["stages"] = dict(r["own"]), dict(r["report"]["stages"])
        by.setdefault((r["report"]["status"], len(r["linked"]), tuple(sorted(s["status"] for s in r["report"]["stages"].values())), len(r["hist"])), []).append(r)
    if len({k[0] for k in by}) != 4:
        raise vlib.MachineryError("kinds of reports missing")
    tmp = Path(tempfile.mkdtemp(prefix="p08_"))
    traces = []
    try:
        pick = [r for g in by.values() for r in ck.rng.sample(g, min(len(g), ck.budget(12, 60)))]
        for r in pick:
            tr, wrong = replayed(ck.rng, tmp, r)
            ck.s2i += 1
            if wrong:
                ck.violation("a report of a history of the specification says something else", {"history": r["hist"], "linked": r["linked"], "differ": wrong, "trace": tr})
                return
            traces.append(tr)
        traces += [random_run(ck.rng, tmp) for _ in range(ck.budget(250, 4000))]
    finally:
        shutil.rmtree(tmp)
    ck.validate("ReportTrace", traces, label="reports")
    flat = [e for t in traces for e in t]
    ops = {}
    for e in flat:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    ck.sample({"recorded": ops, "statuses": sorted({e["status"] for e in flat if e["op"] == "report" and e["out"] == "ok"})})
    if ck.viol:
        return
    # vacuity: corrupted recordings
    t = copy.deepcopy(next(t for t in traces if t[-1]["op"] == "report" and t[-1]["status"] == "FAILURE" and any(s["succeeded"] > 0 and s["failed"] > 0 for s in t[-1]["stages"].values())))
    s = next(n for n, s in t[-1]["stages"].items() if s["succeeded"] > 0 and s["failed"] > 0)
    for what, f in (("a failed run reported as successful", lambda e: e.update(status="SUCCESS", summary="SUCCESS")), ("a stage missing", lambda e: e["stages"].pop(s)),
                    ("one failure less", lambda e: e["stages"][s].update(failed=e["stages"][s]["failed"] - 1)), ("a job missing", lambda e: e["stages"][s]["jobs"].pop()),
                    ("a job with another outcome", lambda e: e["stages"][s]["jobs"][0].update(status="UNDEFINED" if e["stages"][s]["jobs"][0]["status"] != "UNDEFINED" else "NOT_EXECUTED"))):
        u = copy.deepcopy(t)
        f(u[-1])
        ck.must_reject("ReportTrace", u, what)
    ck.assumptions += ["logs are those of LSF: its verdict, dates with years, host names of the site; names of log files end with the time of submission",
                       "a stage is a directory of job directories: the jobs of the Fisher stage, which have none, are told of by its table of resources",
                       "jobs executed interactively leave no batch logs and are 'not executed' for these reports"]
