"""P07  existing results are replaced only on request  (Overwrite.tla)."""
import argparse
import copy
import hashlib
import json
import logging
import os
import shlex
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import repo
import vlib
from harness import p16
from seyfert.config.cmd_line import JobSubmitterCommandLineArgs
from seyfert.fisher import final_results_core as frc
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.fisher_plot import FisherPlotter
from seyfert.main import fisher_core, task_runners
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import table_utils
from seyfert.utils.workspace import WorkSpace

AUTOS = [("[WL]", "wlwl"), ("[GCph]", "phph"), ("[GCsp]", "spsp")]
CROSS = [("[WL+GCph]", "wlwl_phph"), ("[XC(WL,GCph)]", "wlph"), ("[GCph+GCsp]", "phph_spsp"), ("[WL+GCph+XC(WL,GCph)]", "wlwl_phph_wlph"), ("[GCsp+XC(WL,GCsp)]", "spsp_wlsp")]
PARS = ["h", "Omm", "w0"]
RES = [(c, t) for c in ("w0_wa_CDM", "LCDM") for t in ("marg_before", "marg_after", "nuis_fixed")]


def matrix(name, ver):
    ps = PARS + ["bgph0"]
    m = np.diag([float(ver + i) for i in range(1, 5)]) + .25 * ver
    return FisherMatrix.from_dataframe(pd.DataFrame(m, index=ps, columns=ps), name=name, cosmological_parameters=PARS, nuisance_parameters=["bgph0"])


def shown(F):
    m = F.matrix.sort_index(axis=0).sort_index(axis=1)
    return f"{F.name} {sorted(F.cosmological_parameters)} {sorted(F.nuisance_parameters)} {list(m.index)} {np.round(m.to_numpy(), 9).tolist()}"


def token(p):
    """what a file holds"""
    p = Path(p)
    st, v = vlib.call(content, p)
    return hashlib.sha1((v if st == "ok" else "unreadable: " + st).encode()).hexdigest()[:12]


def content(p):
    if p.suffix == ".hdf5":
        return shown(FisherMatrix.fromHDF5(p))
    if p.suffix == ".xlsx":
        df = pd.read_excel(p, index_col=0, sheet_name=None)
        return json.dumps({k: [list(map(str, v.columns)), list(map(str, v.index)), [[repr(x) for x in r] for r in v.to_numpy()]] for k, v in sorted(df.items())})
    return p.read_text(errors="replace")


def listing(d):
    return {str(f.relative_to(d)): token(f) for f in sorted(Path(d).rglob("*")) if f.is_file() and "logs" not in f.relative_to(d).parts[:1]} if Path(d).is_dir() else {}


class Cfg:
    synthetic_opts = {"scenario": "optimistic"}
    n_sp_bins = 4
    scenario = "optimistic"

    def getConfigID(self):
        return "cfg"


class Site:
    """A scratch run directory, with the matrices replaced by numbered ones, and commands run in this process."""

    def __init__(self, rng, tmp, combos=(), cross=None):
        self.rng, self.tmp, self.ver = rng, tmp, 1
        self.rd = Path(tempfile.mkdtemp(dir=tmp))
        self.cross = cross or rng.sample(CROSS, rng.randint(1, 2))
        self.ws = WorkSpace(self.rd)
        p16.params(PARS, {}).writeJSON(self.rd / "params.json")
        self.aux = self.rd / "aux"
        self.aux.mkdir()
        auto = AUTOS[:]
        (self.aux / "selected_datavectors.txt").write_text("\n".join(f"{n}: {[x for x in b.split('_')]}" for n, b in auto + self.cross) + "\n")
        (self.aux / "a_posteriori_fisher_combs.txt").write_text("\n".join(combos) + "\n")
        self.out = self.rd / "analysis"
        self.out.mkdir()
        self.fresh = {}
        self.commands = []
        self.script = {n: repo.script(n) for n in ("evaluate_final_results", "compute_fisher_matrix")}

    def patched(self):
        site = self

        def compute(data_vector, ws, *a):
            if data_vector.is_single_autocorrelation:
                ws.auto_f_ells_file.touch()
            return matrix(data_vector.name, site.ver)

        class Proc:
            stdout = stderr = b""
            returncode = 0
        pk = self.rd / "pk"
        return repo.Patched(
            (fsu, "fisher_aux_files_dir", lambda: self.aux), (fsu, "get_params_file_from_rundir", lambda r: self.rd / "params.json"),
            (WorkSpace, "getForecastConfiguration", lambda s: Cfg()), (fisher_core, "prepare_inputs", lambda *a, **k: (None, {})),
            (fisher_core, "compute_fisher_matrix", compute), (task_runners.time, "sleep", lambda s: None),
            (FisherMatrix, "from_ISTfile", classmethod(lambda cls, file=None, **k: matrix("[GCsp(Pk)]", site.ver))),
            (task_runners.sp, "run", lambda cmd, **k: (self.execute(cmd), Proc())[1]))

    def execute(self, cmd):
        """a command of the pipeline, or of the batch system submitting one, in this process"""
        words = shlex.split(cmd)
        if words[0] == "bsub":
            words = words[next(i for i, w in enumerate(words) if w in self.script):]
        self.commands.append(words)
        m = self.script[words[0]]
        a = m.program_options().parse_args(words[1:])
        root = logging.getLogger()
        saved = root.handlers[:]
        cwd = os.getcwd()
        os.chdir(self.rd)
        try:
            m.main(a if words[0] == "evaluate_final_results" else vars(a))
        except FileExistsError:
            pass     # the process ends; whoever started it goes on
        finally:
            os.chdir(cwd)
            for h in root.handlers[:]:
                if h not in saved:
                    h.close()
            root.handlers[:] = saved

    def bsub(self):
        site = self

        class B:
            def setOptions(self, **k):
                pass

            def submitJob(self, cmd_to_execute, **k):
                if not k.get("test"):
                    site.execute(cmd_to_execute)
                return "1"

            def waitForJobsToComplete(self, ids, **k):
                pass

            def getResourceUsageTable(self, **k):
                return pd.DataFrame()
        return B()

    def args(self, ow, ex):
        return JobSubmitterCommandLineArgs({"overwrite_results": ow, "execution": ex, "queue": "long", "n_cores_per_job": 1, "memory": 2048})

    # ---- the operations

    def stage(self, ow):
        ex = self.rng.choice(["interactive", "batch"])
        r = task_runners.FisherTaskRunner(workspace=self.ws, args=self.args(ow, ex), json_input=fsu.config_files_dir() / "fisher_config.json", forecast_config=Cfg())
        r.bsub = self.bsub()
        self.ws.base_fishers_dir.mkdir(exist_ok=True)
        if ex == "batch":
            return r.submitBatchJobs()
        return r.executeJobsInteractively()

    def final(self, ow):
        if self.rng.random() < .5:
            return frc.create_final_results(rundir=self.rd, outdir_name="final_results", overwrite=ow)
        words = ["evaluate_final_results", "-ex", "interactive", "-i", str(self.rd)] + (self.rng.choice([["-ow"], ["--overwrite", "True"]]) if ow else self.rng.choice([[], ["-ow", "False"]]))
        m = self.script["evaluate_final_results"]
        with repo.Patched((m.general_utils, "configure_logger", lambda *a, **k: None)):
            m.main(m.program_options().parse_args(words[1:] + ["-wd", str(self.rd)]))

    def launch(self, ow):
        ex = self.rng.choice(["interactive", "batch"])
        r = task_runners.ForecastRunner(workdir=self.rd, rundir=self.rd)
        r.args, r.workspace, r.forecast_config = self.args(ow, ex), self.ws, Cfg()
        with repo.Patched((self.script["evaluate_final_results"], "BsubInterface", self.bsub)):
            r.evaluateFinalResults()

    def expected(self):
        """the results of the matrices there are now, from a run directory that never had any"""
        base = listing(self.ws.base_fishers_dir)
        k = json.dumps(base, sort_keys=True)
        if k not in self.fresh:
            d = Path(tempfile.mkdtemp(dir=self.tmp))
            shutil.copytree(self.ws.base_fishers_dir, d / "base_fishers")
            frc.create_final_results(rundir=d, outdir_name="final_results")
            self.fresh[k] = listing(d / "final_results")
            shutil.rmtree(d)
        return self.fresh[k]

    def pk(self):
        p = self.ws.base_fishers_dir / "fisher_IST_gcsp_pk_w0_wa_CDM.hdf5"
        return {p.name: self.tok(matrix("[GCsp(Pk)]", self.ver))}

    def relocate(self, *dirs):
        """a result may be kept elsewhere, with a link in its place"""
        files = sorted(f for d in dirs for f in Path(d).rglob("*") if f.is_file() and not f.is_symlink() and "logs" not in f.parts) if self.rng.random() < .3 else []
        if files:
            f = self.rng.choice(files)
            d = Path(tempfile.mkdtemp(dir=self.tmp))
            shutil.move(f, d / f.name)
            f.symlink_to(d / f.name)

    @staticmethod
    def tok(F):
        return hashlib.sha1(shown(F).encode()).hexdigest()[:12]

    def base_new(self):
        return {f"fisher_{b}.hdf5": self.tok(matrix(n, self.ver)) for n, b in AUTOS + self.cross}


# ------------------------------------------------------------------ behaviours of the specification

def replay(ck, recs, tmp):
    rng = ck.rng
    seen = set()
    k = lambda s: json.dumps({x: (sorted(v) if isinstance(v, list) else v) for x, v in s.items()}, sort_keys=True)
    for walk in my_walks(recs, rng, ck.budget(14, 200), ck.budget(12, 14), k):
        s = Site(rng, tmp)
        NAME = dict(zip("xy", rng.sample([n for n, _ in AUTOS + CROSS], 2)))
        groups = {"x": AUTOS, "y": s.cross}
        done, fast = [], {}
        with s.patched():
            for t in walk:
                a, args, out = t["op"]["s"], t["op"]["a"], t["op"]["out"]
                done.append([a, *args])
                seen.add((a, out))
                ck.s2i += 1
                st = "ok"
                s.relocate(s.out, s.ws.base_fishers_dir)
                if fast.get("ext") and rng.random() < .3 and not (s.rd / f"t.{fast['ext']}").is_symlink():
                    shutil.move(s.rd / f"t.{fast['ext']}", s.rd / f"kept_t.{fast['ext']}")
                    (s.rd / f"t.{fast['ext']}").symlink_to(s.rd / f"kept_t.{fast['ext']}")
                if a == "inputs":
                    s.ver += 1
                elif a == "matrix":
                    F = matrix(NAME[args[0]], s.ver)
                    kw = {"refuse": {}, "keep": {"skip_if_exists": True}, "over": {"overwrite": True}}[args[1]]
                    st, _ = vlib.call(F.writeToFile, **kw, **({"outdir": s.out} if rng.random() < .5 else {"outfile": s.out / F.getFilename()}))
                elif a == "analysis":
                    order = sorted(args[0])
                    rng.shuffle(order)
                    an = FisherAnalysis(fisher_matrices={NAME[x]: matrix(NAME[x], s.ver) for x in order}, cosmo_pars_fiducial={})
                    st, _ = vlib.call(an.saveFishersToDisk, s.out, overwrite=args[1] == "over")
                elif a == "table":
                    ext = rng.choice(["csv", "xlsx"]) if not fast.get("ext") else fast["ext"]
                    fast["ext"] = ext
                    df = pd.DataFrame({"h": [s.ver]}, index=["a"])
                    st, _ = vlib.call(table_utils.write_dataframe_table, df, s.rd / f"t.{ext}", overwrite=args[0] == "over")
                elif a == "stage":
                    st, _ = vlib.call(s.stage, args[0])
                elif a == "lose":
                    for n, b in groups[args[0]]:
                        (s.ws.base_fishers_dir / f"fisher_{b}.hdf5").unlink()
                elif a == "final":
                    st, _ = vlib.call(s.final, args[0])
                elif a == "launch":
                    st, _ = vlib.call(s.launch, args[0])
                _ = None
                post = {x: dict(v) if isinstance(v, list) else v for x, v in t["post"].items()}

                def say(what):
                    ck.violation(f"after {done}: {what}", {"operations": done, "state": t["post"]})
                if (st == "ok") != (out == "ok"):
                    say(f"outcome {st}, not {out}")
                    return seen
                if out != "ok" and st != "FileExistsError":
                    say(f"refused with {st}")
                    return seen
                want = {matrix(NAME[x], v).getFilename(): s.tok(matrix(NAME[x], v)) for x, v in post["out"].items()}
                if listing(s.out) != want:
                    say(f"saved matrices {listing(s.out)}, not {want}")
                    return seen
                want = {f"fisher_{b}.hdf5": s.tok(matrix(n, v)) for x, v in post["base"].items() for n, b in groups[x]}
                got = {f: v for f, v in listing(s.ws.base_fishers_dir).items() if not f.startswith(("fisher_IST", "logs"))}
                if got != want:
                    say(f"matrices of the stage {got}, not {want}")
                    return seen
                got = pd.read_csv(s.rd / "t.csv")["h"][0] if fast.get("ext") == "csv" else pd.read_excel(s.rd / "t.xlsx")["h"][0] if fast.get("ext") else 0
                if int(got) != post["tab"].get("x", 0):
                    say(f"table of {got}, not {post['tab']}")
                    return seen
                got = {x: v for x in "xy" for v in [version(s, groups[x])] if v}
                if got != post["res"]:
                    say(f"final results of {got}, not {post['res']}")
                    return seen
        shutil.rmtree(s.rd)
    ck.sample({"operations": done})
    return seen


def version(s, group):
    """the version of these matrices all final results agree on (0 none, -1 mixed)"""
    vs = set()
    d = s.rd / "final_results"
    for c, t in RES:
        for n, _ in group:
            f = d / c / t / FisherMatrix(name=n).getFilename()
            vs.add(0 if not f.is_file() else margver(f) if t == "marg_before" else round(float(FisherMatrix.fromHDF5(f).matrix.loc["h", "Omm"]) / .25, 6))
    return int(vs.pop()) if len(vs) == 1 else -1 if vs else 0


MARG = {}


def margver(f):
    """the version whose marginalised matrix this is"""
    v = round(float(FisherMatrix.fromHDF5(f).matrix.loc["h", "Omm"]), 9)
    if not MARG:
        for ver in range(1, 60):
            F = matrix("x", ver)
            F.marginalizeNuisance(ret_copy=False)
            MARG[round(float(F.matrix.loc["h", "Omm"]), 9)] = ver
    return MARG.get(v, -1)


def my_walks(recs, rng, n, length, k):
    """walks through the emitted graph that prefer operations not tried yet"""
    by = {}
    for r in recs:
        by.setdefault(k(r["pre"]), []).append(r)
    count = {}
    init = k(min(recs, key=lambda r: (r["n"], sum(len(v) for v in r["pre"].values() if isinstance(v, list)), r["pre"]["ver"]))["pre"])
    out = []
    for _ in range(n):
        cur, w = init, []
        for _ in range(length):
            if cur not in by:
                break
            c = by[cur]
            sig = lambda r: json.dumps([r["op"], cur])
            kinds = lambda r: (r["op"]["s"], r["op"]["out"], json.dumps(r["op"]["a"]))
            lo = min(count.get(kinds(r), 0) + 3 * count.get(sig(r), 0) for r in c)
            r = rng.choice([r for r in c if count.get(kinds(r), 0) + 3 * count.get(sig(r), 0) <= lo + 1])
            count[kinds(r)] = count.get(kinds(r), 0) + 1
            count[sig(r)] = count.get(sig(r), 0) + 1
            w.append(r)
            cur = k(r["post"])
        out.append(w)
    return out


# ------------------------------------------------------------------ recorded histories

def history(rng, tmp, length):
    combos = rng.sample(["[WL] + [GCph]", "[WL+GCph] + [GCsp]", "[GCsp(Pk)] + [WL]", "[XC(WL,GCph)] + [GCsp]"], rng.randint(0, 3))
    s = Site(rng, tmp, combos)
    tr = []
    dirs = {"out": s.out, "base": s.ws.base_fishers_dir, "results": s.rd / "final_results", "tables": s.rd / "tables"}
    dirs["tables"].mkdir()
    names = [n for n, _ in AUTOS + CROSS]

    def log(d, policy, new, out, silent=False):
        after = listing(dirs[d])
        tr.append({"op": "write", "dir": d, "policy": policy, "new": new, "out": out, "silent": silent, "after": after})
    with s.patched():
        for _ in range(length):
            what = rng.choice(["inputs", "inputs", "launch", "launch", "matrix", "matrix", "analysis", "table", "ranges", "stage", "final", "launch", "lose", "errors", "corr"])
            ow = rng.random() < .4
            s.relocate(*dirs.values())
            if what == "inputs":
                s.ver += 1
            elif what == "matrix":
                F = matrix(rng.choice(names), s.ver)
                p = rng.choice(["refuse", "keep", "over"])
                kw = {"refuse": {}, "keep": {"skip_if_exists": True}, "over": {"overwrite": True}}[p]
                st, _ = vlib.call(F.writeToFile, outdir=s.out, **kw)
                log("out", p, {F.getFilename(): s.tok(F)}, st)
            elif what == "analysis":
                Fs = {n: matrix(n, s.ver) for n in rng.sample(names, rng.randint(1, 3))}
                st, _ = vlib.call(FisherAnalysis(fisher_matrices=Fs, cosmo_pars_fiducial={}).saveFishersToDisk, rng.choice([s.out, str(s.out)]), overwrite=ow)
                log("out", "over" if ow else "refuse", {F.getFilename(): s.tok(F) for F in Fs.values()}, st)
            elif what == "table":
                f = dirs["tables"] / rng.choice(["a.csv", "b.xlsx", "c.csv"])
                df = pd.DataFrame({"h": [s.ver, 2.5]}, index=["a", "b"])
                df.to_csv(s.rd / "ref.csv")
                df.to_excel(s.rd / "ref.xlsx")
                st, _ = vlib.call(table_utils.write_dataframe_table, df, rng.choice([f, str(f)]), overwrite=ow)
                log("tables", "over" if ow else "keep", {f.name: token(s.rd / f"ref{f.suffix}")}, st)
            elif what == "errors":
                # the tables of an analysis
                an = FisherAnalysis(fisher_matrices={n: matrix(n, s.ver) for n in rng.sample(names, 2)}, cosmo_pars_fiducial={p: 1. + s.ver for p in PARS})
                an.name = "an"
                an.evaluateMarginalizedErrors()
                ref = Path(tempfile.mkdtemp(dir=s.rd))
                an.writeAbsoluteAndRelativeMarginalizedErrors(ref)
                st, _ = vlib.call(an.writeAbsoluteAndRelativeMarginalizedErrors, dirs["tables"], overwrite=ow)
                log("tables", "over" if ow else "keep", listing(ref), st)
                shutil.rmtree(ref)
            elif what == "ranges":
                pl = FisherPlotter.__new__(FisherPlotter)
                ranges = {"h": [float(s.ver), 2.]}
                with repo.Patched((FisherPlotter, "plot_ranges", ranges)):
                    st, _ = vlib.call(pl.writeParameterPlotRangesToFile, dirs["tables"] / "ranges.json", overwrite=ow)
                (s.rd / "ref.json").write_text(json.dumps(ranges, indent=2))
                log("tables", "over" if ow else "keep", {"ranges.json": token(s.rd / "ref.json")}, st)
            elif what == "stage":
                st, _ = vlib.call(s.stage, ow)
                logs = s.ws.base_fishers_dir
                for x in logs.glob("logs_run*"):
                    shutil.rmtree(x)
                log("base", "replace" if ow else "keep", s.base_new(), st)
            elif what == "lose":
                have = sorted(listing(s.ws.base_fishers_dir))
                if have:
                    x = rng.choice(have)
                    (s.ws.base_fishers_dir / x).unlink()
                    tr.append({"op": "remove", "dir": "base", "name": x})
            elif what == "final" and listing(s.ws.base_fishers_dir):
                new = s.expected()
                st, _ = vlib.call(s.final, ow)
                log("results", "replace" if ow else "whole", new, st)
            elif what == "launch" and listing(s.ws.base_fishers_dir):
                st, _ = vlib.call(s.launch, ow)
                log("base", "keep", s.pk(), st)
                log("results", "replace" if ow else "whole", s.expected(), st, silent=True)
            _ = None
    shutil.rmtree(s.rd)
    return tr


def run(ck):
    cfg = lambda n, **kw: vlib.cfg_text("Spec", {"MaxOps": str(n), "MaxVer": "3"}, **kw)
    ck.model("OverwriteMC", cfg(ck.budget(5, 7), invariants=["OneSet"], properties=["Kept", "New", "Nothing"], view="View"), workers=8, timeout=1500, heap="12g")
    recs = ck.graph("OverwriteMC", cfg(ck.budget(5, 6), action_constraints=["Emit"], view="View"), timeout=1500)
    if {(r["op"]["s"], r["op"]["out"]) for r in recs} != {("inputs", "ok"), ("matrix", "ok"), ("matrix", "refused"), ("analysis", "ok"), ("analysis", "refused"), ("table", "ok"),
                                                          ("stage", "ok"), ("lose", "ok"), ("final", "ok"), ("final", "refused"), ("launch", "ok")}:
        raise vlib.MachineryError("operations missing from the model")
    tmp = Path(tempfile.mkdtemp(prefix="p07_"))
    try:
        replay(ck, recs, tmp)
        traces = [history(ck.rng, tmp, ck.rng.randint(6, 18)) for _ in range(ck.budget(36, 500))]
    finally:
        shutil.rmtree(tmp)
    traces = [t for t in traces if t]
    ck.validate("OverwriteTrace", traces, label="results written")
    flat = [e for t in traces for e in t if e["op"] == "write"]
    if not ck.viol and ({(e["dir"], e["policy"]) for e in flat} < {("out", "refuse"), ("out", "keep"), ("out", "over"), ("tables", "keep"), ("tables", "over"), ("base", "keep"),
                                                                  ("base", "replace"), ("results", "whole"), ("results", "replace")}):
        raise vlib.MachineryError("kinds of writes missing")
    pick = lambda f: copy.deepcopy(next(t for t in traces if any(f(e) for e in t)))
    first = lambda t, f: next(e for e in t if f(e))
    f = lambda e: e["op"] == "write" and e["policy"] == "refuse" and e["out"] != "ok"
    t = pick(f)
    e = first(t, f)
    e["after"][next(iter(e["new"]))] = "0"
    ck.must_reject("OverwriteTrace", t, "a refused write that writes")
    f = lambda e: e["op"] == "write" and e["policy"] == "replace" and e["dir"] == "results"
    t = pick(f)
    first(t, f)["after"]["LCDM/old.hdf5"] = "0"
    ck.must_reject("OverwriteTrace", t, "an older result left behind")
    f = lambda e: e["op"] == "write" and e["policy"] == "keep" and e["after"]
    t = pick(f)
    e = first(t, f)
    e["after"].pop(next(iter(e["after"])))
    ck.must_reject("OverwriteTrace", t, "an existing result lost")
    ck.assumptions += ["the covered results are Fisher matrices, the tables and plot ranges derived from them and the final results; products of single jobs are computed anew in place",
                       "the computation of a matrix is replaced by a numbered one; commands and batch submissions run in the checking process"]
