"""P03  order, completeness and failure behaviour of a forecast  (Pipeline.tla)."""
import copy
import itertools
import json
import shutil
import tempfile
from pathlib import Path

import fcast
import vlib
from fcast import STAGES, OPT, CFG, DATA

INV = ["StageOrder", "NothingAfterFailure", "NothingWhenDisabled", "EndedMeansComplete", "OnlySelected", "SubmitterProducts"]
# the model's parameters, by their real names
NAMES = {"h": "h", "w": "w0", "b": "aIA"}
MC_PARS = {"h": {"free": True, "cosmo": True, "stem": True}, "w0": {"free": False, "cosmo": True, "stem": True},
           "aIA": {"free": True, "cosmo": False, "stem": False}}
PROG = {"PowerSpectrum": "compute_pmm", "Angular": "compute_cls", "Derivative": "compute_derivatives",
        "Fisher": "compute_fisher_matrix"}


def dirname(st, p, k):
    if st == "Derivative":
        return p
    return f"dvar_{p}_step_{'0' if k == 0 else ('m_%d' % -k if k < 0 else 'p_%d' % k)}"


class World:
    def __init__(self, fc, pars, n):
        self.fc = fc
        self.pars, self.n = pars, n
        self.table = fcast.dir_table(pars, n)
        self.autos, self.crosses = fcast.crosses_and_autos()
        self.cfgs = {st: {**json.loads((DATA / "config_files" / CFG[st]).read_text()), "marker": f"{st}-{fc.n}"} for st in STAGES}

    def forecast(self, sel, mode, plan=(), delays=(), over=False, via_main=False, ext=None):
        work = self.fc.scratch()
        cfg = work / "forecast.json"
        cfg.write_text(json.dumps(fcast.forecast_config(self.pars, self.n)))
        opts = ["-fcfg", cfg, "-ex", mode, "-id", "run", "-t"]
        for s in sel:
            opts.append("--" + OPT[s])
        for s in STAGES:
            (work / CFG[s]).write_text(json.dumps(self.cfgs[s]))
            opts += [f"--{OPT[s]}_config", work / CFG[s]]
        if over:
            opts.append("-ow")
        if via_main:
            opts.append("--keep_cl_variations")
        ext_dirs = {}
        for s in STAGES:
            if s not in sel and s != "Fisher" and sel:
                e = work / "other_run" / s
                e.mkdir(parents=True)
                if s == "Angular":
                    (work / "other_run" / "delta_cls.h5").write_text("delta")
                opts += [f"--{OPT[s]}_dir", e]
        st, exc, runner, events = self.fc.run(work, opts, plan, delays, via_main=via_main, patches=fake_cosmology())
        rundir = runner.rundir if runner else None
        tr = [{"op": "setup", "sel": list(sel), "mode": mode, "pars": self.pars, "n": self.n, "crosses": self.crosses, "over": over}]
        tr += fcast.trace_events(events, rundir, self.table, plan, self.autos, self.crosses, CFG, mode)
        tr.append({"op": "end", "out": st})
        tr.append(fcast.tree_event(rundir, self.table, self.cfgs))
        shutil.rmtree(work)
        return tr, st, exc, events


def fake_cosmology():
    from seyfert.cosmology.cosmology import Cosmology

    class C:
        z_grid = [0., 1.]
    return [(Cosmology, "fromHDF5", staticmethod(lambda *a, **k: C()))]


def summary(tr, world):
    """stage-level summary of a recorded forecast, in the model's vocabulary"""
    ev = tr[1:]
    sel, mode = tr[0]["sel"], tr[0]["mode"]
    done = {s: {(e["p"], e["k"]) for e in ev if e["op"] == "job" and e["s"] == s and e["good"]} for s in STAGES}
    tried = {s: [e for e in ev if e["op"] == "job" and e["s"] == s] for s in STAGES}
    v = [p for p, q in world.pars.items() if q["free"] and q["stem"]]
    steps = [k for k in range(-world.n, world.n + 1) if k]
    need = {"PowerSpectrum": {("central", 0)} | {(p, k) for p in v if world.pars[p]["cosmo"] for k in steps},
            "Angular": {("central", 0)} | {(p, k) for p in v for k in steps},
            "Derivative": {(p, 0) for p, q in world.pars.items() if q["free"]},
            "Fisher": {("autos", 0)} | ({(c, 0) for c in world.crosses} if mode == "batch" else {("crosses", 0)})}
    return {"sum": {s: "none" if not tried[s] else "all" if need[s] <= done[s] else "part" for s in STAGES},
            "delta": any(e["op"] == "delta" for e in ev), "res": any(e["op"] == "res" for e in ev),
            "end": "ended" if next(e for e in ev if e["op"] == "end")["out"] == "ok" else "aborted"}


def plan_for(bad, mode, world, kind):
    st, (p, k) = bad
    if st == "none":
        return []
    p = NAMES.get(p, p)
    if st == "Fisher":
        key = {"autos": " ".join(world.autos), "crosses": " ".join(world.crosses), "X1": world.crosses[0],
               "X2": world.crosses[-1]}[p]
    else:
        key = dirname(st, p, k)
    return [(PROG[st], key, kind)]


def replay(ck, world, finals):
    """Run every scenario of the model for real; the observed end has to be one the model reaches."""
    by = {}
    for t in finals:
        by.setdefault(json.dumps([t["sel"], t["mode"], t["bad"]]), []).append(
            {k: t[k] for k in ("sum", "delta", "res", "end")})
    traces = []
    rng = ck.rng
    for i, (key, ends) in enumerate(by.items()):
        sel, mode, bad = json.loads(key)
        sel = [s for s in STAGES if s in sel]
        plan = plan_for(bad, mode, world, rng.choice(["err", "silent"]))
        tr, st, exc, events = world.forecast(sel, mode, plan, delays=[rng.choice([0, 0, 1, 2]) for _ in range(7)],
                                             via_main=i % 5 == 0 and bool(sel))
        got = summary(tr, world)
        ck.s2i += 1
        # the submitter creates nothing to do for an empty selection: the specification's end is the same
        if got not in ends:
            ck.violation(f"forecast over {sel}, mode {mode}, failing job {bad}: observed end {got} ({st}: {exc}), specification {ends}",
                         {"plan": plan, "events": events[:40]})
            if len(ck.viol) > 3:
                return traces
        traces.append(tr)
    ck.sample({"scenario": key, "end": got})
    return traces


def random_world(ck, fc, rng):
    cosmo = ["h", "w0", "wa", "Omm", "OmDE", "Omb", "ns", "sigma8", "mnu", "gamma"]
    pars = {}
    for p in rng.sample(cosmo, rng.randint(1, 3)):
        pars[p] = {"free": rng.random() < .8, "cosmo": True, "stem": rng.random() < .85}
    for p in rng.sample(["aIA", "cIA", "etaIA"], rng.randint(0, 2)):
        pars[p] = {"free": rng.random() < .8, "cosmo": False, "stem": rng.random() < .7}
    return World(fc, pars, rng.choice([1, 1, 2, 3]))


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp03_"))
    try:
        fc = fcast.Forecast(tmp)
        cons = {"Modes": '{"no", "interactive", "batch"}', "N": "1"}
        finals = ck.graph("PipelineMC", vlib.cfg_text("Spec", cons, INV, ["Terminates"], action_constraints=["Emit"]))
        if {t["end"] for t in finals} != {"ended", "aborted"}:
            raise vlib.MachineryError("vacuous pipeline model")
        world = World(fc, MC_PARS, 1)
        traces = replay(ck, world, finals)
        if ck.thorough:
            ck.model("PipelineMC", vlib.cfg_text("Spec", {**cons, "N": "2"}, INV), workers=8, timeout=1500, heap="8g")
        rng = ck.rng
        for i in range(ck.budget(25, 250)):
            w = random_world(ck, fc, rng)
            sel = [s for s in STAGES if rng.random() < .75]
            mode = rng.choice(["interactive", "interactive", "batch", "no"])
            kind = rng.choice(["err", "silent"])
            plan = []
            if rng.random() < .6 and mode != "no":
                for _ in range(rng.choice([1, 1, 2])):
                    st = rng.choice(STAGES)
                    if st == "Fisher":
                        key = rng.choice([" ".join(w.autos), " ".join(w.crosses)] + w.crosses)
                    else:
                        key = rng.choice([n for (s, n) in w.table if s == st])
                    plan.append((PROG[st], key, kind))
            tr, st, exc, _ = w.forecast(sel, mode, plan, delays=[rng.choice([0, 1, 3]) for _ in range(9)],
                                        over=rng.random() < .3, via_main=rng.random() < .3 and bool(sel))
            traces.append(tr)
        ck.validate("PipelineTrace", traces, label="forecast")
        if not ck.viol:
            t = copy.deepcopy(next(t for t in traces if t[0]["mode"] == "interactive" and t[0]["sel"] == STAGES
                                   and t[-2]["out"] == "ok"))
            i = next(i for i, e in enumerate(t) if e["op"] == "job" and e["s"] == "Derivative")
            t.insert(i - 3, t.pop(i))
            ck.must_reject("PipelineTrace", t, "derivative before the angular stage ended")
            t = copy.deepcopy(t)
            ck.must_reject("PipelineTrace", [e for e in t if not (e["op"] == "job" and e.get("p") == "aIA")], "missing job")
        ck.assumptions += ["job programs, the batch system and the clock are stand-ins; the submitter is real",
                           "densities and covariance inputs are stubbed at cl_core"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
