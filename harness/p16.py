"""P16  final results and a-posteriori combinations  (FinalResults.tla over FisherAlgebra.tla)."""
import copy
import hashlib
import json
import re
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd

import ratsim
import repo
import vlib
from harness import p15
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.fisher import final_results_core as frc
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace

INV = ["ExactlyThese", "OnlyAllowed", "Closed", "AnyOrder", "SumsCommute", "BeforeIsAfter"]
FLAGS = {"marg_before": dict(marg_nuis_before=True), "marg_after": dict(marg_nuis_before=False), "nuis_fixed": dict(fix_nuisance=True)}
COSMO = ["h", "Omm", "w0", "wa"]
OF = {"LCDM": {"Omm", "Omb", "h", "ns", "sigma8"}, "w0_wa_CDM": {"Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"}}
NAMES = ["[WL]", "[GCph]", "[GCsp]", "[XC(WL,GCph)]", "[WL+GCph+XC(WL,GCph)]", "[GCph+GCsp]", "[GCsp(Pk)]", "[WL+XC(WL,GCsp)]"]


def params(free, fid):
    d = {n: PhysicalParameter(name=n, kind=PhysicalParameter.COSMO_PAR_STRING, fiducial=float(Fraction(*fid.get(n, [1, 1]))),
                              current_value=1.0, is_free_parameter=n in free, units="None", stem_factor=1.0)
         for n in sorted(set(free) | {"w0", "wa", "h", "Omm", "gamma"})}
    return PhysicalParametersCollection(data_dict=d, base_stem_disps=np.array([.25]), is_universe_flat=False)


def tree(d):
    return {str(p.relative_to(d)): hashlib.sha1(p.read_bytes()).hexdigest() for p in sorted(d.rglob("*")) if p.is_file()}


def shown(Fs):
    return {k: p15.show(F) for k, F in Fs.items()}


def load(d):
    out = {}
    for f in d.glob("*.hdf5"):
        F = FisherMatrix.fromHDF5(f)
        out[F.name] = F
    return out


def table(f, square=True):
    df = pd.read_csv(f, index_col=0)
    out = []
    for r in df.index:
        for c in df.columns:
            v = df.loc[r, c]
            if np.ndim(v) or not pd.isna(v):
                out.append([r, c, *(p15.sq(v) if np.ndim(v) == 0 else [0, 0])])
    return out


def replay(ck, trans, tmp):
    rng = ck.rng
    trans = sorted(trans, key=lambda t: json.dumps(t, sort_keys=True))
    for n, t in enumerate(rng.sample(trans, min(len(trans), ck.budget(150, 1200)))):
        cosmology, treat = t["setting"]
        names = list(t["inputs"])
        rng.shuffle(names)
        Fs = {x: p15.build(rng, t["inputs"][x]) for x in names}
        before = shown(Fs)
        out = tmp / f"r{n}"
        st, an = vlib.call(frc.create_results_for_cosmology, Fs, cosmology, params(["h", "w0", "gamma"], {}), t["asked"], out,
                           overwrite=rng.random() < .5, metadata={}, **{"marg_nuis_before": True, **FLAGS[treat]})
        ck.s2i += 1
        want = {x: p15.canon(o) for x, o in t["res"].items()}
        got = None
        if st == "ok":
            got = {x: p15.canon(o) for x, o in shown(an.fisher_matrices).items()}
            disk = {x: p15.canon(o) for x, o in shown(load(out / cosmology / treat)).items()}
        if st != "ok" or got != want or disk != want:
            ck.violation(f"{cosmology}/{treat}, inputs {names}, combinations {t['asked']}: {st}; observed {got}, specified {want}", t)
            return
        if shown(Fs) != before:
            ck.violation(f"{cosmology}/{treat}: the input matrices were altered by the combinations {t['asked']}", t)
            return
        shutil.rmtree(out)
    ck.sample({"replayed": [[t["setting"], t["asked"]] for t in trans[:5]]})


# ------------------------------------------------------------------ recorded executions

def sim(o):
    return ratsim.F(o["cosmo"], o["nuis"], {(p, q): (n, d) for p, q, n, d in o["m"]})


def feasible(inputs, combos, free):
    """is everything the specification computes definite and representable?"""
    try:
        for cosmology in OF:
            for treat in FLAGS:
                mats = {}
                for x, o in inputs.items():
                    f = sim(o)
                    f = f.keep((f.cosmo & OF[cosmology]) | f.nuis)
                    mats[x] = f.marg(f.nuis) if treat == "marg_before" else f.keep(f.cosmo) if treat == "nuis_fixed" else f
                for c in combos:
                    if all(x in mats for x in c[::2]):
                        r = mats[c[0]]
                        for s, x in zip(c[1::2], c[2::2]):
                            r = r.comb(mats[x], ratsim.radd if s == "+" else ratsim.rsub)
                        mats[" ".join(c)] = r
                for f in mats.values():
                    for _, e in f.errors():
                        if max(e) > 40000:
                            return False
                    if any(d > 40000 or abs(n) > 10 ** 6 for n, d in f.m.values()):
                        return False
    except ratsim.TooLarge:
        return False
    return True


def scenario(rng):
    while True:
        free = rng.choice([["h", "w0", "wa"], ["h", "Omm", "w0"], ["h", "w0", "wa", "gamma"], ["Omm", "w0", "wa"],
                           ["h", "Omm"], ["h", "w0", "mnu"]])
        names = rng.sample(NAMES, rng.randint(1, 4))
        inputs = {}
        for x in names:
            cosmo = [p for p in free if p not in ("gamma", "mnu")] if x == "[GCsp(Pk)]" else list(free)
            if x == "[GCsp(Pk)]" and rng.random() < .3 and "w0" not in cosmo:
                cosmo = cosmo + ["w0"]
            nuis = [] if x == "[GCsp(Pk)]" else rng.sample(["b1", "b2", "aIA"], rng.choice([0, 1, 1, 2]))
            ps = cosmo + nuis
            scale = rng.choice([1, 1, 6]) if "+" in x else 1
            while True:
                e = {}
                for i, p in enumerate(ps):
                    for q in ps[i:]:
                        e[p, q] = e[q, p] = scale * rng.randint(2, 5) if p == q else rng.choice([0, 0, 0, 1, -1])
                a = np.array([[e[p, q] for q in ps] for p in ps], float)
                if np.linalg.eigvalsh(a)[0] > .3:
                    break
            inputs[x] = {"name": x, "cosmo": cosmo, "nuis": nuis, "m": [[p, q, n, 1] for (p, q), n in e.items()]}
        combos = []
        big = [x for x in names if "+" in x]
        for _ in range(rng.randint(0, 4)):
            c = [rng.choice(names)]
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                c += [rng.choice("++-"), rng.choice(names if rng.random() < .85 else NAMES)]
            if c not in combos:
                combos.append(c)
        if feasible(inputs, combos, free):
            return free, inputs, combos


def record(rng, tmp):
    free, inputs, combos = scenario(rng)
    fid = {p: rng.choice([[1, 2], [0, 1], [-1, 1], [2, 1], [-1, 2], [3, 1]]) for p in free}
    tr = [{"op": "setup", "free": free, "fid": fid, "inputs": inputs, "combos": combos}]
    rd = Path(tempfile.mkdtemp(dir=tmp))
    base = rd / "base_fishers"
    base.mkdir()
    names = list(inputs)
    rng.shuffle(names)
    for x in names:
        p15.build(rng, inputs[x]).writeToFile(outdir=base)
    ws = WorkSpace(rd)
    (rd / "params.json").touch()
    params(free, fid).writeJSON(rd / "params.json")
    aux = rd / "aux"
    aux.mkdir()
    lines = []
    for c in combos:
        lines += rng.choice([[], ["# a comment"], [""], ["#### sums ####", ""]])
        lines.append(rng.choice(["", " "]) + " ".join(c) + rng.choice(["", "  "]))
    (aux / "a_posteriori_fisher_combs.txt").write_text("\n".join(lines) + rng.choice(["", "\n"]))
    before = tree(base)

    class Cfg:
        synthetic_opts = {"scenario": "optm"}

        def getConfigID(self):
            return "cfg"
    with repo.Patched((fsu, "fisher_aux_files_dir", lambda: aux), (fsu, "get_params_file_from_rundir", lambda r: Path(r) / "params.json"),
                      (WorkSpace, "getForecastConfiguration", lambda self: Cfg())):
        st, r = vlib.call(frc.create_final_results, rundir=rd, outdir_name="final_results", overwrite=rng.random() < .3)
        if st != "ok":
            tr.append({"op": "results", "cosmology": "LCDM", "treatment": "marg_before", "files": -1, "mats": {}, "err": [], "rel": [], "why": repr(r)})
            return tr
        fr = rd / "final_results"
        tr.append({"op": "dirs", "dirs": [[d.parent.name, d.name] for d in fr.glob("*/*")]})
        for cosmology in OF:
            for treat in FLAGS:
                d = fr / cosmology / treat
                err, rel = sorted(d.glob("marginalized_errors*.csv")), sorted(d.glob("relative*.csv"))
                tr.append({"op": "results", "cosmology": cosmology, "treatment": treat, "files": len(list(d.glob("*.hdf5"))),
                           "mats": shown(load(d)), "err": table(err[0]) if err else [], "rel": table(rel[0]) if rel else []})
                cosmo_of = lambda o: set(o["cosmo"]) & OF[cosmology]
                need = set(free) & OF[cosmology]
                if all(need <= set(o["cosmo"]) for o in inputs.values()):
                    st, an = vlib.call(FisherAnalysis.fromRundir, rd, cosmology=cosmology, res_subdir_name=treat)
                    tr.append({"op": "readback", "cosmology": cosmology, "treatment": treat, "out": st,
                               "mats": shown(an.fisher_matrices) if st == "ok" else {}})
        tr.append({"op": "inputs", "same": tree(base) == before})
        fids = {p: float(Fraction(*fid[p])) for p in free}
        if all(set(o["cosmo"]) == set(free) for o in inputs.values()):
            an = FisherAnalysis(cosmo_pars_fiducial=fids)
            an.loadBaseFishersFromDir(base)
            lists = []
            for _ in range(rng.randint(1, 3)):
                l = [rng.choice(names) for _ in range(rng.randint(1, 3))]
                if rng.random() < .15:
                    l[rng.randrange(len(l))] = "[unknown]"
                if l not in lists:
                    lists.append(l)
            st, _ = vlib.call(an.evaluateFishersFromAddendsList, lists)
            # sums are named "A + B" as matrices and "A+B" as results
            kept = {x: p15.canon(o) for x, o in shown(an.base_fishers).items()} == {x: p15.canon(o) for x, o in inputs.items()}
            mats = {}
            if st == "ok":
                mats = shown(an.fisher_matrices)
            tr.append({"op": "addends", "lists": lists, "out": st, "kept": kept, "mats": mats})
        st, an = vlib.call(FisherAnalysis, cosmo_pars_fiducial=fids, fisher_matrices=[p15.build(rng, inputs[x]) for x in names])
        tr.append({"op": "list", "out": st, "mats": shown(an.fisher_matrices) if st == "ok" else {}})
        if st == "ok":
            an.base_fishers = dict(an.fisher_matrices)
            some = rng.sample(names, rng.randint(1, len(names)))
            st, sub = vlib.call(an.getSubsetAnalysis, some, recompute_errs=True)
            tr.append({"op": "subset", "names": some, "out": st, "mats": shown(sub.fisher_matrices) if st == "ok" else {}})
    shutil.rmtree(rd)
    return tr


def run(ck):
    k = str(ck.budget(2, 2))
    trans = ck.graph("FinalResultsMC", vlib.cfg_text("Spec", {"MaxCombos": k}, INV[:2],
                                                     action_constraints=["Emit"]))
    if {tuple(t["setting"]) for t in trans} != {(c, t) for c in OF for t in FLAGS} or not any(len(t["res"]) > len(t["inputs"]) for t in trans):
        raise vlib.MachineryError("scenarios missing")
    ck.model("FinalResultsMC", vlib.cfg_text("Spec", {"MaxCombos": k}, INV, properties=["InputsKept", "Terminates"]), workers=8, timeout=3000)
    tmp = Path(tempfile.mkdtemp(prefix="p16_"))
    try:
        replay(ck, trans, tmp)
        traces = [record(ck.rng, tmp) for _ in range(ck.budget(60, 700))]
    finally:
        shutil.rmtree(tmp)
    ck.validate("FinalResultsTrace", traces, label="final results")
    pick = lambda f: copy.deepcopy(next(t for t in traces if len(t) > 3 and f(t)))
    t = pick(lambda t: True)
    e = next(e for e in t if e["op"] == "results")
    next(iter(e["mats"].values()))["m"][0][2] += 1
    ck.must_reject("FinalResultsTrace", t, "entry of a saved result")
    t = pick(lambda t: True)
    next(e for e in t if e["op"] == "results" and e["rel"])["rel"][0][2] += 1
    ck.must_reject("FinalResultsTrace", t, "relative error")
    t = pick(lambda t: True)
    e = next(e for e in t if e["op"] == "readback" or e["op"] == "list")
    e["mats"].pop(next(iter(e["mats"])))
    ck.must_reject("FinalResultsTrace", t, "matrix missing after reading back")
    ck.assumptions += ["matrices and combinations are positive definite, with small rational entries",
                       "sums of matrices differ in name from results only by the spaces around the sign"]
