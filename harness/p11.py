"""P11  data vectors, their written forms and their Fisher matrices  (DataVectors.tla)."""
import copy
import itertools
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import hdfstore
import repo
import vlib
from harness import p10
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_evaluator import FisherEvaluator
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import fisher_core, task_runners
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import shortcuts as sc

INV = ["FormsIdentify", "Own"]
P = (1, 2, 3, 4)
PAIRS = [(a, b) for a in P for b in P]


def pairs_of(entries):
    """[[a, b], ...] of the entries of a data vector, whatever their spelling"""
    return [list(p10.BACK.get(e.key if isinstance(e, sc.ClKey) else e, (0, 0))) for e in entries]


def spell(rng, v, kind=None):
    out = []
    for a, b in v:
        k = kind or rng.choice(["long", "short", "alias"])
        raw = p10.SP[k, a, b]
        out.append(sc.ClKey(raw) if rng.random() < .2 else raw)
    return out


def forms(dv):
    return {"name": dv.name, "brief": dv.toBriefString(), "string": dv.toString()}


READ = {"name": ClDataVector.fromName, "brief": ClDataVector.fromBriefString, "string": ClDataVector.fromString}


def observe(i, dv):
    st, r = vlib.call(lambda: {"v": pairs_of(dv.toRawTuples()), "n": len(dv), "name": dv.name, "brief": dv.toBriefString(),
                               "single": bool(dv.is_single_autocorrelation), "own": sorted(dv.involved_probes),
                               "short": pairs_of(dv.toShortKeysVector()), "tuple": pairs_of(dv.toTupleKeysVector())})
    return {"op": "obs", "id": i, "out": st, **(r if st == "ok" else {})}


def replay(ck, trans):
    """every data vector of the model, built under every spelling, in every written form"""
    for t in trans:
        v = [tuple(p) for p in t["v"]]
        built = [ClDataVector([p10.SP[k, a, b] for a, b in v]) for k in ("long", "short", "alias")]
        built += [ClDataVector.fromName(t["name"]), ClDataVector.fromBriefString(t["brief"]), ClDataVector.fromString(t["str"])]
        built.append(ClDataVector(built[0]))
        for how, dv in zip(("long", "short", "alias", "name", "brief", "string", "copy"), built):
            ck.s2i += 1
            got = {"v": pairs_of(dv), "name": dv.name, "brief": dv.toBriefString(), "single": bool(dv.is_single_autocorrelation),
                   "own": sorted(dv.involved_probes), "n": len(dv)}
            want = {"v": t["v"], "name": t["name"], "brief": t["brief"], "single": t["single"], "own": sorted(t["own"]), "n": len(v)}
            if got != want or not all(dv == o and o == dv for o in built):
                ck.violation(f"data vector {t['v']} made from {how}: {got}, specification {want}", {"v": t["v"], "how": how})
                return
            again = ClDataVector.fromString(dv.toString())
            if pairs_of(again) != t["v"]:
                ck.violation(f"data vector {t['v']}: {dv.toString()!r} read back as {pairs_of(again)}", {"v": t["v"]})
                return
    short = [t for t in trans if len(t["v"]) <= 2]
    dvs = [ClDataVector.fromBriefString(t["brief"]) for t in short]
    for (t, x), (u, y) in itertools.combinations(zip(short, dvs), 2):
        ck.s2i += 1
        if (x == y) or (y == x) or not (x != y):
            ck.violation(f"{t['name']} equals {u['name']}", {"x": t["v"], "y": u["v"]})
            return
    ck.sample({"replayed": [t["name"] for t in trans[:5]]})


# ------------------------------------------------------------------ recorded executions

def some(rng, k=None):
    return rng.sample(PAIRS, k or min(rng.choice([1, 1, 2, 3, 5, 9, 16]), 16))


def any_vector(rng):
    v = some(rng)
    if rng.random() < .15:
        v.insert(rng.randint(0, len(v)), rng.choice(v))
    return v


def record(rng):
    tr = [{"op": "setup"}]
    objs, vs = {}, {}

    def make(i, v, f):
        st, dv = vlib.call(f)
        tr.append({"op": "make", "id": i, "v": [list(p) for p in v], "out": st})
        if st == "ok":
            objs[i], vs[i] = dv, list(v)
            tr.append(observe(i, dv))
    for i in range(rng.randint(3, 7)):
        how = rng.choice(["new", "new", "copy", "prefix", "swap", "reverse"])
        if not objs or how == "new":
            v = any_vector(rng)
            make(str(i), v, lambda: ClDataVector(spell(rng, v)))
        else:
            j = rng.choice(list(objs))
            v = list(vs[j])
            if how == "copy":
                src = objs[j]
                make(str(i), v, lambda: ClDataVector(src))
            else:
                v = v[:rng.randint(1, len(v))] if how == "prefix" else v[::-1] if how == "reverse" else \
                    [tuple(x[::-1]) if rng.random() < .5 else x for x in v]
                make(str(i), v, lambda: ClDataVector(spell(rng, v)))
    ids = list(objs)
    for _ in range(rng.randint(4, 12)):
        i, j = rng.choice(ids), rng.choice(ids)
        op = rng.choice(["transform", "read", "read", "eq", "eq", "samename", "bad"])
        if op == "transform":
            objs[i].transformEntriesTo(rng.choice(["long", "short", "alias"]))
            for k in ids:
                tr.append(observe(k, objs[k]))
        elif op == "read":
            f = rng.choice(list(READ))
            st, w = vlib.call(lambda: forms(objs[i])[f])
            if st == "ok":
                st, dv = vlib.call(READ[f], w)
            tr.append({"op": "read", "id": i, "form": f, "text": w if st == "ok" else str(w), "out": st,
                       "v": pairs_of(dv) if st == "ok" else []})
            if st == "ok":
                objs[f"{i}{f}"], vs[f"{i}{f}"] = dv, vs[i]
                tr.append({"op": "make", "id": f"{i}{f}", "v": [list(p) for p in vs[i]], "out": "ok"})
                tr.append(observe(f"{i}{f}", dv))
                ids = list(objs)
        elif op == "eq":
            tr.append({"op": "eq", "x": i, "y": j, "r": bool(objs[i] == objs[j])})
        elif op == "samename":
            f = rng.choice(list(READ))
            tr.append({"op": "samename", "x": i, "y": j, "r": forms(objs[i])[f] == forms(objs[j])[f], "form": f})
        else:
            f = rng.choice(["name", "brief"])
            text = forms(objs[i])[f]
            bad = text.replace("]", "x]") if f == "name" else text + rng.choice(["x", "_", "_zz", "_wlx"])
            st, dv = vlib.call(READ[f], bad)
            tr.append({"op": "badread", "text": bad, "out": st})
    for i in ids:
        tr.append(observe(i, objs[i]))
    return tr


def record_selection(rng, tmp):
    """a file of selected data vectors, with comments and blank lines"""
    vs, text = [], []
    for _ in range(rng.randint(1, 8)):
        v = some(rng)
        vs.append([list(p) for p in v])
        if rng.random() < .3:
            text.append(rng.choice(["", "# [WL]: ['wlwl']", "   ", "  # a comment"]))
        dv = ClDataVector([p10.SP["short", a, b] for a, b in v])
        text.append(rng.choice(["", "  "]) + dv.toString() + rng.choice(["", " "]))
    d = Path(tempfile.mkdtemp(dir=tmp))
    (d / "selected_datavectors.txt").write_text("\n".join(text) + rng.choice(["", "\n"]))
    with repo.Patched((fsu, "fisher_aux_files_dir", lambda: d)):
        st, out = vlib.call(fu.load_selected_data_vectors)
    return [{"op": "setup"}, {"op": "select", "lines": vs, "out": [pairs_of(x) for x in out] if st == "ok" else [st]}]


def record_shipped():
    out = fu.load_selected_data_vectors()
    autos, crosses = task_runners.FisherTaskRunner.loadFisherDatavectorBriefStrings()
    f = fsu.fisher_aux_files_dir() / "selected_datavectors.txt"
    names = [ln.split(":")[0].strip() for ln in f.read_text().splitlines() if ln.strip() and not ln.strip().startswith("#")]
    return [{"op": "setup"}, {"op": "shipped", "out": [pairs_of(x) for x in out], "names": names,
                              "autos": list(autos), "crosses": list(crosses)}]


class Par:
    fiducial = 1.0
    is_free_parameter = True


def record_fishers(rng, tmp):
    """the Fisher stage itself, the elements of the matrices excepted"""
    d = Path(tempfile.mkdtemp(dir=tmp))
    used = []

    def fake(self, *a, return_f_ell=False, **k):
        used.append(pairs_of(self.data_vector))
        self.free_cosmological_parameters, self.free_nuisance_parameters = {"h": Par()}, {}
        df = pd.DataFrame([[float(len(used))]], index=["h"], columns=["h"])
        ell = pd.DataFrame([[1.]], index=[0], columns=["h"])
        return (df, ell) if return_f_ell else df

    class WS:
        auto_f_ells_file = d / "auto_f_ells.h5"
    own = rng.sample(P, rng.randint(2, len(P)))
    vs = [[(p, p)] for p in own]
    for _ in range(rng.randint(1, 25)):
        v = some(rng)
        if v not in vs and {p for pair in v for p in pair} <= set(own) and not (len(v) == 1 and v[0][0] == v[0][1]):
            vs.append(v)
    tr = [{"op": "setup"}]
    briefs = []
    for i, v in enumerate(vs):
        tr.append({"op": "make", "id": str(i), "v": [list(p) for p in v], "out": "ok"})
        briefs.append("_".join(p10.SP["short", a, b] for a, b in v))
    out = d / "out"
    out.mkdir()
    with repo.Patched((FisherEvaluator, "computeFisherMatrix", fake)):
        st, fs = vlib.call(lambda: fisher_core.compute_and_save_fishers(briefs, out, WS, None, None, None))
    names, of = [], []
    if st == "ok":
        for b, f in zip(briefs, fs):
            s, m = vlib.call(FisherMatrix.fromHDF5, out / f"fisher_{b}.hdf5")
            names.append(m.name if s == "ok" and f.name == m.name else [s, f.name])
            of.append(used[int(m.matrix.loc["h", "h"]) - 1] if s == "ok" else [])
    tr.append({"op": "fisher", "ids": [str(i) for i in range(len(vs))], "out": st, "names": names,
               "files": sorted(p.name for p in out.iterdir()), "used": of})
    return tr


def run(ck):
    hdfstore.install()
    cfg = vlib.cfg_text("Spec", {"PP": "{1, 2, 3}", "MaxLen": "2"}, INV, view="View", action_constraints=["Emit"])
    r = ck.model("DataVectorsMC", cfg, workers=1)
    p10.load_names(next(p for t, p in r.prints if t == "K"))
    trans = [p for t, p in r.prints if t == "T"]
    if ck.thorough:
        r = ck.model("DataVectorsMC", vlib.cfg_text("Spec", {"PP": "{1, 2, 3}", "MaxLen": "3"}, INV, view="View",
                                                    action_constraints=["Emit"]), workers=1)
        trans = [p for t, p in r.prints if t == "T"]
    if not trans:
        raise vlib.MachineryError("DataVectorsMC emitted nothing")
    replay(ck, trans)
    rng = ck.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp11_"))
    try:
        traces = [record_shipped()] + [record(rng) for _ in range(ck.budget(150, 1500))]
        traces += [record_selection(rng, tmp) for _ in range(ck.budget(25, 200))]
        traces += [record_fishers(rng, tmp) for _ in range(ck.budget(12, 80))]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ck.validate("DataVectorsTrace", traces, label="data vectors")
    t = copy.deepcopy(traces[1])
    next(e for e in t if e["op"] == "obs")["name"] += "x"
    ck.must_reject("DataVectorsTrace", t, "name of a data vector")
    t = copy.deepcopy(traces[0])
    t[1]["autos"], t[1]["crosses"] = t[1]["autos"] + t[1]["crosses"][:1], t[1]["crosses"][1:]
    ck.must_reject("DataVectorsTrace", t, "selection")
    ck.assumptions += ["the elements of the Fisher matrices are stubbed here (P13 and P14 are about them)",
                       "pandas' HDFStore is replaced by a stand-in (pytables is not installed)"]
