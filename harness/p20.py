"""P20  collection of the results of finished forecasts  (Collection.tla)."""
import contextlib
import copy
import io
import itertools
import json
import math
import os
import shutil
import tempfile
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd

import fcast
import vlib
from harness import p16
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.results_collector import ResultsCollector
from seyfert.notebook_helpers import table_helpers as th
from seyfert.utils.dir_explorer import DirectoryExplorer

INV = ["OwnExceptHybrids", "TablesFollow", "FourBinsKept", "NothingLost", "Idempotent", "Commutes", "TableAgrees"]
FID = {"h": .5, "Omm": .25, "w0": -1., "wa": 0.}
UNIT = {"h": .001, "Omm": .002, "w0": .003, "wa": .005}
PARS = {"LCDM": ["h", "Omm"], "w0_wa_CDM": ["h", "Omm", "w0", "wa"]}
TREAT = ["marg_before", "marg_after", "nuis_fixed"]
FISHERS = ["[WL]", "[GCph]", "[GCsp(Pk)]", "[WL] + [GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]", "[GCsp(Pk)] + [Void]", "[GCsp]", "[WL+GCsp+XC(WL,GCsp)]"]
OPTS = ["scenario", "n_sp_bins", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range"]


# --------------------------------------------------------------- matrices stand for identifiers

def matrix(name, i, pars, rng):
    ps = list(pars)
    rng.shuffle(ps)
    m = pd.DataFrame(np.diag([(i * UNIT[p]) ** -2. for p in ps]), index=ps, columns=ps)
    return FisherMatrix(matrix_df=m, name=name, cosmological_parameters=ps, nuisance_parameters=[])


def errors(i, pars, rel=False):
    e = {p: i * UNIT[p] / (abs(FID[p]) or 1 if rel else 1) for p in pars}
    if {"w0", "wa"} <= set(pars):
        e["FoM"] = 1 / (i * i * UNIT["w0"] * UNIT["wa"])
    return e


def ident(row, rel=False):
    """the identifier all the errors of a row agree on"""
    row = {k: v for k, v in row.items() if k in UNIT or k == "FoM"}
    if not row or any(not np.isscalar(v) or pd.isna(v) for v in row.values()):
        return "no identifier"
    ids = set()
    for p, v in row.items():
        x = math.sqrt(1 / (v * UNIT["w0"] * UNIT["wa"])) if p == "FoM" else v * (abs(FID[p]) or 1 if rel else 1) / UNIT[p]
        ids.add(int(round(x)) if abs(x - round(x)) < 1e-4 else f"{p}:{x}")
    return ids.pop() if len(ids) == 1 else f"mixed {sorted(map(str, ids))}"


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


def frame(df):
    """rows of a table of analyses"""
    out = []
    for _, r in df.iterrows():
        an = r["analysis"]
        if an.marginalized_errors is None:
            an.evaluateMarginalizedErrors()
        mats = {}
        for x, F in an.fisher_matrices.items():
            d = F.matrix
            mats[x] = ident({p: d.loc[p, p] ** -.5 for p in d.index}) if F.name == x else f"named {F.name}"
        out.append({"opts": {k: plain(r[k]) for k in df.columns if k in OPTS},
                    "mats": mats, "err": {x: ident(e) for x, e in an.marginalized_errors.iterrows()},
                    "rel": {x: ident(e, True) for x, e in an.relative_marginalized_errors.iterrows()}})
    return out


def lines(df, rel=False):
    return [{"opts": {k: plain(r[k]) for k in df.columns if k in OPTS}, "fisher": r["fisher"], "id": ident(r, rel)} for _, r in df.iterrows()]


def analysis(mats, pars, rng):
    Fs = [matrix(x, i, pars, rng) for x, i in mats.items()]
    rng.shuffle(Fs)
    an = FisherAnalysis(fisher_matrices=Fs, cosmo_pars_fiducial={p: FID[p] for p in pars})
    an.base_fishers = dict(an.fisher_matrices)
    an.evaluateMarginalizedErrors()
    return an


# ----------------------------------------------------------------------- transitions of the model

def real(v):
    return {"True": True, "False": False}.get(v, int(v) if v.isdigit() else v)


def texts(tr):
    """values of options and identifiers as text"""
    if isinstance(tr, list):
        return [texts(x) for x in tr]
    if not isinstance(tr, dict):
        return tr
    return {k: {x: str(y) for x, y in v.items()} if k in ("opts", "q", "err", "rel") and isinstance(v, dict) else
            {x: {a: str(b) for a, b in y.items()} if isinstance(y, dict) else str(y) for x, y in v.items()} if k == "mats" else
            str(v) if k == "id" else texts(v) for k, v in tr.items()}


def canon(rows):
    return sorted(json.dumps(r, sort_keys=True) for r in rows)


def fixed(o):
    return {**{k: real(v) for k, v in o.items()}, "shot_noise_sp_reduced": False, "gcph_only_bins_in_spectro_range": False}


def spread(rows):
    return [{**r, "opts": fixed(r["opts"])} for r in rows]


def replay(ck, trans):
    rng = ck.rng
    trans = sorted(trans, key=lambda t: json.dumps(t, sort_keys=True))
    pick = []
    for op in ("replace", "query"):
        ts = [t for t in trans if t["act"]["op"] == op]
        pick += rng.sample(ts, min(len(ts), ck.budget(60, 600)))
    for t in pick:
        a = t["act"]
        rc = ResultsCollector()
        pars = PARS[rng.choice(list(PARS))]
        cols = list(OPTS)
        rng.shuffle(cols)
        rc.analyses_df = pd.DataFrame([{**{k: fixed(r["opts"])[k] for k in cols}, "analysis": analysis(r["mats"], pars, rng)} for r in t["pre"]])
        ck.s2i += 1
        if a["op"] == "replace":
            st, e = vlib.call(rc.replaceHybridFishersWith4BinsEquivalents)
            bad = st != "ok" if a["ok"] and a["may"] else st == "ok" if not a["ok"] else False
            if not bad and st == "ok":
                bad = canon(frame(rc.analyses_df)) != canon(spread(t["post"]))
            if not bad:         # the same on the table of the errors
                b = a["tab"]
                ls = [{"opts": fixed(l["opts"]), "fisher": l["fisher"], "id": l["id"]} for l in b["before"]]
                rng.shuffle(ls)
                df = pd.DataFrame([{**l["opts"], "fisher": l["fisher"], **errors(l["id"], pars)} for l in ls])
                st, e = vlib.call(th.replace_hybrid_fishers_with_4_bins_equivalents, df)
                st = "table: " + st
                bad = (e is None) != b["ok"]
                if not bad and b["ok"]:
                    bad = canon(lines(df)) != canon(spread(b["after"]))
        else:
            q = {k: real(v) for k, v in a["q"].items()}
            st, e = vlib.call(rc.getFisherAnalysesSubDf, q, list(a["names"]) or None)
            bad = (st == "ok") != a["ok"]
            if not bad and a["ok"]:
                bad = canon(frame(e)) != canon(spread(a["got"])) or canon(frame(rc.analyses_df)) != canon(spread(t["post"]))
        if bad:
            ck.violation(f"{a['op']}: {st}; observed {frame(rc.analyses_df) if 'scenario' in rc.analyses_df else '-'}", t)
            return
    ck.sample({"replayed": [t["act"] for t in pick[:3]]})


def names(ck, rec, tmp):
    d = tmp / "names"
    d.mkdir()
    for n in rec:
        if n:
            (d / n).mkdir()
    for recursive in (False, True):
        ck.s2i += len(rec)
        st, got = vlib.call(DirectoryExplorer(d).selectDirectories, recursive=recursive)
        want = {n: told for n, told in rec.items() if told}
        if st != "ok" or {Path(k).name: v for k, v in got.items()} != want:
            ck.violation(f"directories found (recursive: {recursive}): {st} {got}, specified {want}", rec)
            return


# ------------------------------------------------------------------------- recorded executions

def run_name(rng, o, k):
    s, n = o["scenario"], o["n_sp_bins"]
    flags = "".join(f"__{x}" for x in OPTS[2:] if o[x])
    return rng.choice([f"run_{s}_{n}{flags}_{k}", f"{s}_{n}_sp_bins{flags}_{k}" if flags else f"{s}_{n}_sp_bins_{k}",
                       f"scenario_{s}__n_sp_bins_{n}{flags}__{k}"])


NOISE = ["Angular", "run_opt", "optimistic_4_sp_bins", "my_run_optimistic", "old", "scenario_optimistic_n_sp_bins_4", "results", "run-optimistic"]


def write_run(d, o, mats, rng):
    d.mkdir(parents=True)
    fc = fcast.forecast_config({}, 1, probes=())
    keys = list(OPTS)
    if rng.random() < .5:
        rng.shuffle(keys)
    fc["synthetic_opts"] = {k: o[k] for k in keys}
    inp = d / "input_files_dir"
    inp.mkdir()
    (inp / "forecast.json").write_text(json.dumps(fc))
    (inp / "p.json").touch()
    p16.params(list(FID), {p: [Fraction(v).numerator, Fraction(v).denominator] for p, v in FID.items()}).writeJSON(inp / "p.json")
    (d / "input_files_dict.json").write_text(json.dumps(
        {"forecast": "input_files_dir/forecast.json", "params": "input_files_dir/p.json", "input_data_dir": str(d)}))
    if rng.random() < .7:
        (d / "run_metadata.json").write_text(json.dumps({"run_id": d.name}))
    for key, ids in mats.items():
        c, t = key.split("/")
        out = d / "final_results" / c / t
        out.mkdir(parents=True)
        xs = list(ids)
        rng.shuffle(xs)
        for x in xs:
            matrix(x, ids[x], PARS[c], rng).writeToFile(outdir=out)
        rng.shuffle(xs)
        for rel in (False, True):
            df = pd.DataFrame({x: errors(ids[x], PARS[c], rel) for x in xs}).T
            df.index.name = "fisher"
            df.to_csv(out / f"{'relative_' if rel else ''}marginalized_errors_{d.name[:6]}.csv")


def scenario(rng, root):
    n = rng.randint(1, 4)
    every = [dict(zip(OPTS, v)) for v in itertools.product(["optimistic", "pessimistic"], [4, 12, 24, 2], [False, True], [False, True], [False])]
    every += [dict(zip(OPTS, v)) for v in itertools.product(["optimistic", "pessimistic"], [4, 12], [False, True], [False], [True])]
    first = rng.choice(every)
    opts = [first]
    while len(opts) < n:
        o = dict(rng.choice(opts))
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["n_sp_bins", "n_sp_bins", "scenario", *OPTS[2:]])
            o[k] = rng.choice([x[k] for x in every])
        if o not in opts:
            opts.append(o)
    if rng.random() < .6:           # equivalents with 4 bins for all
        for o in list(opts):
            four = {**o, "n_sp_bins": 4}
            if four not in opts:
                opts.append(four)
    keys = [f"{c}/{t}" for c in PARS for t in TREAT]
    keys = rng.sample(keys, rng.randint(1, 2))
    base = rng.sample(FISHERS, rng.randint(2, 4))
    runs, i = {}, 0
    rng.shuffle(opts)
    for k, o in enumerate(opts):
        at = rng.choice(["", "", "", "old", "more/nested"])
        path = (at + "/" if at else "") + run_name(rng, o, k)
        fs = base if rng.random() < .85 else rng.sample(FISHERS, rng.randint(1, 4))
        mats = {}
        for key in keys:
            mats[key] = {}
            for x in fs:
                i += 1
                mats[key][x] = i
        runs[path] = {"opts": o, "mats": mats}
        write_run(root / path, o, mats, rng)
    for x in rng.sample(NOISE, 3):
        (root / x).mkdir(exist_ok=True)
    (root / "run_optimistic.log").write_text("")
    dirs = [{"at": str(Path(p).relative_to(root)).replace(".", "", 1) if Path(p) == root else str(Path(p).relative_to(root)), "name": x}
            for p, ds, _ in os.walk(root) for x in ds]
    return runs, keys, dirs


def some_sel(rng):
    return {"recursive": rng.random() < .6,
            "containing": rng.choice([[], [], ["optim"], ["sp_bins"], ["4"]]),
            "without": rng.choice([[], [], ["reduced"], ["pess", "12"]]),
            "ending": rng.choice([[], [], [], ["_1"]]),
            "patterns": rng.choice([[], [], [["4", "12"]], [["minus", "reduced"], ["tic"]]])}


def kw(sel, rng):
    k = {"recursive": sel["recursive"]}
    if sel["containing"] or rng.random() < .3:
        k["containing"] = sel["containing"]
    if sel["without"] or rng.random() < .3:
        k["not_containing"] = sel["without"]
    if sel["ending"]:
        k["add_filters"] = [lambda s, x=x: s.endswith(x) for x in sel["ending"]]
    if sel["patterns"]:
        k["add_patterns"] = ["|".join(p) for p in sel["patterns"]]
    return k


ALL = {"recursive": True, "containing": [], "without": [], "ending": [], "patterns": []}


def record(rng, tmp):
    # the collected directory may itself be named as a run is
    root = Path(tempfile.mkdtemp(dir=tmp, prefix=rng.choice(["run_optimistic_", "optimistic_4_sp_bins_", "all_", "x"]))).resolve()
    runs, keys, dirs = scenario(rng, root)
    tr = [{"op": "setup", "runs": runs, "dirs": dirs}]
    rel_path = lambda p: str(Path(p).relative_to(root))
    rc = ResultsCollector()
    for _ in range(rng.randint(0, 2)):
        sel = some_sel(rng)
        st, got = vlib.call(DirectoryExplorer(root).selectDirectories, **kw(sel, rng))
        tr.append({"op": "find", "sel": sel, "out": st, "got": [{"path": rel_path(p), "told": t} for p, t in got.items()] if st == "ok" else []})
    sel = ALL if rng.random() < .7 else some_sel(rng)
    st, _ = vlib.call(rc.loadWorkSpaces, rng.choice([root, str(root)]), **kw(sel, rng))
    tr.append({"op": "load", "sel": sel, "out": st, "got": [rel_path(w.run_dir) for w in rc.ws_list] if st == "ok" else []})
    if st != "ok" or not rc.ws_list:
        shutil.rmtree(root)
        return tr
    tab = None
    for _ in range(rng.randint(4, 9)):
        c, t = rng.choice(keys).split("/")
        w = dict(cosmology=c, res_subdir_name=t)
        e = {"cosmology": c, "treatment": t}
        k = rng.choice(["table", "table", "analyses", "dump", "replace", "replace", "query", "query", "query", "errors", "errors", "tabreplace",
                        "tabselect", "tabselect", "tabfishers", "fom", "excel"])
        if k == "table":
            rel = rng.random() < .5
            st, df = vlib.call(rc.buildRelativeMarginalizedErrorsTable if rel else rc.buildMarginalizedErrorsTable, **w)
            keep = st == "ok" and rng.random() < .7
            tr.append({"op": k, **e, "out": st, "keep": keep, "got": lines(df, rel) if st == "ok" else []})
            if keep:
                tab, tabrel = df, rel
        elif k == "analyses":
            st, df = vlib.call(rc.buildFisherAnalysesDataFrame, **w)
            tr.append({"op": k, **e, "out": st, "keep": True, "got": frame(df) if st == "ok" else []})
            if st == "ok":
                rc.analyses_df = df
        elif k == "dump":
            out = root / "collected"
            st, _ = vlib.call(rc.collectAndDumpResults, out, **w)
            ev = {"op": k, **e, "out": st, "keep": True, "got": [], "abs": [], "rel": []}
            if st == "ok":
                d = out / c / t
                rc2 = ResultsCollector()
                rc2.loadFisherAnalysesPickle(d / "fisher_analyses.pickle", **({} if rng.random() < .7 else {"eval_marg_errs": True}))
                ev.update(got=frame(rc2.analyses_df), abs=lines(pd.read_excel(d / "marginalized_errors.xlsx")),
                          rel=lines(pd.read_excel(d / "relative_marginalized_errors.xlsx"), True))
                rc.loadFisherAnalysesPickle(d / "fisher_analyses.pickle")
            tr.append(ev)
            shutil.rmtree(out, ignore_errors=True)
        elif k == "replace" and rc.analyses_df is not None:
            kept = rc.analyses_df.copy()
            kept["analysis"] = [copy.deepcopy(a) for a in kept["analysis"]]
            st, _ = vlib.call(rc.replaceHybridFishersWith4BinsEquivalents)
            tr.append({"op": k, "out": st, "got": frame(rc.analyses_df) if st == "ok" else []})
            if st != "ok":      # a refused replacement is not continued
                rc.analyses_df = kept
        elif k == "query" and rc.analyses_df is not None:
            q = {x: plain(v) for x, v in rng.choice(list(runs.values()))["opts"].items() if rng.random() < .4}
            if not q:
                q = {"n_sp_bins": rng.choice([4, 12])}
            known = sorted({x for a in rc.analyses_df["analysis"] for x in a.fisher_matrices})
            xs = rng.sample(known, rng.randint(1, len(known))) if rng.random() < .6 else []
            if xs and rng.random() < .1:
                xs.append("[other]")
            st, sub = vlib.call(rc.getFisherAnalysesSubDf, q, xs or None)
            tr.append({"op": k, "q": q, "names": xs, "out": st, "got": frame(sub) if st == "ok" else [],
                       "orders": [a.fishers_order for a in sub["analysis"]] + [list(a.marginalized_errors.index) for a in sub["analysis"]]
                       if st == "ok" and xs else [], "after": frame(rc.analyses_df)})
        elif k == "errors" and rc.analyses_df is not None:
            rel = rng.random() < .5
            f = rc.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame if rel else rc.getMarginalizedErrorsTableFromAnalysesDataFrame
            st, df = vlib.call(f)
            tr.append({"op": k, "col": "rel" if rel else "err", "out": st, "got": lines(df, rel) if st == "ok" else []})
        elif k == "excel":
            f, steps = root / "written.xlsx", []
            new = pd.DataFrame({"fisher": ["WL"], "h": [.5]})
            for _ in range(rng.randint(1, 3)):
                new = pd.DataFrame({"fisher": rng.sample(["WL", "GCph", "GCsp"], rng.randint(1, 3)), "h": float(rng.randint(1, 999))})
                over = rng.choice(["yes", "no", "unsaid"])
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    st, _ = vlib.call(th.write_excel_table, new, rng.choice([f, str(f)]), **({} if over == "unsaid" else {"overwrite": over == "yes"}))
                now = pd.read_excel(f, index_col=0)
                text = lambda d: [f"{r['fisher']} {r['h']:g}" for _, r in d.iterrows()]
                steps.append({"over": over == "yes", "new": text(new), "out": st, "now": text(now)})
            tr.append({"op": k, "steps": steps})
            f.unlink()
        elif k == "tabreplace" and tab is not None:
            if rng.random() < .4:
                f = root / "tab.xlsx"
                tab.to_excel(f, index=False)
                with contextlib.redirect_stdout(io.StringIO()):
                    st, df = vlib.call(th.load_and_setup_table, f)
            else:
                df = tab.copy()
                st, _ = vlib.call(th.replace_hybrid_fishers_with_4_bins_equivalents, df)
            tr.append({"op": k, "out": st, "got": lines(df, tabrel) if st == "ok" else []})
            if st == "ok":
                tab = df
        elif k == "tabselect" and tab is not None:
            q = {x: plain(v) for x, v in rng.choice(list(runs.values()))["opts"].items() if rng.random() < .4}
            if rng.random() < .3:
                full = th.query_dict(exclude=rng.sample(OPTS, 1))
                q = full
            if not q:
                q = {"scenario": "pessimistic"}
            cut = rng.random() < .5
            st, df = vlib.call(th.select_from_query_dict, tab, dict(q), remove_constant_columns=cut)
            if st == "ok":
                lost = [x for x in tab.columns if x not in df.columns]
                df = pd.concat([df, tab.loc[df.index, lost]], axis=1) if lost else df
                if lost and (not cut or any(len({plain(v) for v in df[x]}) > 1 for x in lost)):
                    st = f"columns lost {lost}"
            tr.append({"op": k, "q": q, "out": st, "got": lines(df, tabrel) if st == "ok" else [], "after": lines(tab, tabrel)})
        elif k == "tabfishers" and tab is not None:
            known = sorted(set(tab["fisher"]))
            xs = rng.sample(known, rng.randint(1, len(known)))
            if rng.random() < .1:
                xs.append("[other]")
            by = rng.choice([None, ["fisher"], ["fisher", "n_sp_bins"]])
            st, df = vlib.call(th.get_subdf_for_fishers, tab, xs, sort_by=by)
            tr.append({"op": k, "names": xs, "sorted": by is not None, "out": st, "got": lines(df, tabrel) if st == "ok" else [],
                       "after": lines(tab, tabrel)})
        elif k == "fom":
            xs = rng.sample(FISHERS, rng.randint(2, 4))
            ns = rng.sample([4, 12, 24], rng.randint(1, 3))
            t = [{"fisher": x, "n": n, "fom": rng.randint(1, 40)} for x in xs for n in ns if rng.random() < .9]
            asked = [x for x in rng.sample(xs, rng.randint(2, len(xs))) if any(l["fisher"] == x for l in t)]
            if len(asked) < 2:
                continue
            m = {x: rng.choice(asked) for x in asked if rng.random() < .7}
            if not m:
                continue
            df = pd.DataFrame([{"fisher": l["fisher"], "n_sp_bins": l["n"], "FoM": float(l["fom"]), "h": .1} for l in t])
            st, r = vlib.call(th.get_fom_table_for_fishers, df, asked, m)
            got = []
            if st == "ok":
                for _, l in r.reset_index().iterrows():
                    d, p = l["Delta FoM"], l["Delta FoM (%)"]
                    f = None if pd.isna(p) else Fraction(p).limit_denominator(4000)
                    got.append({"fisher": l["fisher"], "n": l["n_sp_bins"], "fom": l["FoM"], "delta": [] if pd.isna(d) else [d],
                                "percent": [] if f is None else [f.numerator, f.denominator]})
            tr.append({"op": k, "tab": t, "names": asked, "map": m, "out": st, "got": got})
    shutil.rmtree(root)
    return tr


def run(ck):
    trans = ck.graph("CollectionMC", vlib.cfg_text("Spec", {"MaxRows": "2"}, INV, action_constraints=["Emit"], view="Hide"))
    if {t["act"]["op"] for t in trans} != {"replace", "query"} or not any(t["act"]["op"] == "replace" and t["pre"] != t["post"] for t in trans):
        raise vlib.MachineryError("transitions missing")
    r = ck.model("CollectionMC", vlib.cfg_text("NSpec", {"MaxRows": "1"}, ["OneReading"], action_constraints=["NEmit"]), workers=1)
    read = next(p for t, p in r.prints if t == "N")
    ck.model("CollectionMC", vlib.cfg_text("Spec", {"MaxRows": str(ck.budget(3, 4))}, INV, view="Hide"), workers=8, timeout=3000)
    tmp = Path(tempfile.mkdtemp(prefix="p20_"))
    try:
        replay(ck, trans)
        names(ck, read, tmp)
        traces = [texts(record(ck.rng, tmp)) for _ in range(ck.budget(110, 900))]
    finally:
        shutil.rmtree(tmp)
    ck.validate("CollectionTrace", traces, label="collection")
    ops = {e["op"] for t in traces for e in t}
    if len(ops) < 13:
        raise vlib.MachineryError(f"operations missing: {ops}")
    if ck.viol:
        return

    def corrupt(op, f, what):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op and e["out"] == "ok" and e["got"] for e in t)))
        f(next(e for e in t if e["op"] == op and e["out"] == "ok" and e["got"]))
        ck.must_reject("CollectionTrace", t, what)
    corrupt("load", lambda e: e["got"].pop(), "forecast not found")
    corrupt("table", lambda e: e["got"][0].update(id="999"), "errors of another forecast")
    corrupt("replace", lambda e: e["got"][0]["rel"].update({next(iter(e["got"][0]["rel"])): "999"}), "relative errors of another forecast")
    corrupt("query", lambda e: e["got"].pop(), "analysis not selected")
    ck.assumptions += ["collected forecasts differ in their options", "matrices of the recorded histories are diagonal, so that errors identify them"]
