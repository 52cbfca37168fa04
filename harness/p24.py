"""P24  plots and tables of an analysis show the matrices they name  (Contours.tla)."""
import copy
import json
import math
import shutil
import statistics
import tempfile
from fractions import Fraction
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.collections import PolyCollection, QuadMesh
from matplotlib.patches import Ellipse

import repo                                                                             # noqa: F401
import vlib
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection  # noqa: E402
from seyfert.fisher.fisher_analysis import FisherAnalysis                               # noqa: E402
from seyfert.fisher.fisher_matrix import FisherMatrix                                   # noqa: E402
from seyfert.fisher.fisher_plot import FisherPlotter                                    # noqa: E402
from seyfert.fisher.fisher_results import FisherResultsCollector                        # noqa: E402
from seyfert.notebook_helpers import contours                                           # noqa: E402
from seyfert import plot_utils                                                        # noqa: E402
from seyfert.utils import filesystem_utils as fsu                                       # noqa: E402

BAD = {"n": 0, "d": 0}
ABC = ["Omb", "Omm", "gamma", "h", "mnu", "ns", "sigma8", "w0", "wa"]
NORMAL = statistics.NormalDist()
SETTINGS = json.loads((fsu.config_files_dir() / "results_config.json").read_text())["plot_settings"]
SETTINGS["graphics"]["dpi"] = 50


def reach(cl):
    return NORMAL.inv_cdf((1 + cl / 1000) / 2)


K99 = reach(990)


def q(n, d=1):
    f = Fraction(n, d)
    return {"n": f.numerator, "d": f.denominator}


def fl(r):
    return r["n"] / r["d"]


def rat(x, scale=None, most=60000, tol=1e-10):
    x = float(x)
    if not np.isfinite(x):
        return BAD
    f = Fraction(x).limit_denominator(most)
    return {"n": f.numerator, "d": f.denominator} if abs(x - f) <= tol * (abs(x) if scale is None else scale) or x == 0 else BAD


def settings(cls):
    s = copy.deepcopy(SETTINGS)
    s["graphics"]["cl_alpha_dict"] = {k: {str(c["cl"] / 1000): c["alpha"] / 1000 for c in cls[k]} for k in ("gauss", "ellipse")}
    return s


def cov(M, names):
    return np.array([[fl(M["sig"][a]) * fl(M["sig"][b]) * (1 if a == b else fl(rho(M, a, b))) for b in names] for a in names])


def rho(M, a, b):
    return M["rho"][a][b]


def analysis(w, rng):
    names = list(w["fid"])
    order = ["".join(M["words"]) for M in w["mats"]]
    Fs = []
    for M, name in zip(w["mats"], order):
        o = list(names)
        rng.shuffle(o)
        m = pd.DataFrame(np.linalg.inv(cov(M, o)), index=o, columns=o)
        Fs.append(FisherMatrix(name=name, matrix_df=m, cosmological_parameters=set(names), nuisance_parameters=set()))
    given = list(Fs)
    rng.shuffle(given)
    fid = [(n, fl(w["fid"][n])) for n in names]
    rng.shuffle(fid)
    a = FisherAnalysis(analysis_name="plots", fisher_matrices=given if rng.random() < .5 else {F.name: F for F in given},
                       cosmo_pars_fiducial=dict(fid), fishers_order=order)
    a.prepareFisherMatrices()
    a.evaluateMarginalizedErrors()
    return a


def configure(pl, cls, tmp, how):
    s = settings(cls)
    if how == "dict":
        pl.setPlotConfig(config_dict=s)
    elif how == "both":
        pl.setPlotConfig(use_default=True, config_dict=s)
    else:
        f = tmp / "plots.json"
        f.write_text(json.dumps({"plot_settings": s}))
        pl.setPlotConfig(config_file=f if how == "file" else str(f))


def end(x, fid):
    """an end of a range: a number of the file, or so many times the half-width of 99 per cent"""
    r = rat(x, most=2000, tol=1e-13)
    if r["d"]:
        return {"at": r, "reach": q(0)}
    return {"at": fid, "reach": rat((x - fl(fid)) / K99)}


def ranges_of(w, d):
    return {n: {"lo": end(v[0], w["fid"][n]), "hi": end(v[1], w["fid"][n])} for n, v in (d or {}).items()}


def colour(pl, c, n):
    c = matplotlib.colors.to_rgba(c)[:3]
    for i in range(n):
        if np.allclose(pl.config.cmap(np.linspace(0, 1, n)[i])[:3], c, atol=1e-12):
            return i + 1
    return 0


def gaussians(pl, ax, cls, n):
    lines = ax.get_lines()
    fills = [c for c in ax.collections if isinstance(c, PolyCollection)]
    out = []
    if len(lines) != len(fills):
        return [{"kind": "unpaired"}] * max(len(lines), len(fills))
    for li, fi in zip(lines, fills):
        x, y = (np.asarray(v, float) for v in li.get_data())
        k = np.flatnonzero(y > 1e-200)
        c2, c1, c0 = np.polyfit(x[k] - x[k].mean(), np.log(y[k]), 2)
        var = -1 / (2 * c2)
        mean = x[k].mean() + c1 * var
        height = c0 + c1 ** 2 * var / 2
        # points of the filled part
        inside = {round(float(v), 12) for p in fi.get_paths() for v in p.vertices[:, 0]}
        got = [round(float(v), 12) in inside for v in x]
        fits = []
        for c in cls:
            want = np.abs(x - mean) <= reach(c["cl"]) * math.sqrt(var)
            near = np.abs(np.abs(x - mean) - reach(c["cl"]) * math.sqrt(var)) < 1e-9
            runs = np.convolve(want, [1, 1, 1], "same") * want > 1       # isolated points make no area
            if all(a == b or u for a, b, u in zip(got, runs, near)):
                fits.append(c["cl"])
        ci = colour(pl, li.get_color(), n)
        out.append({"kind": "gauss", "matrix": ci, "cls": fits, "alpha": round(float(np.ravel(fi.get_facecolor())[3]) * 1000),
                    "mean": rat(mean, max(1, abs(mean)), tol=1e-8, most=100), "var": rat(var, tol=1e-7, most=5000),
                    "outline": abs(height) < 1e-6 and colour(pl, fi.get_facecolor()[0], n) == ci})
    return out


def covariance(e, k):
    a2, b2, t = (e.width / 2) ** 2, (e.height / 2) ** 2, math.radians(e.angle)
    c, s = math.cos(t), math.sin(t)
    xx, yy, xy = a2 * c * c + b2 * s * s, a2 * s * s + b2 * c * c, (a2 - b2) * c * s
    known = dict(most=6400, tol=1e-10)         # of the matrices drawn here, and few enough to tell one level from another
    return rat(xx / k ** 2, **known), rat(yy / k ** 2, **known), rat(xy / k ** 2, scale=math.sqrt(xx * yy) / k ** 2, **known)


def ellipses(pl, ax, cls, n):
    es = [p for p in ax.patches + ax.artists if isinstance(p, Ellipse)]
    out = []
    for i in range(0, len(es) - 1, 2):
        f, o = sorted(es[i:i + 2], key=lambda x: not x.fill)
        fits = []
        for c in cls:
            v = covariance(f, reach(c["cl"]))
            if all(x["d"] for x in v):
                fits.append((c["cl"], v))
        cx, cy = f.center
        same = f.center == o.center and (f.width, f.height, f.angle) == (o.width, o.height, o.angle)
        ci = colour(pl, f.get_facecolor(), n)
        xx, yy, xy = fits[0][1] if fits else (BAD,) * 3
        out.append({"kind": "ellipse", "matrix": ci, "cls": [c for c, v in fits if v == fits[0][1]], "alpha": round(float(f.get_alpha() or 1) * 1000),
                    "x": rat(cx, most=100), "y": rat(cy, most=100), "xx": xx, "yy": yy, "xy": xy,
                    "outline": bool(same and f.fill and not o.fill and colour(pl, o.get_edgecolor(), n) == ci)})
    return out if len(es) % 2 == 0 else out + [{"kind": "unpaired"}]


def picture(pl, cls):
    n, rg = len(pl.fishers_order), pl.plot_ranges
    N = len(pl.axes)
    named = lambda lim: [p for p in rg if np.allclose(lim, rg[p], rtol=1e-12, atol=1e-12)]
    panels = []
    for i in range(N):
        row = []
        for j in range(N):
            ax = pl.axes[i, j]
            on = bool(ax.axison)
            marks = (gaussians(pl, ax, cls["gauss"], n) if i == j else ellipses(pl, ax, cls["ellipse"], n))
            ticks = bool(np.allclose(ax.get_xticks()[[0, -1]], ax.get_xlim()) and (i == j or np.allclose(ax.get_yticks()[[0, -1]], ax.get_ylim())))
            if N > 1 and on:
                shown = lambda axis: axis.get_major_ticks()[0].label1.get_visible()
                ticks = ticks and shown(ax.xaxis) == (i == N - 1) and shown(ax.yaxis) == (j == 0 and i > 0)
            row.append({"on": on, "marks": marks, "x": named(ax.get_xlim()), "y": named(ax.get_ylim()) if i != j else [],
                        "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "ticks": ticks or not on})
        panels.append(row)
    leg = []
    for lg in pl.figure.legends:
        for h, t in zip(lg.legend_handles, lg.get_texts()):
            leg.append({"label": t.get_text(), "matrix": colour(pl, h.get_facecolor(), n)})
    return {"panels": panels, "legend": leg}


def heat(pl, name, names):
    fig, ax = pl.makeSingleCorrelationPlot(name)
    mesh = next(c for c in ax.collections if isinstance(c, QuadMesh))
    n = len(names)
    xl, yl = [t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]
    a = np.asarray(mesh.get_array(), float).reshape(n, n)
    out = {"title": ax.get_title(), "names": xl if xl == yl else ["rows are not columns"],
           "cells": [[rat(v, scale=1, tol=1e-9, most=500) for v in r] for r in a]}
    plt.close(fig)
    return out


# ---- from the model ---------------------------------------------------------------------------
def floats(r):
    return {n: (fl(v["lo"]["at"]) + fl(v["lo"]["reach"]) * K99, fl(v["hi"]["at"]) + fl(v["hi"]["reach"]) * K99) for n, v in dict(r or {}).items()}


def plotter(w, pars, cls, rng, tmp, how=None):
    pl = FisherPlotter(fisher_analysis=analysis(w, rng))
    pl.setParamsToPlot(pars or "all")
    configure(pl, cls, tmp, how or rng.choice(["dict", "both", "file", "text"]))
    return pl


def marks_agree(want, got):
    return len(want) == len(got) and all(g.get("outline") and m["cl"] in g["cls"] and all(g[k] == m[k] for k in m if k != "cl") for m, g in zip(want, got))


def agree(want, got):
    for a, b in zip(want["panels"], got["panels"]):
        for p, g in zip(a, b):
            if p["on"] != g["on"] or not marks_agree(p["marks"], g["marks"]):
                return f"panel {p['x']}, {p['y']}"
            if p["on"] and (p["x"] not in g["x"] or (p["y"] and p["y"] not in g["y"]) or (p["xlabel"], p["ylabel"]) != (g["xlabel"], g["ylabel"])
                            or not g["ticks"]):
                return f"axes of panel {p['x']}, {p['y']}"
    return "" if want["legend"] == got["legend"] and len(want["panels"]) == len(got["panels"]) else "legend"


def replay(ck, prints, tmp):
    rng = ck.rng
    w = next(r for t, r in prints if t == "W")["w"]
    kinds = set()
    ts = {}
    for t, r in prints:
        if t in "DTH":
            ts[t + json.dumps(r, sort_keys=True)] = (t, r)
    ts = [ts[k] for k in sorted(ts)]
    few = [x for x in ts if x[0] != "T"] + rng.sample([x for x in ts if x[0] == "T" and x[1]["act"]["op"] != "draw"], ck.budget(200, 1500))
    for t, r in few:
        ck.s2i += 1
        if t == "H":
            pl = plotter(w, [], {"gauss": [], "ellipse": []}, rng, tmp, "dict")
            got = heat(pl, pl.fishers_order[r["m"] - 1], w["fid"])
            if got != r["heat"]:
                ck.violation("correlation plot", {"want": r["heat"], "got": got})
                return
        elif t == "D":
            pl = plotter(w, r["pars"], r["cls"], rng, tmp)
            pl.plot_ranges = floats(r["ranges"])
            order = [pl.fishers_order[i - 1] for i in r["order"]]
            st, ex = vlib.call(pl.makeTriangularPlot, order=order)
            if st != "ok":
                ck.violation(f"plot failed: {st} {ex}", r)
                return
            bad = agree(r["pic"], picture(pl, r["cls"]))
            plt.close(pl.figure)
            if bad:
                ck.violation(f"triangular plot: {bad}", {"asked": r, "got": picture(pl, r["cls"])})
                return
        else:
            act = r["act"]
            kinds.add(act["op"])
            pl = plotter(w, r["pars"], r["cls"], rng, tmp, "dict")
            pl.plot_ranges = floats(r["ranges"])
            d = tmp / "files"
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir()
            for f, v in dict(r["files"]).items():
                (d / f).write_text(json.dumps(floats(v)))
            if act["op"] == "choose":
                pl.setParamsToPlot(act["pars"] or "all")
            elif act["op"] == "compute":
                pl.setParametersPlotRanges()
            elif act["op"] == "load":
                st, ex = vlib.call(pl.setParametersPlotRanges, d / act["file"])
                if st != ("ok" if act["found"] else "FileNotFoundError"):
                    ck.violation(f"file of ranges: {st} {ex}", r)
                    return
            elif act["op"] == "save":
                pl.writeParameterPlotRangesToFile(d / act["file"], overwrite=act["over"])
            elif act["op"] == "configure":
                configure(pl, act["cls"], tmp, "file")
            got = (list(pl.pars_to_plot), {n: tuple(v) for n, v in (pl.plot_ranges or {}).items()})
            want = (list(r["pars2"]), floats(r["ranges2"]))
            now = {f.name: json.loads(f.read_text()) for f in d.iterdir()}
            same = lambda a, b: set(a) == set(b) and all(np.allclose(a[n], b[n], rtol=1e-12) for n in a)
            if got[0] != want[0] or not same(got[1], want[1]) or set(now) != set(r["files2"]) or not all(same(now[f], floats(r["files2"][f])) for f in now):
                ck.violation(f"after {act['op']}: {got} {now}", r)
                return
    if not {"choose", "compute", "load", "save", "configure"} <= kinds:
        raise vlib.MachineryError(f"actions missing: {kinds}")


# ---- recorded sessions -------------------------------------------------------------------------
def words(rng):
    return rng.choice([["WL"], ["GCph"], ["GCsp"], ["GCsp", "(", "Pk", ")"], ["XC", "(", "WL", ",", "GCph", ")"], ["WL", "+", "GCph", "+", "XC", "(", "WL", ",", "GCph", ")"],
                       ["[", "WL", "+", "GCph", "]", "+", "GCsp", "(", "Pk", ")"], ["GCph", "+", "GCsp", "+", "XC"], ["WL", "+", "GCsp"], ["Cl"]])


def world(rng):
    names = rng.sample(ABC, rng.randint(1, 4))
    fid = {n: q(rng.choice([0, 1, 2, 3, -1, -2, 5]), rng.choice([1, 2, 3, 4, 10])) for n in names}
    mats = []
    for _ in range(rng.randint(1, 4)):
        ws = words(rng)
        if ws in [M["words"] for M in mats]:
            continue
        sig = {n: q(1, rng.choice([1, 2, 4, 5, 8, 10, 20, 40])) for n in names}
        for _ in range(200):
            r = {a: {b: q(1) if a == b else None for b in names} for a in names}
            for i, a in enumerate(names):
                for b in names[:i]:
                    r[a][b] = r[b][a] = q(rng.choice([0, 1, -1, 2, -2, 3, -3]), 4)
            if np.linalg.eigvalsh(np.array([[fl(r[a][b]) for b in names] for a in names]))[0] > .05:
                break
        else:
            r = {a: {b: q(int(a == b)) for b in names} for a in names}
        mats.append({"words": ws, "sig": sig, "rho": r})
    return {"fid": fid, "mats": mats}


def levels(rng):
    one = lambda: [{"cl": c, "alpha": a} for c, a in zip(rng.sample([500, 680, 900, 950, 990], rng.randint(1, 2)), rng.sample([125, 250, 400, 500, 750], 2))]
    return {"gauss": one(), "ellipse": one()}


def some(rng, names):
    return rng.choice([[], rng.sample(names, rng.randint(1, len(names)))])


def span(rng, f):
    f = Fraction(f["n"], f["d"])
    a, b = f - Fraction(rng.randint(1, 8), 4), f + Fraction(rng.randint(1, 8), 4)
    return {"lo": {"at": q(a), "reach": q(0)}, "hi": {"at": q(b), "reach": q(0)}}


def session(ck, rng, tmp, plots):
    w = world(rng)
    names = list(w["fid"])
    cls = levels(rng)
    ps = some(rng, names)
    pl = FisherPlotter(fisher_analysis=analysis(w, rng))
    pl.setParamsToPlot(ps or "all")
    configure(pl, cls, tmp, rng.choice(["dict", "both", "file", "text"]))
    tr = [{"op": "world", "fid": w["fid"], "mats": w["mats"], "cls": cls, "pars": list(pl.pars_to_plot)}, {"op": "choose", "pars": ps, "got": list(pl.pars_to_plot)}]
    ready, files = set(pl.pars_to_plot), set()
    d = tmp / "ranges"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    drawn = 0
    for _ in range(rng.randint(6, 12)):
        can = pl.plot_ranges is not None and set(pl.pars_to_plot) <= set(pl.plot_ranges) & ready
        op = rng.choice(["choose", "config", "compute", "compute", "file", "load", "save", "heat", "labels"] + (["draw"] * 5 if can else []) + (["tri"] * 2 if set(pl.pars_to_plot) <= ready else []))
        if op in ("draw", "tri") and drawn >= plots:
            continue
        e = {"op": op}
        if op == "choose":
            e["pars"] = some(rng, names)
            pl.setParamsToPlot(rng.choice([tuple, list])(e["pars"]) if e["pars"] else "all")
            e["got"] = list(pl.pars_to_plot)
        elif op == "config":
            cls = e["cls"] = levels(rng)
            configure(pl, cls, tmp, rng.choice(["dict", "both", "file", "text"]))
            ready = set(pl.pars_to_plot)
        elif op == "compute":
            pl.setParametersPlotRanges()
            e["got"] = ranges_of(w, pl.plot_ranges)
        elif op == "file":
            e["file"], e["holds"] = rng.choice("ab"), {n: span(rng, w["fid"][n]) for n in names}
            (d / e["file"]).write_text(json.dumps({n: list(v) for n, v in floats(e["holds"]).items()}))
            files.add(e["file"])
        elif op == "load":
            e["file"] = rng.choice("ab")
            e["out"], _ = vlib.call(pl.setParametersPlotRanges, rng.choice([str, Path])(d / e["file"]))
            e["got"] = ranges_of(w, pl.plot_ranges)
        elif op == "save":
            if not pl.plot_ranges:
                continue
            e["file"], e["over"] = rng.choice("ab"), rng.random() < .5
            pl.writeParameterPlotRangesToFile(d / e["file"], overwrite=e["over"])
            files.add(e["file"])
            e["got"] = ranges_of(w, json.loads((d / e["file"]).read_text()))
        elif op == "draw":
            drawn += 1
            e["order"] = rng.sample(range(1, len(w["mats"]) + 1), rng.randint(1, len(w["mats"])))
            by = [pl.fishers_order[i - 1] for i in e["order"]]
            if len(by) == len(w["mats"]) and rng.random() < .4:
                by, e["order"] = None, sorted(e["order"])
            out = tmp / "out" if rng.random() < .3 else None
            if out is not None:
                out.mkdir(exist_ok=True)
            st, ex = vlib.call(pl.makeTriangularPlot, outdir=out, order=by)
            if st != "ok":
                ck.violation(f"plot failed: {st} {ex}", tr + [e])
                return None
            e["got"] = picture(pl, cls)
            plt.close(pl.figure)
            if out is not None and not (out / f"contour_{pl.analysis.name}.pdf").exists():
                ck.violation("plot not written", tr + [e])
        elif op == "tri":
            drawn += 1
            case, sub = rng.choice([("fullcl", "phsp"), ("2dx3d", "wlsp"), ("cl", "6x2pt")])
            nb = rng.choice([4, 12])
            pl.analysis.metadata.update(scenario=rng.choice(["optm", "pess", "optimistic"]), case=case, subcase=sub, n_bins=nb)
            e["file"], e["write"], e["save"] = rng.choice([f for f in sorted(files) if set(pl.pars_to_plot) <= set(json.loads((d / f).read_text()))] + ["none"]), rng.random() < .5, rng.random() < .3
            root = tmp / "root"
            shutil.rmtree(root, ignore_errors=True)
            target = root / f"configs/ranges/{pl.analysis.metadata['scenario']}/{case}_{sub}_{nb}_bins_ranges.json"
            target.parent.mkdir(parents=True)
            if e["write"] and rng.random() < .5:
                target.write_text(json.dumps({n: [-9, 9] for n in names}))          # of an earlier plot
            old, contours.root_dir = contours.root_dir, root
            try:
                st, ex = vlib.call(contours.do_tri_plot, pl, root / "plots", save=e["save"], write_ranges=e["write"], closefig=True,
                                   ranges_file=None if e["file"] == "none" else d / e["file"])
            finally:
                contours.root_dir = old
            if st != "ok":
                ck.violation(f"plot failed: {st} {ex}", tr + [e])
                return None
            e["ranges"], e["got"] = ranges_of(w, pl.plot_ranges), picture(pl, cls)
            e["written"] = [ranges_of(w, json.loads(target.read_text()))] if target.exists() else []
            e["saved"] = (root / f"plots/{case}/{sub}/contour_{'_'.join(sorted(pl.pars_to_plot))}_{nb}_bins.pdf").exists()
        elif op == "labels":
            e["names"] = rng.sample(ABC + [f"bg{k}{i}" for k in ("ph", "sp") for i in range(1, 14)] * 2, 12)
            e["names"] = list(dict.fromkeys(e["names"]))
            fig = plt.figure()
            ax = plot_utils.heatmap(pd.DataFrame(np.eye(len(e["names"])), index=e["names"], columns=e["names"]), usetex=True)
            x, y = ([t.get_text() for t in a.get_ticklabels()] for a in (ax.xaxis, ax.yaxis))
            e["got"] = x if x == y else []
            plt.close(fig)
        elif op == "heat":
            e["matrix"] = rng.randint(1, len(w["mats"]))
            st, got = vlib.call(heat, pl, pl.fishers_order[e["matrix"] - 1], names)
            if st != "ok":
                ck.violation(f"correlation plot failed: {st} {got}", tr + [e])
                return None
            e["got"] = got
        tr.append(e)
    return tr


COSMO, NUIS = ["h", "w0", "wa", "Omm"], ["b1", "b2", "aIA"]


def definite(rng, n):
    """few small elements: the exact numbers of the specification stay small"""
    m = [[0] * n for _ in range(n)]
    o = rng.sample(range(n), n)
    for a, b in zip(o, o[1:]):
        m[a][b] = m[b][a] = rng.choice([-1, 0, 1, 1])
    for i in range(n):
        m[i][i] = rng.randint(3, 4)
    return m


def results(ck, rng, tmp, plots):
    fid = {n: q(rng.choice([0, 1, -1, 2]), rng.choice([1, 2])) for n in COSMO}
    free = COSMO if rng.random() < .8 else rng.sample(COSMO, 3)
    mats = []
    for name in rng.sample(["WL", "GCph", "GCsp", "GCsp(Pk)", "XC(WL,GCph)"], rng.randint(1, 3)):
        nuis = rng.sample(NUIS[:2], rng.randint(0, 2))
        names = list(free) + nuis
        rng.shuffle(names)
        m = definite(rng, len(names))
        mats.append({"name": name, "cosmo": list(free), "nuis": nuis, "names": names, "m": [[q(x) for x in r] for r in m]})
    cosmos = [{"name": n, "present": rng.random() < .75, "pars": rng.sample(p, len(p))} for n, p in
              (("LCDM", ["h", "Omm"]), ("w0_wa_CDM", ["Omm", "w0", "wa"]), ("w0_CDM", ["h", "w0"]))]
    cosmos[rng.randrange(3)]["present"] = True
    have = [M["name"] for M in mats]
    sums = [] if rng.random() < .4 else [[n] for n in rng.sample(have, rng.randint(1, len(have)))] + ([rng.sample(have, 2)] if len(have) > 1 else [])
    marg = rng.random() < .6
    for c in cosmos:
        c["shown"] = rng.sample(c["pars"], rng.randint(1, len(c["pars"]))) if rng.random() < .5 else []
    e = {"op": "results", "fid": fid, "free": free, "mats": mats, "cosmos": cosmos, "sums": sums, "marg": marg, "plots": plots}
    src = tmp / "fishers"
    shutil.rmtree(src, ignore_errors=True)
    src.mkdir()
    for M in mats:
        F = FisherMatrix(name=M["name"], matrix_df=pd.DataFrame([[fl(x) for x in r] for r in M["m"]], index=M["names"], columns=M["names"]),
                         cosmological_parameters=set(M["cosmo"]), nuisance_parameters=set(M["nuis"]))
        F.writeToFile(outdir=src)
    d = {n: PhysicalParameter(name=n, fiducial=float(fl(fid[n])), kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=n in free) for n in COSMO}
    d.update({n: PhysicalParameter(name=n, fiducial=1., kind=PhysicalParameter.NUISANCE_PAR_STRING, probe="Lensing", is_free_parameter=True) for n in NUIS})
    cfg = {"plot_settings": SETTINGS, "fishers_addends_list": sums,
           "cosmologies": {c["name"]: {"present": rng.choice(["true", "True"] if c["present"] else ["false", "False"]), "pars": c["pars"], "pars_to_plot": c["shown"] or "all"} for c in cosmos}}
    f = tmp / "results.json"
    f.write_text(json.dumps(cfg))
    lims = tmp / "limits.json" if rng.random() < .5 else None
    e["limits"] = {} if lims is None else {n: span(rng, fid[n]) for n in COSMO}
    if lims is not None:
        lims.write_text(json.dumps({n: list(v) for n, v in floats(e["limits"]).items()}))
    rc = FisherResultsCollector(plot_ranges_file=lims, phys_pars=PhysicalParametersCollection(data_dict=d, is_universe_flat=True), analysis_name="mine", fishers_dir=src,
                                results_config_file=f, do_plots=plots, marginalize_nuisance=marg)
    e["out"], ex = vlib.call(rc.setUp)
    e.update(got={}, back={}, kept={})
    if e["out"] != "ok":
        e["why"] = str(ex)
        return [e]
    out = tmp / "results"
    shutil.rmtree(out, ignore_errors=True)
    st, ex = vlib.call(rc.writeResultsAndDoPlots, out)
    if st != "ok":
        ck.violation(f"results not written: {st} {ex}", e)
        return None
    sq = lambda x: rat(float(x) ** 2, tol=1e-8)
    for c, an in rc.analysis_dict.items():
        pars = next(x["pars"] for x in cosmos if x["name"] == c)
        cols = pars + (["FoM"] if {"w0", "wa"} <= set(pars) else [])
        g = {"names": list(an.fisher_matrices), "rows": {}, "drawn": {}, "shown": [], "ranges": {}, "files": True}
        for n, F in an.fisher_matrices.items():
            sig = an.marginalized_errors.loc[n]
            g["rows"][n] = {"err": {p: sq(an.marginalized_errors.loc[n, p]) for p in cols}, "rel": {p: sq(an.relative_marginalized_errors.loc[n, p]) for p in cols},
                            "cov": {a: {b: rat(F.correlation.loc[a, b] * sig[a] * sig[b], scale=sig[a] * sig[b], tol=1e-9) for b in pars} for a in pars}}
        if plots:
            pl = rc.plotters_dict[c]
            pc = picture(pl, {k: [{"cl": 680}, {"cl": 950}] for k in ("gauss", "ellipse")})
            g["shown"] = list(pl.pars_to_plot)
            g["ranges"] = {"file": ranges_of({"fid": fid}, json.loads((out / c / "plots" / "plot_ranges.json").read_text())), "plot": ranges_of({"fid": fid}, pl.plot_ranges)}
            for i, n in enumerate(pl.fishers_order):
                g["drawn"][n] = {p: next(m["var"] for m in pc["panels"][j][j]["marks"] if m["matrix"] == i + 1) for j, p in enumerate(pl.pars_to_plot)}
            plt.close("all")
            have = {p.name for p in (out / c / "plots").iterdir()}
            g["files"] = have == {"contour_mine.pdf", "plot_ranges.json"} | {f"correlation_mine_{n}.pdf" for n in an.fisher_matrices}
        e["got"][c] = g
    # read back
    other = FisherResultsCollector()
    st, ex = vlib.call(other.loadFromResultsDir, rng.choice([str, Path])(out))
    if st != "ok":
        ck.violation(f"results not read back: {st} {ex}", e)
        return None

    def digest(an):
        r = lambda t: {f"{i} {c}": repr(float("%.10g" % t.loc[i, c])) for i in t.index for c in t.columns}
        return {"marg": r(an.marginalized_errors), "rel": r(an.relative_marginalized_errors), "corr": {n: r(F.correlation) for n, F in an.fisher_matrices.items()},
                "m": {n: {f"{a} {b}": repr(float("%.10g" % F.matrix.loc[a, b])) for a in F.matrix.index for b in F.matrix.columns} for n, F in an.fisher_matrices.items()}}
    e["kept"] = {c: digest(a) for c, a in rc.analysis_dict.items()}
    st, e["back"] = vlib.call(lambda: {c: digest(a) for c, a in other.analysis_dict.items()})
    if st != "ok":
        ck.violation(f"results not read back: {st} {e['back']}", str(e["kept"]))
        return None
    return [e]


def run(ck):
    inv = ["Below", "Shadows", "Everywhere", "Unique"]
    ck.model("ContoursMC", vlib.cfg_text("Spec", {"Bound": "5" if ck.thorough else "4"}, inv, properties=["Transposed", "KeptFiles", "DrawingReads"], deadlock=False), timeout=1200)
    res = ck.model("ContoursMC", vlib.cfg_text("Spec", {"Bound": "5"}, action_constraints=["Emit"], view="View", deadlock=False), workers=1, timeout=1200)
    rng = ck.rng
    tmp = Path(tempfile.mkdtemp(prefix="p24_"))
    traces = []
    try:
        with np.errstate(all="ignore"):
            replay(ck, res.prints, tmp)
            for i in range(ck.budget(56, 500)):
                if ck.viol:
                    return
                t = session(ck, rng, tmp, 2) if i % 7 < 4 else results(ck, rng, tmp, i % 7 == 6)
                if t:
                    traces.append(t)
    finally:
        plt.close("all")
        shutil.rmtree(tmp)
    if ck.viol:
        return
    ck.validate("ContoursTrace", traces, label="plots")
    ops = {e["op"] for t in traces for e in t}
    if len(ops) < 11:
        raise vlib.MachineryError(f"events missing: {ops}")
    if ck.viol:
        return

    def corrupt(op, f, what, when=lambda e: True):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op and when(e) for e in t)))
        f(next(e for e in t if e["op"] == op and when(e)))
        ck.must_reject("ContoursTrace", t, what)
    corrupt("draw", lambda e: e["got"]["panels"][1][0]["marks"][0].update(xx=q(1, 7)), "another ellipse")
    corrupt("draw", lambda e: e["got"]["legend"][0].update(matrix=9), "another colour in the legend")
    corrupt("compute", lambda e: next(iter(e["got"].values()))["lo"].update(reach=q(1, 7)), "another range")
    corrupt("heat", lambda e: e["got"]["cells"][0].__setitem__(0, q(1, 7)), "another correlation")
    fine = lambda e: e["out"] == "ok"
    corrupt("results", lambda e: next(iter(next(iter(e["got"].values()))["rows"].values()))["err"].update(Omm=q(1, 7777)), "another error", fine)
    corrupt("results", lambda e: e["back"].clear(), "results not read back", fine)
