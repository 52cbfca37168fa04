"""P26  comparisons and figures show the differences of corresponding elements  (Compare.tla)."""
import copy
import json
import logging
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path
from types import SimpleNamespace

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

import repo                                                                      # noqa: F401
import vlib
from seyfert.cosmology import weight_functions as wfs                            # noqa: E402
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector  # noqa: E402
from seyfert.cosmology.cosmology import Cosmology                                # noqa: E402
from seyfert.cosmology.kernel_functions import KernelFunction                    # noqa: E402
from seyfert.cosmology.power_spectrum import PowerSpectrum                       # noqa: E402
from seyfert.cosmology.redshift_density import RedshiftDensity                   # noqa: E402
from seyfert.fisher.fisher_analysis import FisherAnalysis                        # noqa: E402
from seyfert.fisher.fisher_matrix import FisherMatrix                            # noqa: E402
from seyfert.fisher.fisher_results import FisherResultsCollector                 # noqa: E402
from seyfert.notebook_helpers import barplots, fom_gain_plots, load_helpers      # noqa: E402
from seyfert.numeric import general as nug                                       # noqa: E402
from seyfert.plot_utils import cl_plot                                           # noqa: E402
from seyfert.utils import comparison_utils, run_loader                           # noqa: E402

BAD = {"n": 9, "d": 0}
NONE = {"n": 0, "d": 0}
PH, SP, WL = "PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing"
SHORT = {PH: "phot", SP: "spectro", WL: "lens"}


def q(n, d=1):
    f = Fraction(n, d)
    return {"n": f.numerator, "d": f.denominator}


def rat(x, unit=1., most=60000):
    x = float(x) / unit
    if not np.isfinite(x):
        return BAD
    f = Fraction(x).limit_denominator(most)
    return {"n": f.numerator, "d": f.denominator} if abs(x - f) <= 1e-9 * max(1e-3, abs(x)) and abs(f.numerator) < 2 ** 31 else BAD


def cell(x, unit):
    return NONE if np.isnan(x) else rat(x, unit)


def number(x):
    return int(round(float(x))) if np.isfinite(x) and abs(float(x) - round(float(x))) < 1e-9 else -999999


def pairs(rng, n, sign=True):
    """elements whose sum is a small number"""
    out = []
    while len(out) < n:
        x, y = rng.randint(-4, 4) if sign else rng.randint(0, 4), rng.randint(-4, 4) if sign else rng.randint(0, 4)
        if rng.random() < .2:
            y = x
        if abs(x + y) in (1, 2, 4) or x == y == 0:
            out.append((x, y))
    return out


def arrays(rng, shape, sign=True):
    p = pairs(rng, int(np.prod(shape)), sign)
    return [np.array([c[k] for c in p], float).reshape(shape) for k in (0, 1)]


def ints(a):
    return np.asarray(a).astype(int).tolist()


def pads(rng):
    tr = []
    for _ in range(3):
        shape = rng.choice([(4,), (2, 2), (1, 3), (2, 1, 2)])
        x, y = arrays(rng, shape)
        kind = rng.choice(["array", "array", "number", "mean", "max"])
        if kind in ("mean", "max") and not np.any(x + y):
            kind = "array"
        if kind == "number":
            keep = [(a, b) for a, b in zip(x.ravel(), y.ravel()) if a + b]
            x, y = np.array([a for a, _ in keep]), np.array([b for _, b in keep])
            got = [nug.pad(a, b) for a, b in keep]
        else:
            got = (nug.pad(x, y) if kind == "array" else nug.odm_weighted_pad(x, y) if kind == "mean" and rng.random() < .5 else nug.odm_weighted_pad(x, y, ref=kind)).ravel()
        tr.append({"op": "pad", "x": ints(x.ravel()), "y": ints(y.ravel()), "ref": kind if kind in ("mean", "max") else "", "got": [rat(g, 200) for g in got]})
    rows, cols = rng.sample("abcdef", rng.randint(1, 4)), rng.sample("uvwxyz", rng.randint(1, 4))
    if rng.random() < .5:
        cols = list(rows)
    x, y = arrays(rng, (len(rows), len(cols)))
    ry, cy = rng.sample(rows, len(rows)), rng.sample(cols, len(cols))
    X, Y = pd.DataFrame(x, index=rows, columns=cols), pd.DataFrame(y, index=rows, columns=cols)
    Y = Y.loc[ry, cy]
    if rng.random() < .25:
        Y, ry, cy = rng.choice([(Y.rename(index={ry[0]: "k"}), ["k"] + ry[1:], cy), (Y.rename(columns={cy[0]: "k"}), ry, ["k"] + cy[1:]),
                                (Y.iloc[1:], ry[1:], cy), (Y.iloc[:, 1:], ry, cy[1:])])
    st, got = vlib.call(nug.pad, X, Y)
    e = {"op": "frame", "x": ints(x), "y": ints(Y.to_numpy()), "rx": rows, "ry": ry, "cx": cols, "cy": cy, "out": st, "got": []}
    if st == "ok":
        e["got"] = [[rat(got.loc[r, c], 200) for c in cols] for r in rows] if list(got.index) == rows and list(got.columns) == cols else [[BAD] * len(cols)] * len(rows)
    tr.append(e)
    x, y = [rng.randint(-9, 9) for _ in range(3)], [rng.choice([-4, -2, 1, 2, 5]) for _ in range(3)]
    tr.append({"op": "percent", "x": x, "y": y, "got": [rat(g, 100) for g in nug.percentage_difference(np.array(x, float), np.array(y, float))]})
    return tr


def tables(d):
    return {"mean": [[cell(x, 200) for x in r] for r in d.metrics["mean_PAD"]], "var": [[cell(x ** 2, 40000) for x in r] for r in d.metrics["sigma_PAD"]]}


def diffs(ck, rng, tmp):
    n = rng.randint(1, 3)
    shape = (rng.randint(1, 3), n, n if rng.random() < .6 else rng.randint(1, 3))
    a, b = arrays(rng, shape, sign=False)
    if not np.any(a + b):
        a[0, 0, 0] = 1
    name = rng.choice(["phot", "phot_spectro"])
    d = comparison_utils.ClDiff(name, cl1=a.copy(), cl2=b.copy())
    t = d.comp_df
    rows = [{"i": number(r["i"]), "j": number(r["j"]), "off": number(r["|i-j|"]), "pad": rat(r["mean_pad"], 200), "size": rat(r["cl_order_of_mag"])} for _, r in t.iterrows()]
    tr = [{"op": "new", "a": ints(a), "b": ints(b), "rows": rows, **tables(d)}]
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["cut", "files", "heat"])
        if op == "cut":
            c = Fraction(rng.randint(1, 130), 97)
            d.cutOffMetrics(float(200 * c))
            tr.append({"op": "cut", "c": q(c.numerator, c.denominator), **tables(d)})
        elif op == "files":
            shutil.rmtree(tmp / "out", ignore_errors=True)
            (tmp / "out").mkdir()
            d.writeMetricsToFiles(tmp / "out")
            got = {k: np.load(tmp / "out" / f"{name}_cl_{k}_PAD.npy") for k in ("mean", "sigma")}
            tr.append({"op": "files", **tables(SimpleNamespace(metrics={f"{k}_PAD": v for k, v in got.items()}))})
        else:
            kind = rng.choice(["mean", "sigma"])
            m = d.metrics[f"{kind}_PAD"]
            if np.all(np.isnan(m)):
                continue
            if kind == "mean" and rng.random() < .5:
                fig, ax = d.doPADHeatMap(show=True)
            else:
                fig, ax = d.doHeatMap(f"{kind}_PAD", m, show=True)
            shown = np.ma.filled(np.ma.asarray(ax.collections[0].get_array(), float), np.nan).reshape(m.shape)
            got = [[cell(x if kind == "mean" else x ** 2, 200 if kind == "mean" else 40000) for x in r] for r in shown]
            info = {ln.split(":")[0]: number(round(1000 * float(ln.split(":")[1]), 3)) for x in fig.axes[0].texts + fig.axes[-1].texts + fig.texts if "Mean" in x.get_text() for ln in x.get_text().split("\n")}
            plt.close("all")
            tr.append({"op": "heat", "kind": {"mean": "mean", "sigma": "var"}[kind], "got": got, "info": info})
    return tr


def collector(vals):
    coll = AngularCoefficientsCollector()
    for (p1, p2), v in vals.items():
        w = []
        for p, k in ((p1, "1"), (p2, "2")):
            f = wfs.weight_function_for_probe(probe=p)
            f.w_bin_z = v[f"w{k}_iz"]
            f.density = RedshiftDensity()
            f.density.norm_density_iz = v[f"n{k}_iz"]
            w.append(f)
        cl = AngularCoefficient(probe1=p1, probe2=p2)
        cl.c_lij = v["c_lij"]
        cl.kernel = KernelFunction(weight1=w[0], weight2=w[1])
        cl.kernel.k_ijz = v["k_ijz"]
        coll.cl_dict[f"{p1}_{p2}"] = cl
    return coll


def both(rng, have, shapes):
    """values of two runs which do not have the same things"""
    sides = [dict(), dict()]
    for k in have:
        x = {n: arrays(rng, s) for n, s in shapes.items()}
        where = rng.choice([(0, 1), (0, 1), (0, 1), (0,), (1,)])
        for s in where:
            sides[s][k] = {n: v[s] for n, v in x.items()}
    return sides


def flat(sides):
    return [{k: {n: ints(v.ravel()) for n, v in x.items()} for k, x in s.items()} for s in sides]


def runs(ck, rng, tmp):
    tr, loaders = [], [run_loader.RunLoader(tmp / f"run{i}") for i in (1, 2)]
    jobs = rng.sample(["central_0", "h_1", "h_-1", "w0_3", "bgph0_2"], rng.randint(1, 3))
    world = {}
    world["cls"] = [dict(), dict()]
    for j in jobs:
        shapes = {"c_lij": (2, 1, 2), "n1_iz": (1, 2), "n2_iz": (2, 2), "w1_iz": (1, 2), "w2_iz": (2, 1), "k_ijz": (1, 2, 1)}
        combos = rng.sample([(PH, SP), (WL, PH), (WL, SP)], rng.randint(1, 2))
        x = both(rng, combos, shapes)
        where = rng.choice([(0, 1), (0, 1), (0,), (1,)])
        for s in where:
            world["cls"][s][j] = x[s]
    world["dcls"] = [dict(), dict()]
    for p in rng.sample(["h", "w0", "wa"], 2):
        x = both(rng, ["phot_spectro", "phot_phot"], {"dc": (2, 1, 2)})
        for s in rng.choice([(0, 1), (0, 1), (0,), (1,)]):
            world["dcls"][s][p] = x[s]
    world["cosmos"] = [{j: {"it": v} for j, v in s.items()} for s in both(rng, jobs, {"E_z": (3,), "r_tilde_z": (3,)})]
    world["pmms"] = [{j: {"it": v} for j, v in s.items()} for s in both(rng, jobs, {"lin": (2, 2), "nonlin": (2, 2)})]
    for s, rl in enumerate(loaders):
        rl.cls = {j: collector(x) for j, x in world["cls"][s].items()}
        rl.dcls = {p: {k: v["dc"] for k, v in x.items()} for p, x in world["dcls"][s].items()}
        for j, x in world["cosmos"][s].items():
            c = Cosmology()
            c.z_grid = np.array([0., 1., 2.])
            c.dimensionless_hubble_array, c.dimensionless_comoving_distance_array = x["it"]["E_z"], x["it"]["r_tilde_z"]
            rl.cosmos[j] = c
        for j, x in world["pmms"][s].items():
            p = PowerSpectrum()
            p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = x["it"]["lin"], x["it"]["nonlin"]
            rl.pmms[j] = p
    # matrices and errors: relative differences in parts per 10^9
    diffs = {k: dict() for k in ("fisher", "inverse_fisher", "marg_errs")}
    have = [[], []]
    for name in ("WL", "GCph", "WL+GCph"):
        pars = rng.sample(["h", "w0", "wa"], rng.randint(1, 3))
        F = []
        signs = [[(rng.choice([1, -1]) if i != j else 1) * rng.randint(1, 5) for j in pars] for i in pars]
        ds = {}
        for kind in ("fisher", "inverse_fisher"):
            pool = rng.choice([[0], [0, 0, 0, 1000000], [0, 0, 0, 2000], [0, 9, 50], [0, 0, 0, 300]])
            ds[kind] = [[rng.choice(pool) for _ in pars] for _ in pars]
            diffs[kind][name] = ds[kind]
        base = pd.DataFrame(np.array(signs, float), index=pars, columns=pars)
        order = rng.sample(pars, len(pars))
        for s in (0, 1):
            m = FisherMatrix(name=name, matrix_df=base * (1 + (s * 1e-9) * np.array(ds["fisher"])) if s else base.copy(), cosmological_parameters=set(pars), nuisance_parameters=set())
            m.inverse = base * (1 + (s * 1e-9) * np.array(ds["inverse_fisher"]))
            if s:
                m.matrix, m.inverse = m.matrix.loc[order, order], m.inverse.loc[order, order]
            F.append(m)
        for s in rng.choice([(0, 1), (0, 1), (0, 1), (0,), (1,)]):
            loaders[s].fishers[name] = F[s]
            have[s].append(name)
    errs = [[], []]
    for s in (0, 1):
        loaders[s].results = FisherResultsCollector()
        loaders[s].results.analysis_dict = {}
    for cosmo in ("LCDM", "w0_wa_CDM"):
        cols, rows = ["h", "w0"], ["WL", "GCph"]
        pool = rng.choice([[0], [0, 0, 0, 1000000], [0, 0, 0, 60], [0, 4]])
        d = [[rng.choice(pool) for _ in cols] for _ in rows]
        diffs["marg_errs"][cosmo] = d
        base = pd.DataFrame(np.array([[rng.randint(1, 9) for _ in cols] for _ in rows], float), index=rows, columns=cols)
        for s in rng.choice([(0, 1), (0, 1), (0, 1), (0,), (1,)]):
            an = FisherAnalysis(cosmology_name=cosmo)
            an.marginalized_errors = base * (1 + s * 1e-9 * np.array(d))
            loaders[s].results.analysis_dict[cosmo] = an
            errs[s].append(cosmo)
    rc = run_loader.RunComparison(tmp / "run1", tmp / "run2")
    flip = rng.random() < .3
    rc.rl1, rc.rl2 = loaders[::-1] if flip else loaders
    for rl in loaders:
        rl.version = "1.2.0"
    log, said = logging.getLogger("seyfert.utils.run_loader"), []
    h = logging.Handler()
    h.emit = lambda r: said.append((r.levelname, r.getMessage()))
    log.addHandler(h)
    level = log.level
    log.setLevel(logging.DEBUG)
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        st, ex = vlib.call(rc.evaluateMetricsAndTest)
        if st == "ok":
            st, ex = vlib.call(rc.metrics.evaluatePmmMetrics)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
        logging.disable(off)
    if st != "ok":
        ck.violation(f"two runs not compared: {st} {ex}", json.dumps(flat_all(world)))
        return None
    shutil.rmtree(tmp / "cmp", ignore_errors=True)
    st, ex = vlib.call(rc.saveComparisonData, tmp / "cmp")
    other = run_loader.RunComparison()
    if st == "ok":
        st, ex = vlib.call(other.loadComparisonData, next((tmp / "cmp").iterdir()))
    if st != "ok":
        ck.violation(f"comparison not written and read back: {st} {ex}", "")
        return None
    digest = lambda m: {j: {k: {n: [rat(x, 200) for x in np.asarray(v).ravel()] for n, v in x.items()} for k, x in y.items()} for j, y in m.items()}
    key = lambda c: f"{SHORT[c[0]]}_{SHORT[c[1]]}"
    for what, conv in (("cls", lambda m: m), ("dcls", lambda m: {p: {k: {"dc": v} for k, v in x.items()} for p, x in m.items()}),
                       ("cosmos", lambda m: {j: {"it": x} for j, x in m.items()}), ("pmms", lambda m: {j: {"it": x} for j, x in m.items()})):
        one, two = [{j: {(k if isinstance(k, str) else SHORTKEY(k)): {n: ints(v.ravel()) for n, v in x.items()} for k, x in y.items()} for j, y in s.items()} for s in world[what]]
        tr.append({"op": "runs", "what": what, "one": two if flip else one, "two": one if flip else two, "got": digest(conv(getattr(rc.metrics, what))), "back": digest(conv(getattr(other.metrics, what)))})
    for kind, (one, two) in (("fisher", have), ("inverse_fisher", have), ("marg_errs", errs)):
        got = {}
        for lv, msg in said:
            for k in diffs[kind]:
                if lv == "WARNING" and msg.startswith(f"Not all {kind} {k} pads"):
                    got[k] = False
                elif lv == "INFO" and msg == f"{kind} {k} pads OK":
                    got[k] = got.get(k, True)
        tr.append({"op": "verdict", "kind": kind, "one": one, "two": two, "diffs": diffs[kind], "got": got})
    return tr


def SHORTKEY(c):
    coll = AngularCoefficientsCollector()
    coll.cl_dict[f"{c[0]}_{c[1]}"] = None
    return coll.short_keys[0]


def flat_all(world):
    return {k: str(v) for k, v in world.items()}


def lines(axes):
    return [[[[number(y) for y in ln.get_ydata()] for ln in ax.lines] for ax in row] for row in axes], \
        [[[[number(x) for x in ln.get_xdata()] for ln in ax.lines] for ax in row] for row in axes], [[not ax.axison for ax in row] for row in axes]


def figures(ck, rng, tmp):
    tr = []
    same = rng.random() < .5
    n = rng.randint(1, 3)
    shape = (n, n if same else rng.randint(1, 3), rng.randint(2, 3))
    y = np.array([[[rng.randint(-9, 9) for _ in range(shape[2])] for _ in range(shape[1])] for _ in range(shape[0])], float)
    x = np.array(sorted(rng.sample(range(1, 30), shape[2])), float)
    cl = AngularCoefficient(probe1=PH, probe2=PH if same else SP)
    cl.c_lij, cl.l_bin_centers = np.transpose(y, (2, 0, 1)).copy(), x
    cl.kernel = KernelFunction(probe1=PH, probe2=PH if same else SP)
    cl.kernel.k_ijz = y
    how = rng.choice(["cl", "kernel", "grid"])
    tri = same if how != "grid" else rng.random() < .5 and shape[0] == shape[1]
    times = rng.choice([1, 1, 2])
    axes = None
    for _ in range(times):
        if how == "grid":
            st, got = vlib.call(cl_plot.grid_plot, x, y, axes=axes, triangular=tri, label="a", logx=rng.random() < .3, xlabel=rng.choice([None, "l"]))
        elif how == "kernel":
            cl.kernel.z_grid = x
            if not hasattr(type(cl), "z_array"):
                cl.z_array = x
            st, got = vlib.call(cl.plot, what="kernel", axes=axes)
        else:
            st, got = vlib.call(cl.plot, axes=axes)
        if st != "ok":
            ck.violation(f"spectra not drawn ({how}): {st} {got}", {"y": ints(y), "tri": tri})
            return None
        axes = got[1]
    ys, xs, off = lines(np.reshape(axes, shape[:2]))
    plt.close("all")
    tr.append({"op": "grid", "how": how, "y": ints(y), "x": ints(x), "tri": tri, "times": times, "got": ys, "xs": xs, "off": off})
    m = rng.randint(1, 3)
    sets = [np.array([[[rng.randint(-9, 9) for _ in range(m)] for _ in range(m)] for _ in range(2)], float) for _ in range(rng.randint(1, 2))]
    lo = [rng.randrange(m), rng.randrange(m)]
    hi = [rng.randrange(lo[0], m), rng.randrange(lo[1], m)]
    st, got = vlib.call(cl_plot.cl_plot, [np.array([1., 2.])] * len(sets), sets, [str(i) for i in range(len(sets))], i_min=lo[0], j_min=lo[1], i_max=hi[0], j_max=hi[1], logx=rng.random() < .3)
    if st != "ok":
        ck.violation(f"elements {lo} to {hi} not drawn: {st} {got}", ints(sets[0]))
        return None
    ys, _, off = lines(np.reshape(got[1], (hi[0] - lo[0] + 1, hi[1] - lo[1] + 1)))
    plt.close("all")
    tr.append({"op": "panels", "ys": [ints(s) for s in sets], "from": lo, "to": hi, "got": ys, "off": off})

    # errors of some matrices, with some number of bins
    names, pars = ["WL", "GCph", "WL+GCph", "GCsp"], ["h", "w0", "FoM"]
    rows = [{"fisher": f, "bins": b, "vals": [q(rng.randint(1, 9), rng.choice([1, 2, 4])) for _ in pars]} for f in names for b in (4, 12)]
    rng.shuffle(rows)
    df = pd.DataFrame([{"fisher": r["fisher"], "n_sp_bins": r["bins"], **{p: v["n"] / v["d"] for p, v in zip(pars, r["vals"])}} for r in rows])
    pl = barplots.ErrorBarPlotter(df)
    for _ in range(2):
        ask, bins = rng.sample(names, rng.randint(1, 3)), rng.choice([4, 12])
        st, got = vlib.call(pl.sliceResultsForFishersAndNbins, ask, bins)
        if st == "ok":
            fig, ax = plt.subplots()
            st, ax = vlib.call(pl.doSingleErrorBarPlot, ask, bins, ax=ax, do_legend=rng.random() < .5, usetex=rng.random() < .5)
        if st != "ok":
            ck.violation(f"errors of {ask} not drawn: {st} {got if isinstance(got, Exception) else ax}", str(df))
            return None
        drawn = [[rat(p.get_width()) for p in c] for c in ax.containers]
        plt.close("all")
        kept = [{"fisher": f, "bins": int(b), "vals": [rat(r[p]) for p in pars]} for (f, b), r in pl.df.iterrows()]
        tr.append({"op": "bars", "pars": pars, "rows": rows, "ask": ask, "bins": bins, "kept": kept, "drawn": drawn,
                   "got": [[rat(got.loc[f, p]) for p in pars] for f in ask] if list(got.index) == ask else [[BAD] * 3] * len(ask)})
    vals = [{"fisher": f, "red": r, "bins": b, "v": rng.randint(1, 90)} for f in names for r in (True, False) for b in (4, 12, 24)]
    diff = pd.DataFrame(vals).rename(columns={"v": "FoM"}).set_index(["fisher", "red", "bins"])
    ask = rng.sample(names, rng.randint(1, 3))
    st, got = vlib.call(fom_gain_plots.comparison_plot_fom_gain, diff, "GCsp", ask, logscale=rng.random() < .5, legend=rng.random() < .5)
    if st != "ok":
        ck.violation(f"gains of {ask} not drawn: {st} {got}", str(diff))
        return None
    tr.append({"op": "gains", "vals": vals, "ask": ask, "got": [[[[number(a), number(b)] for a, b in zip(ax.lines[k].get_xdata(), ax.lines[k].get_ydata())] for ax in got[1]]
                                                               if all(len(ax.lines) == len(ask) for ax in got[1]) else [] for k in range(len(ask))]})
    plt.close("all")
    return tr


def loading(ck, rng, tmp):
    d = tmp / "prod"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    names = []
    sc = rng.choice(["optm", "pess"])
    for b in rng.sample([4, 12, 24, 40, 100], 3):
        for sub in (True, False):
            if rng.random() < .8:
                n = f"{sc}_{b}_sp_bins_{rng.choice(['flat', 'x'])}{'_gcph_minus_gcsp' if sub else ''}{rng.choice(['', '_2020'])}"
                names.append({"name": n, "bins": b, "sub": sub, "run": True})
    for n in rng.sample(["figures", f"old_{sc}_4_sp_bins_x", f"{sc}_sp_bins_4"], 2):
        names.append({"name": n, "bins": 0, "sub": False, "run": False})
    for x in names:
        (d / x["name"]).mkdir()
    f = f"{sc}_7_sp_bins_notes.txt"
    (d / f).write_text("")
    names.append({"name": f, "bins": 7, "sub": False, "run": False})
    sub = rng.random() < .5
    st, got = vlib.call(load_helpers.load_workspaces_for_scenario, sc, gcph_sub_flag=sub, base_dir=d)
    if st != "ok":
        ck.violation(f"runs of a folder not loaded: {st} {got}", names)
        return None
    tr = [{"op": "dirs", "names": names, "sub": sub, "got": [{"bins": b, "name": w.run_dir.name} for b, w in got.items()]}]
    ms = ["WL", "GCsp(Pk)", "WL+GCsp(Pk)", "GCph+WL"]
    one, an = {}, {}
    for b in rng.sample([4, 12, 24, 40], 4)[:rng.randint(2, 4)] + [4]:
        one[str(b)] = {n: rng.randint(1, 999) for n in ms}
        an[b] = FisherAnalysis()
        an[b].fisher_matrices = dict(one[str(b)])
    load_helpers.replace_hybrid_fishers_with_4_bins_equivalents(an)
    tr.append({"op": "hybrid", "one": one, "hyb": [n for n in ms if "Pk" in n], "got": {str(b): a.fisher_matrices for b, a in an.items()}})
    return tr


def replay(ck, prints):
    n = 0
    for r in sorted(prints, key=lambda p: json.dumps(p, sort_keys=True)):
        n += 1
        ck.s2i += 1
        st, d = vlib.call(comparison_utils.ClDiff, "phot", cl1=np.array(r["a"], float), cl2=np.array(r["b"], float))
        if st == "ok" and tables(d) != r["m"]:
            st, d = "differences", tables(d)
        if st == "ok":
            d.cutOffMetrics(120.)
            # at the limit itself the rounding decides
            for k in ("mean", "var"):
                for i, row in enumerate(r["c"][k]):
                    for j, x in enumerate(row):
                        got = tables(d)[k][i][j]
                        if got != x and r["m"][k][i][j] != {"n": 3, "d": 5} and r["m"][k][i][j] != {"n": 9, "d": 25}:
                            st, d = "differences after the cut", (got, x)
                            break
                    if st != "ok":
                        break
                if st != "ok":
                    break
        if st != "ok":
            ck.violation(f"two spectra: {st} {d}", r)
            return
    if not n:
        raise vlib.MachineryError("expectations missing")


def run(ck):
    logging.getLogger("seyfert").setLevel(logging.CRITICAL)
    inv = ["Symmetric", "Exact", "Seen", "Least", "Bounded", "Blank", "Rows"]
    res = ck.model("CompareMC", vlib.cfg_text("Spec", {"Deep": "TRUE" if ck.thorough else "FALSE"}, inv, properties=["Monotone", "Filed"], deadlock=False), timeout=1200)
    replay(ck, [p for t, p in res.prints if t == "T"])
    if ck.viol:
        return
    rng, traces = ck.rng, []
    for i in range(ck.budget(120, 900)):
        tmp = Path(tempfile.mkdtemp(prefix="p26_"))
        try:
            kind = ["pads", "diffs", "runs", "figures", "loading"][i % 5]
            tr = pads(rng) if kind == "pads" else globals()[kind](ck, rng, tmp)
            plt.close("all")
            if ck.viol:
                return
            traces.append(tr)
        finally:
            shutil.rmtree(tmp)
    ck.validate("CompareTrace", traces, label="comparisons")
    ops = {e["op"] for t in traces for e in t}
    if len(ops) < 15:
        raise vlib.MachineryError(f"events missing: {ops}")
    if ck.viol:
        return

    def corrupt(op, f, what):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op for e in t)))
        f(next(e for e in t if e["op"] == op))
        ck.must_reject("CompareTrace", t, what)
    corrupt("pad", lambda e: e["got"].__setitem__(0, q(1, 977)), "another difference")
    corrupt("new", lambda e: e["mean"][0].__setitem__(0, q(1, 977)), "another mean")
    corrupt("grid", lambda e: e["got"][0][0][0].__setitem__(0, 77), "another line")
    corrupt("bars", lambda e: e["drawn"][0].__setitem__(0, q(1, 977)), "another bar")
    ck.assumptions += ["elements which differ only by their sign have no percentage difference", "a folder of runs holds those of one scenario"]
