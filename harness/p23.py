"""P23  imported results are the numbers their files hold  (Import.tla)."""
import copy
import json
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd

import repo                                                                             # noqa: F401
import vlib
from seyfert.cosmology.c_ells import AngularCoefficientsCollector                       # noqa: E402
from seyfert.cosmology.cosmology import Cosmology                                       # noqa: E402
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection  # noqa: E402
from seyfert.file_io.ext_input import ISTInputReader                                    # noqa: E402
from seyfert.fisher.fisher_matrix import FisherMatrix                                   # noqa: E402
from seyfert.utils import filesystem_utils as fsu                                       # noqa: E402
from seyfert.utils import ist_comparison as ist                                         # noqa: E402

THEIRS = {"Ob": "Omb", "Ode": "OmDE", "Om": "Omm", "h": "h", "ns": "ns", "s8": "sigma8", "w0": "w0", "wa": "wa"}
EPS = ["6p3E-3", "1p3E-2", "1p9E-2", "2p5E-2", "3p8E-2", "5p0E-2", "1p0E-1"]
PH, SP = "PhotometricGalaxy", "SpectroscopicGalaxy"
PROBES = {"GCph": (PH, PH), "GCsp": (SP, SP), "XC": (PH, SP)}
SHAPES = {"GCph": (10, 10), "GCsp": (4, 4), "XC": (10, 4)}
BAD = {"n": 0, "d": 0}


def q(n, d=1):
    f = Fraction(n, d)
    return {"n": f.numerator, "d": f.denominator}


def fl(r):
    return r["n"] / r["d"]


def rat(x, most=80000):
    x = float(x)
    if not np.isfinite(x):
        return BAD
    f = Fraction(x).limit_denominator(most)
    return {"n": f.numerator, "d": f.denominator} if abs(x - f) <= 1e-12 * max(1, abs(x)) and abs(f.numerator) < 2 ** 31 else BAD


def ints(m):
    return [ints(x) for x in m] if np.ndim(m) else int(m) if float(m) == int(m) else -999999


def values(pars, f):
    return {n: rat(f(pars[n])) for n in THEIRS.values() if n in pars}


def collection(rng, P, flat):
    fixed = {"gamma": .55, "mnu": .06}
    d = {}
    names = list(P) + list(fixed)
    rng.shuffle(names)
    other = rng.choice(["Omm", "OmDE"])
    for n in names:
        d[n] = PhysicalParameter(name=n, fiducial=float(fl(P[n]) if n in P else fixed[n]), kind=PhysicalParameter.COSMO_PAR_STRING,
                                 is_free_parameter=n in P and not (flat and n == other))
    return PhysicalParametersCollection(data_dict=d, base_stem_disps=np.array([.1]), is_universe_flat=flat), other


def world(rng):
    flat = rng.random() < .6
    P = {"h": rng.choice([q(1, 2), q(2, 3), q(4, 5)]), "Omm": rng.choice([q(1, 4), q(1, 2)]), "OmDE": q(1, 2), "Omb": q(1, 16), "w0": q(-1), "wa": q(0),
         "ns": rng.choice([q(1), q(15, 16)]), "sigma8": rng.choice([q(4, 5), q(3, 4)])}
    if flat:
        P["OmDE"] = q(1 - Fraction(P["Omm"]["n"], P["Omm"]["d"]))
    return P, flat


def file_of(rng, skip):
    par = rng.choice([p for p in THEIRS if not (p in skip)])
    return {"par": par, "minus": rng.random() < .5, "eps": rng.choice([4, 6, 7] if par == "h" else range(1, 8))}


def text_of(f):
    return "Fiducial" if not f else f"{f['par']}_{'mn' if f['minus'] else 'pl'}_eps_{EPS[f['eps'] - 1]}"


def job_of(name):
    d, s = fsu.get_dvar_step_from_cosmology_jobdir_name(name)
    return {"dvar": d, "step": int(s)}


def files_of(rng, skip, n):
    files = [{}]
    for _ in range(n):
        f = file_of(rng, skip)
        if f not in files:
            files.append(f)
    return files


def spectra(ck, rng, tmp):
    P, flat = world(rng)
    coll, other = collection(rng, P, flat)
    reader = ISTInputReader(coll)
    tr = [{"op": "setup", "P": P, "flat": flat}]
    skip = [t for t, n in THEIRS.items() if flat and n == other]
    src = tmp / "src"
    src.mkdir()
    files = files_of(rng, skip, rng.randint(1, 5))
    tabs = {}
    for f in files:
        zs = sorted(rng.sample([q(0), q(1, 4), q(1, 2), q(1), q(2), q(5, 2)], rng.randint(2, 4)), key=fl, reverse=True)
        ks = sorted(rng.sample([q(1, 8), q(1, 2), q(3), q(10), q(1, 512)], rng.randint(1, 3)), key=fl)
        tab = [{"z": z, "k": k, "lin": q(rng.randint(1, 60)), "non": q(rng.randint(1, 60))} for z in zs for k in ks]
        name = text_of(f)
        tabs[name] = tab
        d = src if not f else src / rng.choice(["a", f["par"]])
        d.mkdir(exist_ok=True)
        fmt = rng.choice(["{:.8e}", "{!r}", "{:.10f}"])
        text = "\n".join("  ".join(fmt.format(fl(r[x])) for x in ("z", "k", "lin", "non")) for r in tab) + "\n"
        (d / f"pkz-{name}.txt").write_text(text)
        (d / "other.dat").write_text("not a spectrum")
    st, ex = vlib.call(reader.convertISTPowerSpectra, src, tmp / "dst", flat, "CPL")
    if st != "ok":
        ck.violation(f"spectra not converted: {st} {ex}", {"files": files, "P": P, "flat": flat})
        return None
    outs = sorted(p for d in tmp.glob("dst_*") for p in d.iterdir())
    tr.append({"op": "folder", "files": [f or [] for f in files], "jobs": [job_of(p.name) for p in outs]})
    by = {json.dumps(job_of(p.name)): p for p in outs}
    for f in files:
        job = {"dvar": THEIRS[f["par"]], "step": -f["eps"] if f["minus"] else f["eps"]} if f else {"dvar": "central", "step": 0}
        p = by.get(json.dumps(job))
        if p is None:
            continue            # reported by the folder event
        c = Cosmology.fromHDF5(p / "p_mm.h5")
        s = c.power_spectrum
        tr.append({"op": "pk", "file": f or [], "tab": tabs[text_of(f)], "job": job_of(p.name), "flat": bool(c.is_flat),
                   "current": values(c.params, lambda x: x.current_value), "fiducial": values(c.params, lambda x: x.fiducial),
                   "z": [rat(z) for z in c.z_grid],
                   "got": {"z": [rat(z) for z in s.z_grid], "k": [rat(k) for k in s.k_grid],
                           "lin": [[rat(x) for x in r] for r in s.lin_p_mm_z_k], "non": [[rat(x) for x in r] for r in s.nonlin_p_mm_z_k]}})
    tr.append({"op": "after", "current": values(coll, lambda x: x.current_value)})
    return tr


def pairs_of(rng, kind, f):
    n, m = SHAPES[kind]
    a = [[i + f, j + f] for i in range(n) for j in range(m) if kind == "XC" or i <= j]
    r = rng.random()
    if r < .25:
        rng.shuffle(a)
    if kind == "XC" and rng.random() < .5 or kind != "XC" and rng.random() < .25:
        a = [[j, i] for i, j in a]
    return a


def cl_text(rng, pairs, ls, rows):
    style = rng.choice(["{}-{}", "C{}-{}", "C({},{})", "{}_{}"])
    head = [style.format(*p) for p in pairs]
    lines = []
    if rng.random() < .3:
        h = len(head) // 2
        lines += ["# ell " + " ".join(head[:h]), "# " + " ".join(head[h:])]
    else:
        lines += ["# ell " + " ".join(head)]
    lines += [" ".join(str(x) for x in [l] + r) for l, r in zip(ls, rows)]
    return "\n".join(lines) + "\n"


def angular(ck, rng, tmp):
    P, flat = world(rng)
    coll, other = collection(rng, P, flat)
    reader = ISTInputReader(coll)
    tr = [{"op": "setup", "P": P, "flat": flat}]
    skip = [t for t, n in THEIRS.items() if flat and n == other]
    src = tmp / "cl"
    files = files_of(rng, skip, rng.randint(1, 2))
    odd = rng.random() < .25
    base = sorted(rng.sample(range(2, 3000), rng.randint(1, 3)))
    sizes, evs = [], []
    for kind in PROBES:
        (src / kind).mkdir(parents=True)
        for f in files:
            ls = base + [4000] if odd and rng.random() < .5 else base
            sizes.append(len(ls))
            pairs = pairs_of(rng, kind, rng.choice([0, 1]))
            rows = [[rng.randint(1, 99999) for _ in pairs] for _ in ls]
            (src / kind / f"Cij-{text_of(f)}.dat").write_text(cl_text(rng, pairs, ls, rows))
            evs.append((kind, f, {"op": "cl", "file": f or [], "pairs": pairs, "rows": rows, "ls": ls, "same": kind != "XC"}))
    st, ex = vlib.call(reader.convertSCameraDerivativesInput, src, tmp / "dst")
    tr.append({"op": "refuse", "sizes": sizes, "out": st})
    if st == "ok":
        outs = sorted(p for d in tmp.glob("dst_*") for p in d.iterdir())
        tr.append({"op": "folder", "files": [f or [] for f in files], "jobs": [job_of(p.name) for p in outs]})
        by = {json.dumps(job_of(p.name)): p for p in outs}
        for kind, f, e in evs:
            job = {"dvar": THEIRS[f["par"]], "step": -f["eps"] if f["minus"] else f["eps"]} if f else {"dvar": "central", "step": 0}
            p = by.get(json.dumps(job))
            if p is None:
                continue
            c = AngularCoefficientsCollector.fromHDF5(p / f"cl_{PH}_{SP}.h5").cl_dict["_".join(PROBES[kind])]
            e.update(job=job_of(p.name), gotls=ints(c.l_bin_centers), got=ints(c.c_lij))
            tr.append(e)
    # derivatives
    ders = tmp / "der"
    pars = rng.sample(list(THEIRS), rng.randint(1, 3))
    want = []
    for kind in rng.sample(list(PROBES), rng.randint(1, 3)):
        (ders / kind).mkdir(parents=True)
        for p in pars:
            pairs = pairs_of(rng, kind, rng.choice([0, 1]))
            rows = [[rng.randint(-99999, 99999) for _ in pairs] for _ in base]
            (ders / kind / f"dCijGGd{p}{rng.choice(['', '-all', '_N20-x'])}-{p}-Stef.dat").write_text(cl_text(rng, pairs, base, rows))
            want.append((kind, p, {"op": "der", "par": p, "pairs": pairs, "rows": rows, "same": kind != "XC"}))
    st, got = vlib.call(reader.readSCameraClDerivatives, ders)
    if st != "ok":
        ck.violation(f"derivatives not read: {st} {got}", [w[2] for w in want])
        return None
    tr.append({"op": "ders", "pars": pars, "got": list(got)})
    for kind, p, e in want:
        e["got"] = ints(got.get(THEIRS[p], {}).get("_".join(PROBES[kind]), []))
        tr.append(e)
    return tr


TITLES = ["WL", "GCph", "GCsp", "GCph_WL_XC", "GCsp_GCph_WL_XC"]


def fisher_event(rng, tmp, i):
    cols = rng.sample(["Omegam", "Omegab", "Omegade", "w0", "wa", "h", "ns", "sigma8", "gamma"], rng.randint(1, 5))
    b = rng.sample([f"b{i}" for i in range(1, 13)], rng.randint(0, 4)) + rng.sample(["aIA", "etaIA"], rng.randint(0, 2))
    cols += b
    rng.shuffle(cols)
    rows = [[rng.randint(-999, 999) for _ in cols] for _ in cols]
    for x in range(len(cols)):
        for y in range(x):
            rows[x][y] = rows[y][x] if rng.random() < .7 else rows[x][y]
    title = rng.choice(TITLES)
    sep = rng.choice([" ", "\t", "  "])
    fmt = rng.choice(["{}", "{:.6e}", "{:.4f}"])
    f = tmp / f"{rng.choice(['', 'x_'])}EuclidISTF_{title}_{rng.choice(['w0wa_flat_optimistic', 'w0_nonflat'])}{i}.txt"
    f.write_text(rng.choice(["", "", " "]) + sep.join(cols) + "\n" + "\n".join(sep.join(fmt.format(x) for x in r) for r in rows) + rng.choice(["", "\n"]))
    asked = rng.choice(["none", "none", "mine"])
    kw = {} if asked == "none" else {"name": asked}
    nuis = []
    if rng.random() < .5:
        ours = {c: {"Omegam": "Omm", "Omegab": "Omb", "Omegade": "OmDE"}.get(c, f"bgph{int(c[1:]) - 1}" if c[0] == "b" else c) for c in cols}
        nuis = [ours[c] for c in b]
        if nuis:
            kw.update(cosmological_parameters={ours[c] for c in cols if c not in b}, nuisance_parameters=set(nuis))
    st, F = vlib.call(FisherMatrix.from_ISTfile, f, **kw)
    e = {"op": "fisher", "cols": cols, "rows": rows, "title": title, "asked": asked, "out": st, "nuispars": nuis}
    if st == "ok":
        if rng.random() < .5:
            F.writeToFile(outfile=tmp / f"f{i}.hdf5")
            F = FisherMatrix.fromHDF5(tmp / f"f{i}.hdf5")
        e.update(names=list(F.matrix.columns), index=list(F.matrix.index), m=ints(F.matrix.to_numpy()), name=F.name,
                 cosmo=sorted(F.cosmological_parameters), nuis=sorted(F.nuisance_parameters))
    return e


def known_event(rng):
    names = list(THEIRS.values()) + rng.sample(["gamma", "mnu", "aIA", "bgph0", "bgph1", "etaIA"], rng.randint(0, 5))
    rng.shuffle(names)
    d = {n: PhysicalParameter(name=n, fiducial=.67 if n == "h" else .5, is_free_parameter=True, current_value=.67 if n == "h" else .5,
                              kind=PhysicalParameter.COSMO_PAR_STRING if n in (*THEIRS.values(), "gamma", "mnu") else PhysicalParameter.NUISANCE_PAR_STRING,
                              probe=None if n in (*THEIRS.values(), "gamma", "mnu") else PH) for n in names}
    r = ISTInputReader(PhysicalParametersCollection(data_dict=d, is_universe_flat=False))
    st, ex = vlib.call(r.checkISTParams)
    return {"op": "known", "names": names, "left": list(r.pars), "out": st}


def definite(rng, names):
    n = len(names)
    m = [[0] * n for _ in names]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = rng.randint(-2, 2)
        m[i][i] = rng.randint(5, 9)
    return m


def comparison(ck, rng, tmp):
    """the matrices of several codes, their errors and differences"""
    tr = []
    root = tmp / "codes"
    legend = {c: n for c, n in zip(rng.sample(["AA", "BB", "SY", "CF", "XQ"], 4), ["one", "two", "three", "SEYFERT"])}
    root.mkdir()
    (root / "legend.json").write_text(json.dumps(legend))
    names = ["h", "w0", "wa", "Omm"][:rng.randint(2, 4)]
    flat, scen = rng.random() < .5, rng.choice(["optimistic", "pessimistic"])
    want = {}
    for fl_ in (True, False):
        for sc in ("optimistic", "pessimistic"):
            d = root / ("Flat" if fl_ else "NonFlat") / sc
            d.mkdir(parents=True)
            for code in rng.sample(list(legend), rng.randint(1, 4)):
                m = definite(rng, names)
                cols = ["Omegam" if n == "Omm" else n for n in names]
                o = list(range(len(cols)))
                rng.shuffle(o)
                (d / f"fisher_matrices_results_baseline_GR_{code}{rng.choice(['', '_v2'])}.txt").write_text(
                    " ".join(cols[i] for i in o) + "\n" + "\n".join(" ".join(str(m[i][j]) for j in o) for i in o) + "\n")
                if fl_ == flat and sc == scen:
                    want[legend[code]] = m
    good = rng.random() < .85
    if not good:
        (root / ("Flat" if flat else "NonFlat") / scen / "fisher_matrices_results_baseline_GR_ZZ.txt").write_text("h w0\n1 0\n0 1\n")
    st, got = vlib.call(ist.read_ISTGCphFishers, root if rng.random() < .5 else str(root), flat, scen)
    e = {"op": "codes", "out": st, "good": good, "want": want}
    if st == "ok":
        e["got"] = {c: ints(f.reindex(index=names, columns=names).fillna(-7777).to_numpy()) for c, f in got.items()}
    tr.append(e)
    if st == "ok":
        st, errs = vlib.call(ist.compute_errs, got)
        if st != "ok":
            ck.violation(f"errors not computed: {st} {errs}", want)
            return None
        for c in want:
            sq = lambda kind: [rat(errs.loc[(kind, c), n] ** 2) if (kind, c) in errs.index else BAD for n in names]
            tr.append({"op": "errs", "names": names, "m": [[q(x) for x in r] for r in want[c]], "marg": sq("marg"), "unmarg": sq("unmarg")})
    codes = ["one", "two", "three", "four", "five"][:rng.randint(2, 5)]
    val = {k: {c: {n: q(rng.randint(1, 12), rng.choice([1, 2, 4])) for n in names} for c in codes} for k in ("marg", "unmarg")}
    df = pd.concat({k: pd.DataFrame({c: {n: fl(v) for n, v in r.items()} for c, r in val[k].items()}).T for k in val}, names=["kind", "code"])
    st, out = vlib.call(ist.compute_deltas_errs, df)
    if st != "ok":
        ck.violation(f"differences not computed: {st} {out}", val)
        return None
    for k in val:
        for n in names:
            tr.append({"op": "delta", "errs": [val[k][c][n] for c in codes], "mean": [rat(out.loc[("mean", k, c), n]) for c in codes],
                       "median": [rat(out.loc[("median", k, c), n]) for c in codes]})
    return tr


def close(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) <= 1e-9 * (1 + np.abs(b))))


def replay(ck, prints, tmp):
    rng = ck.rng
    kinds = set()
    for tag, r in sorted(prints, key=lambda p: json.dumps(p, sort_keys=True)):
        kinds.add(tag)
        ck.s2i += 1
        if tag == "P":
            m = pd.DataFrame([[fl(x) for x in row] for row in r["m"]], index=r["names"], columns=r["names"])
            fid = dict(zip(r["names"], map(fl, r["fid"])))
            before = m.copy()
            for what, f, names, want in (("sigma8 removed", ist.apply_T1_remove_sigma8, r["onames"], r["one"]),
                                         ("biases removed", ist.apply_T1_remove_sigma8_then_T2, r["tnames"], r["two"])):
                st, got = vlib.call(f, m, fid)
                want = np.array([[fl(x) for x in row] for row in want])
                if st != "ok" or set(got.index) != set(names) or set(got.columns) != set(names) or not close(got.loc[names, names].to_numpy(), want):
                    ck.violation(f"change of parameters, {what}: {st} {got}", r)
                    return
            if not m.equals(before):
                ck.violation("the change of parameters changed the matrix it was given", r)
                return
        if tag == "C":
            ls = [3, 70]
            rows = [[x + 1 for x in range(len(r["pairs"]))], [2 * x + 2 for x in range(len(r["pairs"]))]]
            f = tmp / "c.dat"
            f.write_text(cl_text(rng, r["pairs"], ls, rows))
            st, got = vlib.call(ISTInputReader().readSCameraClFile, f, symmetric=r["same"])
            want = np.array(r["m"], float)
            if st != "ok" or not close(got[0], np.array(ls)) or not close(got[1], np.array([want, 2 * want])):
                ck.violation(f"angular spectra of a table: {st} {got}", r)
                return
    if kinds != {"P", "C"}:
        raise vlib.MachineryError("expectations missing")


def run(ck):
    inv = ["OnePlace", "OwnUnits", "OnlyH"]
    res = ck.model("ImportMC", vlib.cfg_text("Spec", {"Deep": "TRUE" if ck.thorough else "FALSE"}, inv, properties=["Ends"], deadlock=False), timeout=1200)
    rng, traces = ck.rng, []
    for i in range(ck.budget(110, 900)):
        tmp = Path(tempfile.mkdtemp(prefix="p23_"))
        try:
            if i == 0:
                replay(ck, [(t, p) for t, p in res.prints if t in ("P", "C")], tmp)
            tr = [spectra, angular, comparison][i % 3](ck, rng, tmp)
            if ck.viol:
                return
            tr += [fisher_event(rng, tmp, j) for j in range(3)] + [known_event(rng)]
            traces.append(tr)
        finally:
            shutil.rmtree(tmp)
    ck.validate("ImportTrace", traces, label="imports")
    ops = {e["op"] for t in traces for e in t}
    if len(ops) < 13:
        raise vlib.MachineryError(f"events missing: {ops}")
    if ck.viol:
        return

    def corrupt(op, f, what):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op for e in t)))
        f(next(e for e in t if e["op"] == op))
        ck.must_reject("ImportTrace", t, what)
    corrupt("pk", lambda e: e["got"]["lin"][0].__setitem__(0, q(1, 7)), "another power")
    corrupt("cl", lambda e: e["got"][0][0].__setitem__(1, 3), "another angular spectrum")
    corrupt("fisher", lambda e: e["rows"][0].__setitem__(0, 5000), "another entry")
    corrupt("errs", lambda e: e["marg"].__setitem__(0, q(1, 977)), "another error")
    corrupt("delta", lambda e: e["median"].__setitem__(0, q(1, 977)), "another difference")
    ck.assumptions += ["tables of spectra list redshifts decreasing and wavenumbers increasing, as those of the IST do"]
