"""P13  Fisher matrices of data vectors  (Combined.tla)."""
import copy
import itertools
import json
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path
from types import SimpleNamespace

import numpy as np

import hdfstore
import ratsim
import vlib
from harness.p12 import ALIAS, LONG, half
from harness.p14 import SHORT, keys_of, name
from harness.p15 import frac
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
from seyfert.fisher.fisher_evaluator import FisherEvaluator
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import fisher_core

INV = ["Labels", "SymmetricF", "OrderFree", "Positive", "Once", "UncorrelatedAdd"]
FIXED = ["Omm", "Omb"]            # parameters of the forecast that are not free


def brief(dv):
    return "_".join(SHORT[a - 1] + SHORT[b - 1] for a, b in dv)


def entry(v):
    f = frac(v)
    return [f.numerator, f.denominator] if f is not None else [-999, 7]


def entries(df):
    a = df.to_numpy()
    return [{"p": p, "q": q, "v": entry(a[i, j])} for i, p in enumerate(df.index) for j, q in enumerate(df.columns)]


def derivatives(der):
    return {p: SimpleNamespace(ell_dict={name(e["a"], e["b"]): np.array(e["l"]) / 2 for e in bl},
                               dc_lij_array_dict={name(e["a"], e["b"]): np.array(e["x"], dtype=float) for e in bl})
            for p, bl in der.items()}


class World:
    """Observed spectra and derivatives of the specification, as the Fisher stage receives them."""

    def __init__(self, w, root, order=None, kinds=None):
        self.dir = Path(tempfile.mkdtemp(dir=root))
        self.out = self.dir / "fishers"
        self.out.mkdir()
        self.ws = SimpleNamespace(auto_f_ells_file=self.dir / "auto_fisher_of_ells.h5")
        self.dc = DeltaClCollection()
        for e in w["S"]:
            d = DeltaCl(name="x")
            d.l_bin_centers = np.array(e["l"]) / 2
            d.delta_c_lij = np.array(e["x"], dtype=float)
            self.dc.single_blocks[name(e["a"], e["b"])] = d
        self.der = derivatives(w["der"])
        self.pars = PhysicalParametersCollection()
        names = order or list(w["cosmo"]) + list(w["nuis"])
        for p in names + FIXED:
            if p in w["nuis"]:
                q = PhysicalParameter(name=p, fiducial=1., kind=PhysicalParameter.NUISANCE_PAR_STRING, probe=LONG[w["nuis"][p] - 1],
                                      is_free_parameter=True)
            else:
                q = PhysicalParameter(name=p, fiducial=1., kind=PhysicalParameter.COSMO_PAR_STRING,
                                      is_free_parameter=p in w["cosmo"])
            self.pars[p] = q
        # a nuisance parameter that is not free, of a probe in use
        self.pars["bfix"] = PhysicalParameter(name="bfix", fiducial=1., kind=PhysicalParameter.NUISANCE_PAR_STRING,
                                              probe=LONG[0], is_free_parameter=False)
        self.names = {}

    def stage(self, dvs):
        for dv in dvs:
            self.names[f"fisher_{brief(dv)}.hdf5"] = [list(p) for p in dv]
        before = {p.name: p.read_bytes() for p in self.out.iterdir()}
        st, r = vlib.call(fisher_core.compute_and_save_fishers, [brief(dv) for dv in dvs], self.out, self.ws, self.pars, self.dc, self.der)
        after = sorted(p.name for p in self.out.iterdir())
        if any(p not in after or (self.out / p).read_bytes() != before[p] for p in before):
            st = "an existing matrix was changed"
        mats = []
        for p in after:
            if p not in before:
                F = FisherMatrix.fromHDF5(self.out / p)
                mats.append({"dv": self.names[p], "rows": list(F.matrix.index), "cols": list(F.matrix.columns),
                             "cosmo": sorted(F.cosmological_parameters), "nuis": sorted(F.nuisance_parameters), "m": entries(F.matrix)})
        if st == "ok" and [f.name for f in r] != [f"[{'+'.join(fs(a, b) for a, b in m)}]" for m in fresh(dvs, before)]:
            st = f"returned {[f.name for f in r]}"
        return st, [self.names[p] for p in after], mats

    def forget(self):
        if self.ws.auto_f_ells_file.exists():
            self.ws.auto_f_ells_file.unlink()

    def remove(self, dv):
        (self.out / f"fisher_{brief(dv)}.hdf5").unlink()

    def ell(self, dv, rng, der=None):
        """contributions per multipole, in memory; der: derivatives other than the world's, for the data vector itself"""
        ev = FisherEvaluator(keys_of(dv, rng))
        auto = {}
        if not ev.data_vector.is_single_autocorrelation:
            for a in {a for a, b in dv if a == b}:
                auto[ALIAS[a - 1]] = FisherEvaluator(keys_of([[a, a]], rng)).computeFisherMatrix(self.pars, self.der, self.dc, return_f_ell=True)[1]
        return ev.computeFisherMatrix(self.pars, der or self.der, self.dc, return_f_ell=True, auto_f_ells=auto)

    def close(self):
        shutil.rmtree(self.dir)


def fs(a, b):
    return ALIAS[a - 1] if a == b else f"XC({ALIAS[a - 1]},{ALIAS[b - 1]})"


def fresh(dvs, before):
    out, done = [], {n for n in before}
    for dv in dvs:
        n = f"fisher_{brief(dv)}.hdf5"
        if n not in done:
            done.add(n)
            out.append(dv)
    return out


def matrix_ok(got, want):
    """an observed matrix against the elements given by the specification"""
    exp = {(e["p"], e["q"]): Fraction(*e["v"]) for e in want}
    obs = {(e["p"], e["q"]): Fraction(*e["v"]) for e in got["m"]}
    if set(exp) != set(obs):
        return f"labels {sorted(obs)}, specification {sorted(exp)}"
    for k in exp:
        if abs(obs[k] - exp[k]) > Fraction(1, 10 ** 7) * (1 + abs(exp[k])):
            return f"element {k} is {float(obs[k])}, specification {float(exp[k])}"
    return None


def replay(ck, trans, worlds, root):
    f = {(w["w"], json.dumps(x["dv"])): x["m"] for w in worlds.values() for x in w["f"]}
    norm = lambda s: {"w": s["w"], "rec": sorted(s["rec"]), "files": sorted(s["files"])}
    for t in trans:
        t["pre"], t["post"] = norm(t["pre"]), norm(t["post"])
    n = 0
    init = [{"w": k, "rec": [], "files": []} for k in worlds]
    for wi, walk in enumerate(vlib.walks(trans, init=init, max_len=60)):
        w = worlds[walk[0]["pre"]["w"]]
        names = list(w["cosmo"]) + list(w["nuis"])
        W = World(w, root, order=names if wi % 2 else names[::-1])
        for t in walk:
            n += 1
            ck.s2i += 1
            act = t["act"]
            data = {"world": w["w"], "walk": [x["act"] for x in walk]}
            if act[0] == "stage":
                st, files, mats = W.stage(act[1])
                if (st == "ok") != (t["out"] == "ok") or sorted(files) != t["post"]["files"]:
                    return ck.violation(f"world {w['w']}: after {t['pre']}, computing {[brief(d) for d in act[1]]}: {st}, files {files}; "
                                        f"specification {t['out']} {t['post']['files']}", data)
                for m in mats:
                    bad = matrix_ok(m, f[w["w"], json.dumps(m["dv"])])
                    if bad:
                        return ck.violation(f"world {w['w']}, Fisher matrix of {brief(m['dv'])} computed after {t['pre']}: {bad}", data)
            elif act[0] == "forget":
                W.forget()
            else:
                W.remove(act[1])
        W.close()
    ck.sample({"stage_runs_replayed": n})


# ------------------------------------------------------------------ recorded executions
def det1(rng, n, plain):
    L = [[rng.choice([0, 0, 1, -1]) if j < i and not plain else int(i == j) for j in range(n)] for i in range(n)]
    s = [rng.choice([1, 1, 2]) if plain else 1 for _ in range(n)]
    return [[sum(s[k] * L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def contribution(S, der, ps, dv, l):
    """Combined.tla's Contribution, only to find out whether TLC's integers and the comparison of floats can represent it"""
    def val(B, a, b, i, j):
        for e in B:
            if (e["a"], e["b"]) == (a, b):
                return e["x"][e["l"].index(l)][i][j]
        for e in B:
            if (e["b"], e["a"]) == (a, b):
                return e["x"][e["l"].index(l)][j][i]
    nb = {}
    for e in S:
        nb[e["a"]], nb[e["b"]] = len(e["x"][0]), len(e["x"][0][0])
    st = [(a, b, i, j) for a, b in dv for j in range(nb[b]) for i in range(j + 1 if a == b else nb[a])]
    n = len(st)
    m = {}
    for r, (A, B, i, j) in enumerate(st):
        for c, (C, D, k, q) in enumerate(st):
            m[r, c] = (val(S, A, C, i, k) * val(S, B, D, j, q) + val(S, A, D, i, q) * val(S, B, C, j, k), 1)
        for p in ps:
            m[r, p] = m[p, r] = (val(der[p], A, B, i, j), 1)
    for p in ps:
        for q in ps:
            m[p, q] = (0, 1)
    keep = list(range(n)) + list(ps)
    for k in reversed(range(n)):
        keep.remove(k)
        if m[k, k][0] <= 0:
            raise ratsim.TooLarge
        m = {(p, q): ratsim.rsub(m[p, q], ratsim.rdiv(ratsim.rmul(m[p, k], m[k, q]), m[k, k])) for p in keep for q in keep}
    return {pq: ratsim.rmul((-(l + 1), 1), v) for pq, v in m.items()}


def fisher(w, dv):
    G = {frozenset((e["a"], e["b"])): set(e["l"]) for e in w["S"]}
    need = [frozenset((a, b)) for p in dv for q in dv for a in p for b in q]
    ls = set.intersection(*[G[x] for x in need])
    tot = {}

    def add(v, l):
        ps = list(w["cosmo"]) + [p for p in w["nuis"] if any(w["nuis"][p] in e for e in v)]
        c = contribution(w["S"], w["der"], ps, v, l)
        for k, x in c.items():
            tot[k] = ratsim.radd(tot.get(k, (0, 1)), x)
            if tot[k][1] > 3000 or abs(tot[k][0]) > 2 ** 28:
                raise ratsim.TooLarge
    for l in sorted(ls):
        add(dv, l)
    if not (len(dv) == 1 and dv[0][0] == dv[0][1]):
        for a, b in dv:
            if a == b:
                for l in sorted(G[frozenset((a, b))] - ls):
                    add([[a, a]], l)


def rand_world(rng):
    P = sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 2, 2, 3])))
    nb = {p: rng.choice([1, 1, 1, 2]) if len(P) < 3 else 1 for p in P}
    base = sorted(rng.sample(range(2, 12), rng.randint(1, 3)))
    grids = {p: sorted({base[0]} | {x for x in base if rng.random() < .6} | set(rng.sample(range(2, 14), rng.choice([0, 1, 2])))) for p in P}
    slots = [(p, i) for p in P for i in range(nb[p])]
    plain = rng.random() < .3
    ells = sorted(set().union(*grids.values()))
    pool = [det1(rng, len(slots), plain) for _ in range(2)]
    C = {l: rng.choice(pool) for l in ells}
    cosmo = rng.sample(["h", "w0", "wa"], rng.randint(1, 2))
    nuis = {}
    for i, p in enumerate(P):
        for k in range(rng.choice([0, 1, 1])):
            nuis[f"b{p}{k}"] = p
    S, der = [], {q: [] for q in cosmo + list(nuis)}
    for a, b in itertools.combinations_with_replacement(P, 2):
        if rng.random() < .5:
            a, b = b, a
        l = [x for x in grids[a] if x in grids[b]]
        S.append({"a": a, "b": b, "l": l, "x": [[[C[x][slots.index((a, i))][slots.index((b, j))] for j in range(nb[b])] for i in range(nb[a])]
                                               for x in l]})
        for q in der:
            a2, b2 = (a, b) if rng.random() < .5 else (b, a)
            zero = q in nuis and nuis[q] not in (a, b)
            x = [[[0 if zero else rng.randint(-3, 3) for _ in range(nb[b2])] for _ in range(nb[a2])] for _ in l]
            if a == b:
                for m in x:
                    for i in range(nb[a]):
                        for j in range(i):
                            m[i][j] = m[j][i]
            der[q].append({"a": a2, "b": b2, "l": l, "x": x})
    rng.shuffle(S)
    return {"P": P, "S": S, "der": der, "cosmo": cosmo, "nuis": nuis}


def rand_dv(rng, P):
    if rng.random() < .4:
        p = rng.choice(P)
        return [[p, p]]
    dv, seen = [], set()
    pairs = [(a, b) for a in P for b in P]
    for a, b in rng.sample(pairs, len(pairs))[:rng.randint(1, 6)]:
        if frozenset((a, b)) not in seen:
            seen.add(frozenset((a, b)))
            dv.append([a, b])
    return dv


def fits(w, dv):
    try:
        fisher(w, dv)
        return True
    except ratsim.TooLarge:
        return False


def elsewhere(rng, der):
    """the derivatives, some of them on other multipoles"""
    der = copy.deepcopy(der)
    ls = sorted({l for bl in der.values() for e in bl for l in e["l"]})
    how, l, m = rng.choice(["drop", "extra", "replace", "replace"]), rng.choice(ls), rng.choice([x for x in range(1, 16) if x not in ls])
    ps = rng.sample(sorted(der), rng.choice([1, len(der), len(der)]))
    for p in ps:
        for e in der[p]:
            at = dict(zip(e["l"], e["x"]))
            if not at or (how != "extra" and l not in at):
                continue
            like = at.get(l, e["x"][0])
            if how != "extra":
                del at[l]
            if how != "drop":
                at[m] = like
            e["l"] = sorted(at)
            e["x"] = [at[k] for k in e["l"]]
    return der


def record(rng, root):
    while True:
        w = rand_world(rng)
        dvs = [d for d in [rand_dv(rng, w["P"]) for _ in range(5)] + [[[p, p]] for p in w["P"]]]
        dvs = [json.loads(x) for x in dict.fromkeys(json.dumps(d) for d in dvs)]
        dvs = [d for d in dvs if fits(w, d)]
        if len(dvs) > 1:
            break
    names = w["cosmo"] + list(w["nuis"])
    W = World(w, root, order=rng.sample(names, len(names)))
    ev = [{"op": "world", "S": w["S"], "cosmo": w["cosmo"], "nuis": [{"p": p, "probe": v} for p, v in w["nuis"].items()],
           "der": [{"p": p, "blocks": b} for p, b in w["der"].items()]}]

    def contributions(dv, f):
        for l in f.index:
            ev.append({"op": "ell", "dv": dv, "l": [half(x) for x in f.index], "at": half(l),
                       "m": [{"p": p, "q": q, "v": entry(f.loc[l, (p, q)])} for p, q in f.columns]})

    for _ in range(rng.randint(2, 5)):
        op = rng.choice(["stage", "stage", "stage", "forget", "remove", "ell", "other"])
        have = [W.names[p.name] for p in W.out.iterdir()]
        if op == "stage":
            r = rng.sample(dvs, rng.randint(1, len(dvs)))
            if rng.random() < .6:
                r.sort(key=lambda d: not (len(d) == 1 and d[0][0] == d[0][1]))
            st, files, mats = W.stage(r)
            ev.append({"op": "stage", "dvs": r, "out": st, "files": files, "matrices": mats})
        elif op == "forget":
            W.forget()
            ev.append({"op": "forget"})
        elif op == "remove" and have:
            dv = rng.choice(have)
            W.remove(dv)
            ev.append({"op": "remove", "dv": dv})
        elif op == "ell":
            dv = rng.choice(dvs)
            if any(not fits(w, [[a, a]]) for a, b in dv if a == b):
                continue
            contributions(dv, W.ell(dv, rng)[1])
        elif op == "other":
            dv = rng.choice(dvs)
            if any(not fits(w, [[a, a]]) for a, b in dv if a == b):
                continue
            der = elsewhere(rng, w["der"])
            st, r = vlib.call(W.ell, dv, rng, derivatives(der))
            ev.append({"op": "other", "dv": dv, "der": [{"p": p, "blocks": [{"a": e["a"], "b": e["b"], "l": e["l"]} for e in b]} for p, b in der.items()], "out": st})
            if st == "ok":
                contributions(dv, r[1])
    W.close()
    return ev


def run(ck):
    hdfstore.install()
    nw = str(ck.budget(4, 6))
    props = ["NeverUnsupported", "WrittenStays"]
    ck.model("CombinedMC", vlib.cfg_text("Spec", {"NW": nw}, INV, properties=props, view="View"), workers=8)
    cfg = vlib.cfg_text("Spec", {"NW": ck.budget("2", "6")}, [], view="View", action_constraints=["Emit"],
                        constraints=[ck.budget("FewFiles", "MoreFiles")])
    r = ck.model("CombinedMC", cfg, workers=1)
    worlds = {}
    trans, seen = [], set()
    for t, p in r.prints:
        if t == "W":
            worlds[p["w"]] = p
        elif t == "T":
            k = json.dumps(p, sort_keys=True)
            if k not in seen:
                seen.add(k)
                trans.append(p)
    if {t["act"][0] for t in trans} != {"stage", "forget", "remove"} or {t["out"] for t in trans} != {"ok", "refused"}:
        raise vlib.MachineryError("CombinedMC: some action never taken")
    root = Path(tempfile.mkdtemp(prefix="p13_"))
    try:
        replay(ck, trans, worlds, root)
        traces = [record(ck.rng, root) for _ in range(ck.budget(120, 1500))]
    finally:
        shutil.rmtree(root)
    ck.validate("CombinedTrace", traces, label="Fisher stage", batch=60)
    outs = {e["out"] == "ok" for t in traces for e in t if e["op"] == "other"}
    if outs != {True, False}:
        raise vlib.MachineryError(f"derivatives on other multipoles: {outs}")
    t = next(t for t in traces if any(e["op"] == "other" and e["out"] != "ok" for e in t))
    bad = copy.deepcopy(t)
    next(e for e in bad if e["op"] == "other" and e["out"] != "ok")["out"] = "ok"
    ck.must_reject("CombinedTrace", bad, "derivatives on other multipoles accepted")
    hit = lambda e: e["op"] == "stage" and any(len(m["dv"]) > 1 for m in e["matrices"])
    t = next(t for t in traces if any(hit(e) for e in t))
    bad = copy.deepcopy(t)
    m = next(m for e in bad if hit(e) for m in e["matrices"] if len(m["dv"]) > 1)
    m["m"][0]["v"][0] += m["m"][0]["v"][1]
    ck.must_reject("CombinedTrace", bad, "an element of a combined Fisher matrix")
    ck.assumptions += ["whole-number observed spectra and derivatives, so that every contribution is a rational with a small denominator; "
                       "floats are compared to them within 1e-9",
                       "pandas' HDFStore is replaced by a stand-in (pytables is not installed)"]
