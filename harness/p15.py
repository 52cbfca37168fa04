"""P15  algebra of Fisher matrices  (FisherAlgebra.tla, Rational.tla)."""
import copy
import itertools
from fractions import Fraction
from math import gcd

import numpy as np
import pandas as pd

import vlib
from seyfert.fisher.fisher_matrix import FisherMatrix

INV = ["AllSymmetric", "Labelled", "SumCommutes", "SubUndoesAdd", "FixIsOnce", "MargOrder", "MargLoses"]
MAXDEN = 3000
COSMO = ["h", "w0", "wa", "Omm"]
NUIS = ["b1", "b2", "aIA"]


def frac(v, maxden=10 ** 5):
    """the rational a float stands for, or None"""
    v = float(v)
    if v == int(v) if np.isfinite(v) else False:
        return Fraction(int(v))
    if not np.isfinite(v):
        return None
    f = Fraction(v).limit_denominator(maxden)
    return f if abs(float(f) - v) <= 1e-9 * (1 + abs(v)) else None


def show(F):
    m = []
    a = F.matrix.to_numpy()
    for i, p in enumerate(F.matrix.index):
        for j, q in enumerate(F.matrix.columns):
            f = frac(a[i, j])
            m.append([p, q, f.numerator, f.denominator] if f is not None else [p, q, 0, 0])
    return {"name": F.name, "cosmo": sorted(F.cosmological_parameters), "nuis": sorted(F.nuisance_parameters),
            "m": sorted(m, key=str), "rows": list(F.matrix.index), "cols": list(F.matrix.columns)}


def canon(o):
    return [o["name"], sorted(o["cosmo"]), sorted(o["nuis"]), sorted(map(tuple, o["m"]), key=str)]


def build(rng, o, name=None):
    """a real matrix with these entries, the parameters in some order"""
    ps = list(o["cosmo"]) + list(o["nuis"])
    rng.shuffle(ps)
    e = {(p, q): n / d for p, q, n, d in o["m"]}
    df = pd.DataFrame([[e[p, q] for q in ps] for p in ps], index=ps, columns=ps, dtype=float)
    return FisherMatrix(matrix_df=df, name=name or o["name"], cosmological_parameters=rng.sample(o["cosmo"], len(o["cosmo"])),
                        nuisance_parameters=list(o["nuis"]))


def replay(ck, trans):
    init = []
    for t in trans:
        if t["pre"]["l"] == 1 and t["pre"] not in init:
            init.append(t["pre"])
    rng = ck.rng
    done = 0
    share = ck.budget(.4, 1)
    succ = {}
    key = lambda s: vlib.json.dumps(s, sort_keys=True)
    for t in trans:
        succ.setdefault(key(t["pre"]), []).append(t)

    def run(objs, s, hist):
        nonlocal done
        for t in succ.get(key(s), ()):
            if hist and rng.random() > share:
                continue
            o = {k: copy.deepcopy(F) for k, F in objs.items()}
            for k, F in objs.items():       # keep evaluated inverses: a copy drops them
                if F.inverse is not None:
                    o[k].evaluateInverse()
                if F.correlation is not None:
                    o[k].evaluateCorrelationMatrix()
            for F in o.values():            # errors may have been asked for before
                if rng.random() < .3 and np.linalg.eigvalsh(F.matrix.loc[F.matrix.index, F.matrix.index])[0] > 1e-6:
                    F.evaluateInverse()
            a = t["act"]
            st, e = vlib.call(apply, o, a)
            done += 1
            ck.s2i += 1
            got = {k: canon(show(F)) for k, F in o.items()}
            want = {k: canon(x) for k, x in t["post"]["h"].items()}
            if st != "ok" or got != want:
                bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
                ck.violation(f"after {hist + [a]}: {st}; (observed, specified): {bad}", {"history": hist + [a], "start": init[0]})
                return False
            if not run(o, t["post"], hist + [a]):
                return False
        return True
    for s in init:
        objs = {k: build(rng, x) for k, x in s["h"].items()}
        if not run(objs, s, []):
            return
    ck.sample({"replayed": [t["act"] for t in trans[:6]]})


def apply(o, a):
    k = a[0]
    x = o[a[1]]
    if k == "add":
        o["3"] = x + o[a[2]]
    elif k == "sub":
        o["3"] = x - o[a[2]]
    elif k == "copy":
        o["3"] = copy.deepcopy(x)
    elif k == "fix":
        x.fixParameters(a[2])
    elif k == "marg":
        x.marginalizeParameters(a[2], ret_copy=False)
    elif k == "margcopy":
        o["3"] = x.marginalizeParameters(a[2])
    elif k == "margnuis":
        o["3"] = x.marginalizeNuisance()
    elif k == "select":
        flag, x.marginalize_nuisance = x.marginalize_nuisance, False
        x.selectRelevantFisherSubMatrix()
        x.marginalize_nuisance = flag
    elif k == "prior":
        x.addPriorToParameters({a[2]: 2.0}, 0.25)      # sigma 1/2
    return o


# ------------------------------------------------------------------ recorded executions

def random_matrix(rng, i):
    cosmo = rng.sample(COSMO, rng.randint(1, 3))
    nuis = rng.sample(NUIS, rng.choice([0, 0, 1, 1, 2]))
    ps = cosmo + nuis
    while True:
        e = {}
        for p, q in itertools.combinations_with_replacement(ps, 2):
            e[p, q] = e[q, p] = rng.randint(2, 6) if p == q else rng.randint(-2, 2)
        a = np.array([[e[p, q] for q in ps] for p in ps], float)
        if np.linalg.eigvalsh(a)[0] > .3:
            break
    return {"name": f"[F{i}]", "cosmo": cosmo, "nuis": nuis, "m": [[p, q, n, 1] for (p, q), n in e.items()]}


def dens(F):
    d = 1
    for v in F.matrix.to_numpy().flat:
        f = frac(v)
        d = d * f.denominator // gcd(d, f.denominator) if f is not None else 10 ** 9
    return d


def exact(F):
    return all(float(v) == int(v) for v in F.matrix.to_numpy().flat)


def definite(F):
    m = F.matrix.loc[F.matrix.index, F.matrix.index].to_numpy(float)
    return np.linalg.eigvalsh((m + m.T) / 2)[0] > .05


def size(F):
    """bound on the minors of the matrix scaled to integers: what the exact oracle has to multiply"""
    return float(np.prod(np.diag(F.matrix.loc[F.matrix.index, F.matrix.index].to_numpy(float)) * dens(F)))


def small(F, limit=2e4):
    return definite(F) and size(F) <= limit


def sq(x):
    f = frac(float(x) ** 2, 10 ** 6)
    return [f.numerator, f.denominator] if f is not None else [0, 0]


def record(rng):
    objs, tr = {}, [{"op": "setup"}]
    n = 0

    def obs():
        return {k: show(F) for k, F in objs.items()}

    def make():
        nonlocal n
        n += 1
        o = random_matrix(rng, n)
        if objs and rng.random() < .3:          # the same matrix again, listed in another order
            o = show(objs[rng.choice(list(objs))])
        objs[str(n)] = build(rng, o)
        tr.append({"op": "make", "z": str(n), "given": [list(x) for x in o["m"]], "obs": obs()})
    make()
    make()
    touch = None           # a matrix to change next: those it was made from, or made of it, stay as they are
    for _ in range(rng.randint(4, 12)):
        if touch is None and len(objs) < 5 and rng.random() < .2:
            make()
            continue
        x = rng.choice(list(objs)) if touch is None else touch
        F = objs[x]
        ps = sorted(F.physical_parameters)
        op = rng.choice(["add", "add", "sub", "copy", "fix", "marg", "marg", "margnuis", "select", "restrict", "prior", "errors",
                         "errors", "unmarg", "corr", "eq", "invert", "margnuis"])
        if touch is not None:
            op, touch = rng.choice(["fix", "prior", "marg", "select"]), None
        ev = {"op": op, "x": x, "z": "", "set": []}
        z = str(rng.randint(1, 6))
        if op in ("add", "sub"):
            y = rng.choice(list(objs))
            if dens(F) * dens(objs[y]) > 200:
                continue
            ev["y"] = y
            st, r = vlib.call(lambda: F + objs[y] if op == "add" else F - objs[y])
            ev["z"] = z
            if st == "ok":
                objs[z] = r
        elif op == "copy":
            st, r = vlib.call(copy.deepcopy if rng.random() < .5 else FisherMatrix.copy, F)
            ev["z"] = z
            if st == "ok":
                objs[z] = r
        elif op in ("fix", "marg", "restrict"):
            k = rng.randint(1, len(ps) - 1) if len(ps) > 1 else 0
            s = rng.sample(ps, k)
            if rng.random() < .15:
                s = s + [rng.choice([p for p in COSMO + NUIS + ["unknown"] if p not in ps])]
            if (not s and op != "marg") or (op == "marg" and not small(F)):
                continue
            ev["set"] = s
            arg = rng.choice([list, set, tuple])(s)
            if op == "fix":
                st, r = vlib.call(F.fixParameters, arg)
            elif op == "marg":
                copy_ = rng.random() < .5
                st, r = vlib.call(F.marginalizeParameters, arg, ret_copy=copy_)
                if copy_:
                    ev["z"] = z
                    if st == "ok":
                        objs[z] = r
            else:
                ev["z"] = z
                c = [p for p in s if p not in F.nuisance_parameters]
                g = FisherMatrix(matrix_df=F.matrix, name=F.name, cosmological_parameters=c,
                                 nuisance_parameters=[p for p in s if p in F.nuisance_parameters])
                st, r = vlib.call(g.selectRelevantFisherSubMatrix)
                if st == "ok":
                    objs[z] = g
        elif op == "margnuis":
            if not small(F) or not F.cosmological_parameters:
                continue
            ev["flag"] = F.marginalize_nuisance = rng.random() < .7
            c = rng.random() < .5
            st, r = vlib.call(F.marginalizeNuisance, ret_copy=c)
            if c:
                ev["z"] = z
                if st == "ok":
                    objs[z] = r
        elif op == "select":
            if not F.cosmological_parameters:
                continue
            ev["flag"] = F.marginalize_nuisance = rng.random() < .5
            st, r = vlib.call(F.selectRelevantFisherSubMatrix)
        elif op == "prior":
            if dens(F) > 40:
                continue
            s = rng.sample(ps, rng.randint(1, len(ps)))
            if rng.random() < .15:
                s[rng.randrange(len(s))] = "unknown"
            fid = {p: rng.choice([.5, 1., 2., -1.]) for p in s}
            delta = rng.choice([.5, 1.])
            ev["set"] = s
            ev["w"] = [[(w := 1 / Fraction(fid[p] * delta) ** 2).numerator, w.denominator] for p in s]
            st, r = vlib.call(F.addPriorToParameters, fid, delta)
        elif op == "invert":
            if not definite(F):
                continue
            st, r = vlib.call(F.evaluateInverse)
            if st == "ok" and F.cosmological_parameters and rng.random() < .5:
                st, r = vlib.call(F.evaluateCorrelationMatrix)
        elif op == "errors":
            if not small(F):
                continue
            ev["only_cosmo"] = rng.random() < .6
            st, r = vlib.call(F.getMarginalizedErrors, fom=True, only_cosmo=ev["only_cosmo"])
            ev["sig2"] = [[p, *sq(r[p])] for p in r.index if p != "FoM"] if st == "ok" else []
            ev["fom2"] = sq(r["FoM"]) if st == "ok" and "FoM" in r.index else []
        elif op == "unmarg":
            if not definite(F):
                continue
            ev["only_cosmo"] = rng.random() < .6
            st, r = vlib.call(F.getUnmarginalizedErrors, only_cosmo=ev["only_cosmo"])
            ev["sig2"] = [[p, *sq(r[p])] for p in r.index] if st == "ok" else []
        elif op == "corr":
            if not small(F, 900) or not F.cosmological_parameters:
                continue
            if F.inverse is None:
                F.evaluateInverse()
            st, r = vlib.call(F.evaluateCorrelationMatrix)
            ev["c"] = []
            if st == "ok":
                for p in F.correlation.index:
                    for q in F.correlation.columns:
                        v = float(F.correlation.loc[p, q])
                        a, b = sq(v)
                        ev["c"].append([p, q, (-a if v < 0 and isinstance(a, int) else a), b])
        elif op == "eq":
            y = rng.choice(list(objs))
            if F.name == objs[y].name and F.physical_parameters == objs[y].physical_parameters and \
                    not (exact(F) and exact(objs[y])):
                continue        # equality of rounded numbers is not specified
            ev["y"] = y
            st, r = vlib.call(lambda: bool(F == objs[y]))
            ev["r"] = r if st == "ok" else st
        ev["out"] = st
        if ev["z"] and st == "ok" and x != ev["z"] and rng.random() < .6:
            touch = rng.choice([x, ev["z"]])
        if op not in ("errors", "unmarg", "corr", "eq"):
            ev["obs"] = obs()
        tr.append(ev)
        if any(dens(G) > MAXDEN or np.abs(G.matrix.to_numpy()).max(initial=0) > 400 for G in objs.values()):
            # too large for the exact oracle: the trace ends before this step
            tr.pop()
            break
        if op not in ("errors", "unmarg", "corr", "eq"):
            # the same question about the matrices that may have kept old derived quantities
            F = objs[x]
            if F.inverse is not None and small(F):
                st, r = vlib.call(F.getMarginalizedErrors, fom=True, only_cosmo=False)
                tr.append({"op": "errors", "x": x, "only_cosmo": False, "out": st,
                           "sig2": [[p, *sq(r[p])] for p in r.index if p != "FoM"] if st == "ok" else [],
                           "fom2": sq(r["FoM"]) if st == "ok" and "FoM" in r.index else []})
    return tr


def run(ck):
    cfg = lambda k: vlib.cfg_text("Spec", {"MaxOps": str(k)}, INV, properties=["OthersKept"], view="View")
    ck.model("FisherAlgebraMC", cfg(2), workers=8)
    trans = ck.graph("FisherAlgebraMC", vlib.cfg_text("Spec", {"MaxOps": "2"}, [], view="View", action_constraints=["Emit"]))
    kinds = {t["act"][0] for t in trans}
    if kinds != {"add", "sub", "fix", "marg", "margcopy", "margnuis", "select", "copy", "prior"}:
        raise vlib.MachineryError(f"operations never taken: {kinds}")
    if ck.thorough:
        ck.model("FisherAlgebraMC", cfg(3), workers=8, timeout=3000)
    replay(ck, trans)
    traces = [record(ck.rng) for _ in range(ck.budget(250, 3000))]
    ck.validate("FisherAlgebraTrace", traces, label="Fisher algebra")
    t = copy.deepcopy(next(t for t in traces if any(e["op"] == "add" for e in t)))
    e = next(e for e in t if e["op"] == "add")
    e["obs"][e["x"]]["m"][0][2] += 1
    ck.must_reject("FisherAlgebraTrace", t, "entry of an operand")
    t = copy.deepcopy(next(t for t in traces if any(e["op"] == "errors" for e in t)))
    e = next(e for e in t if e["op"] == "errors")
    e["sig2"][0][1] += 1
    ck.must_reject("FisherAlgebraTrace", t, "marginalised error")
    ck.assumptions += ["rows and columns list the parameters in the same order", "entries are small rationals, so that floats stand for them unambiguously (relative tolerance 1e-9)",
                       "matrices that are inverted are positive definite"]
