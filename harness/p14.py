"""P14  observed spectra, covariance blocks and their layout  (Covariance.tla)."""
import copy
import itertools
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import numpy as np

import repo
import vlib
from harness.p12 import ALIAS, LONG, half
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.delta_cl import DeltaClCollection
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix, FisherEvaluator

INV = ["Symmetric", "SwapPermutes", "Blockwise", "StackOnce", "NoiseOnEqual"]
COUNT = itertools.count()
SHORT = ["ph", "wl", "sp", "vd"]


def whole(x):
    """nested lists of whole numbers (or a marker) of an array"""
    x = np.asarray(x, dtype=float)
    n = np.rint(x)
    n = np.where(np.abs(x - n) <= 1e-7 * np.maximum(1, np.abs(x)), n, -999999999)
    return n.astype(int).tolist()


def name(a, b):
    return f"{LONG[a - 1]}_{LONG[b - 1]}"


def ids(key):
    p, q = key.split("_")
    return LONG.index(p) + 1, LONG.index(q) + 1


class Weight:
    """the shot noise of a probe; nothing else of its weight function is used here"""

    def __init__(self, shot, factor, total):
        self._shot, self._total = np.array(shot, dtype=float) / factor, total
        self.shot_noise_factor = factor
        self.density = self
        self.ready = False

    def setUp(self):
        self.ready = True

    def evaluateSurfaceDensity(self):
        assert self.ready
        self.shot_noise = self._shot

    def computeTotalGalaxyNumber(self):
        assert self.ready
        return self._total


class Coll:
    """A real DeltaClCollection fed with the spectra of the specification."""

    def __init__(self, root, blocks, shot, times):
        self.root = Path(root)
        self.shot, self.times = shot, times
        self.fcfg = SimpleNamespace(survey_f_sky=1., shot_noise_sp_reduced=times[2] != 1, shot_noise_file=None,
                                    probe_configs={n: n for n in LONG}, present_probes=LONG)
        self.dc = DeltaClCollection(fcfg=self.fcfg, fisher_cfg=None)
        self.load(blocks)

    def load(self, blocks):
        coll = AngularCoefficientsCollector()
        for c in blocks:
            cl = AngularCoefficient(probe1=LONG[c["a"] - 1], probe2=LONG[c["b"] - 1])
            cl.l_bin_centers = np.array(c["l"]) / 2
            cl.l_bin_widths = 1 / np.array(c["w"], dtype=float) ** 2
            cl.c_lij = np.array(c["x"], dtype=float)
            coll.cl_dict[name(c["a"], c["b"])] = cl
        self.dc.loadFiducialCls(coll)

    def file(self):
        return self.root / f"f{next(COUNT)}.h5"

    def noise_file(self, noise):
        import h5py
        f = self.file()
        with h5py.File(f, "w") as hf:
            for e in noise:
                hf.create_dataset(name(e["a"], e["b"]), data=np.array(e["x"], dtype=float))
        return f

    def noise(self, noise):
        self.dc.loadShotNoiseFromFile(self.noise_file(noise))

    def evaluate(self, f, by_config=False):
        def weight(probe, probe_config=None):
            assert probe_config == probe
            i = LONG.index(probe)
            # numbers of galaxies whose ratio is the reduction of the spectroscopic noise
            return Weight(self.shot[i], 1 + i, 6. * (self.times[2] if i == 2 else 1))
        with repo.Patched((wfs, "weight_function_for_probe", weight)):
            if by_config and self.dc.forecast_config is not None:
                self.fcfg.survey_f_sky = 1 / f ** 2
                self.dc.evaluateSingleBlocks()
            else:
                self.dc.evaluateSingleBlocks(f_sky=1 / f ** 2)

    def reload(self):
        f = self.file()
        self.dc.saveToHDF5(f)
        self.dc = DeltaClCollection.fromHDF5(f)

    def _see(self, get):
        out = []
        for k, b in self.dc.single_blocks.items():
            a, c = ids(k)
            out.append({"a": a, "b": c, "l": [half(x) for x in b.l_bin_centers], "x": whole(get(b))})
        return out

    def delta(self):
        return self._see(lambda b: b.delta_c_lij)

    def cls(self):
        return self._see(lambda b: b.c_lij)

    def inverses(self):
        """the inverse kept with each auto-correlation is that of its matrix"""
        for k, b in self.dc.items():
            n = b.delta_c_lij.shape[1]
            if not np.allclose(np.matmul(b.inv_delta_c_lij, b.delta_c_lij), np.eye(n), atol=1e-6):
                return k
        return None

    def cov(self, keys):
        def go():
            cov = ClCovarianceMatrix(ClDataVector(keys))
            cov.evaluateAllBlocks(self.dc)
            cov.maskCovBlocksToCommonElls()
            cov.buildMatrix()
            l = np.asarray(cov.common_ells, dtype=float)
            return [half(x) for x in l], whole(cov.matrix * (2 * l + 1)[:, None, None]) if len(l) else []
        st, r = vlib.call(go)
        return {"out": st, "l": r[0] if st == "ok" else [], "m": r[1] if st == "ok" else []}

    def xc(self, ps):
        def go():
            l, m = fu.buildXCBlockMatrixForProbes(probes=[LONG[p - 1] for p in ps], matrix_dict=self.dc.delta_c_lij_array_dict,
                                                  l_dict=self.dc.ell_dict)
            return [half(x) for x in l], whole(m) if len(l) else []
        st, r = vlib.call(go)
        return {"out": st, "l": r[0] if st == "ok" else [], "m": r[1] if st == "ok" else []}


def keys_of(dv, rng=None):
    sp = [lambda a, b: (ALIAS[a - 1], ALIAS[b - 1]), name, lambda a, b: SHORT[a - 1] + SHORT[b - 1]]
    s = rng.choice(sp) if rng else sp[0]
    return [s(a, b) for a, b in dv]


def dvec(blocks, dv, rng=None):
    d = {name(c["a"], c["b"]): c for c in blocks}
    dcoll = SimpleNamespace(ell_dict={k: np.array(c["l"]) / 2 for k, c in d.items()},
                            dc_lij_array_dict={k: np.array(c["x"], dtype=float) for k, c in d.items()})

    def go():
        l, v = FisherEvaluator(keys_of(dv, rng)).buildClDerivativeDataVector(dcoll)
        return [half(x) for x in l], whole(v) if len(l) else []
    st, r = vlib.call(go)
    return {"out": st, "l": r[0] if st == "ok" else [], "v": r[1] if st == "ok" else []}


def key(o):
    return vlib.json.dumps(o, sort_keys=True)


def same(xs, ys, fields=("a", "b", "l", "x")):
    f = lambda s: sorted(key({k: e[k] for k in fields}) for e in s)
    return f(xs) == f(ys)


SHOT = [[1, 2, 3], [4, 5, 6], [7, 8, 9], [1, 1, 1]]
TIMES = [1, 1, 3, 1]


def cut(shot, blocks):
    nb = {}
    for c in blocks:
        nb[c["a"]], nb[c["b"]] = len(c["x"][0]), len(c["x"][0][0])
    return [s[:nb.get(i + 1, 1)] for i, s in enumerate(shot)]


def replay(ck, trans, root):
    canon = lambda s: key({k: sorted(map(key, v)) if isinstance(v, list) else v for k, v in s.items()})
    for t in trans:
        t["pre"], t["post"] = {**t["pre"], "_": canon(t["pre"])}, {**t["post"], "_": canon(t["post"])}
    init = [{"_": x} for x in {t["pre"]["_"] for t in trans if not t["pre"]["cl"]}]
    n = 0
    for w in vlib.walks(trans, init=init, pre=lambda t: {"_": t["pre"]["_"]}, post=lambda t: {"_": t["post"]["_"]}, max_len=40):
        c = None
        for t in w:
            act, post = t["act"], t["post"]
            n += 1
            ck.s2i += 1
            if act[0] == "load":
                c = Coll(root, post["cl"], cut(SHOT, post["cl"]), TIMES)
                continue
            st, e = vlib.call(c.noise, post["noise"]) if act[0] == "file" else vlib.call(c.evaluate, act[1], bool(n % 2))
            data = {"world": post["w"], "walk": [x["act"] for x in w]}
            if st != "ok":
                return ck.violation(f"{act}: {st} {e}", data)
            if post["delta"] and not same(c.delta(), post["delta"]):
                return ck.violation(f"world {post['w']} after {act}: observed spectra {c.delta()}, specification {post['delta']}", data)
            for e in t["cov"]:
                got = c.cov(keys_of(e["dv"]))
                if got["out"] != "ok" or got["l"] != e["l"] or got["m"] != e["m"]:
                    return ck.violation(f"covariance of {keys_of(e['dv'])} in world {post['w']}: {got}, specification {e['l']} {e['m']}", data)
            if n % 5 == 0 and post["delta"]:
                c.reload()
    ck.sample({"steps_replayed": n})


# ------------------------------------------------------------------ recorded executions
def rand_blocks(rng, P, nb, grids, drop=0, spd=True):
    out = []
    for a, b in itertools.combinations_with_replacement(P, 2):
        if rng.random() < .5:
            a, b = b, a
        l = [x for x in grids[a] if x in grids[b]]
        x = [[[rng.randint(-9, 9) for _ in range(nb[b])] for _ in range(nb[a])] for _ in l]
        if a == b:
            for m in x:
                for i in range(nb[a]):
                    for j in range(i):
                        m[i][j] = m[j][i]
                    if spd:
                        m[i][i] = 60 + rng.randint(0, 20)
        out.append({"a": a, "b": b, "l": l, "w": [1 + (v % 2) + (v % 3 == 0) for v in l], "x": x})
    rng.shuffle(out)
    return out[drop:]


def rand_world(rng):
    P = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 2, 3, 3, 4]))
    nb = {p: rng.choice([1, 1, 2, 2, 3]) for p in P}
    base = sorted(rng.sample(range(2, 60), rng.randint(1, 4)))
    grids = {}
    for p in P:
        own = set(base if rng.random() < .5 else rng.sample(base, rng.randint(1, len(base)))) | {base[0]}
        grids[p] = sorted(own | set(rng.sample(range(2, 60), rng.choice([0, 0, 1, 2]))))
    return P, nb, grids


def rand_dv(rng, P):
    pairs = [(a, b) for a in P for b in P]
    dv, seen = [], set()
    for a, b in rng.sample(pairs, min(len(pairs), rng.choice([1, 1, 2, 2, 3, 4, 6]))):
        if frozenset((a, b)) not in seen:
            seen.add(frozenset((a, b)))
            dv.append([a, b])
    return dv


def record(rng, root):
    P, nb, grids = rand_world(rng)
    shot = [[rng.randint(1, 9) for _ in range(nb.get(p, 1))] for p in (1, 2, 3, 4)]
    # the spectroscopic noise is reduced only where there is a photometric sample to compare with
    times = [1, 1, rng.choice([1, 2, 3]) if 1 in P else 1, 1]
    blocks = rand_blocks(rng, P, nb, grids, drop=1 if rng.random() < .15 else 0)
    if not blocks:
        blocks = rand_blocks(rng, P, nb, grids)
    c = Coll(root, blocks, shot, times)
    ev = [{"op": "load", "blocks": blocks, "out": "ok"}]
    done = False
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["file", "evaluate", "evaluate", "cov", "cov", "xc", "reload", "dvec"])
        if not done and op in ("cov", "xc", "reload"):
            op = "evaluate"
        if op == "file":
            ns = [{"a": e["a"], "b": e["b"], "x": [[rng.randint(0, 9) if e["a"] == e["b"] and i == j else 0 for j in range(nb[e["b"]])]
                                                   for i in range(nb[e["a"]])]} for e in blocks]
            st, _ = vlib.call(c.noise, ns)
            ev.append({"op": "file", "noise": ns, "out": st})
        elif op == "evaluate":
            f = rng.choice([1, 2, 3])
            st, e = vlib.call(c.evaluate, f, rng.random() < .5)
            ev.append({"op": "evaluate", "f": f, "shot": shot, "times": times, "out": st if st != "ok" or c.inverses() is None else "inverse",
                       "delta": c.delta() if st == "ok" else [],
                       "autos": [LONG.index(k) + 1 for k in c.dc.keys()] if st == "ok" else []})
            done = st == "ok"
        elif op == "reload":
            c.reload()
            ev.append({"op": "reload", "delta": c.delta(), "cl": c.cls()})
        elif op == "cov":
            dv = rand_dv(rng, P)
            ev.append({"op": "cov", "dv": dv, **c.cov(keys_of(dv, rng))})
            if rng.random() < .3:
                ev.append({"op": "reload", "delta": c.delta(), "cl": c.cls()})      # nothing changed by reading
        elif op == "dvec":
            der = rand_blocks(rng, P, nb, grids, spd=False)
            dv = rand_dv(rng, P)
            ev.append({"op": "dvec", "dv": dv, "blocks": [{k: e[k] for k in "ablx"} for e in der], **dvec(der, dv, rng)})
        elif len(blocks) == len(P) * (len(P) + 1) // 2:
            ps = rng.sample(P, rng.randint(1, len(P)))
            ev.append({"op": "xc", "ps": ps, **c.xc(ps)})
    return ev


def run(ck):
    consts = {"MaxLen": ck.budget("2", "3")}
    ck.model("CovarianceMC", vlib.cfg_text("Spec", consts, INV, view="View"), workers=8)
    trans = ck.graph("CovarianceMC", vlib.cfg_text("Spec", consts, [], view="View", action_constraints=["Emit"]))
    if {"load", "file", "evaluate"} != {t["act"][0] for t in trans}:
        raise vlib.MachineryError("CovarianceMC: some action never taken")
    root = Path(tempfile.mkdtemp(prefix="p14_"))
    try:
        replay(ck, trans, root)
        traces = []
        for _ in range(ck.budget(250, 3000)):
            traces.append(record(ck.rng, root))
            for f in root.iterdir():
                f.unlink()
    finally:
        shutil.rmtree(root)
    ck.validate("CovarianceTrace", traces, label="covariance", batch=125)
    for op, what in (("cov", "m"), ("dvec", "v"), ("xc", "m")):
        t = next(t for t in traces if any(e["op"] == op and e["out"] == "ok" and e["l"] for e in t))
        bad = copy.deepcopy(t)
        e = next(e for e in bad if e["op"] == op and e["out"] == "ok" and e["l"])
        x = e[what][0]
        while isinstance(x[0], list):
            x = x[0]
        x[-1] += 1
        ck.must_reject("CovarianceTrace", bad, f"an element of {op}")
    ck.assumptions += ["whole-number spectra, noise and 1/sqrt(width*sky), for which floating point is exact up to the final division by the "
                       "number of modes; the shot noise of each probe is supplied by a stand-in for its weight function"]
