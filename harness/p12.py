"""P12  multipoles of probes, pairs and data vectors  (Multipoles.tla)."""
import copy
import itertools
import json
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import repo
import vlib
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix, FisherEvaluator

INV = ["Pairwise", "Partition"]
ALIAS = ["GCph", "WL", "GCsp", "V"]
LONG = ["PhotometricGalaxy", "Lensing", "SpectroscopicGalaxy", "Void"]
PAIRS = [(a, b) for a in range(1, 5) for b in range(1, 5)]


def half(x):
    """a number in half units, or -1 where it is not a whole number of them"""
    n = round(2 * float(x))
    return n if abs(2 * float(x) - n) < 1e-6 else -1


def rows(centres, widths):
    if len(centres) != len(widths):
        return [["lengths", len(centres), len(widths)]]
    return [[half(c), half(w)] for c, w in zip(centres, widths)]


class Stub:
    """a kernel that is already evaluated"""
    is_evaluated = True

    def __init__(self, p1, p2, key):
        self.probe1, self.probe2, self.obs_key, self.cosmology, self.z_grid = p1, p2, key, None, None


class Config:
    """One forecast configuration, edited in place in its JSON form and reloaded."""

    def __init__(self, root, noise=0., order=(0, 1, 2, 3)):
        self.root = Path(root)
        self.root.mkdir()
        self.noise = noise
        base = json.loads((vlib.REPO / "seyfert/data/test_data/test_fcfg.json").read_text())
        if "V" not in base["probes"]:
            v = json.loads((vlib.REPO / "seyfert/data/config_files/basic_forecast_config.json").read_text())
            base["probes"]["V"] = v["probes"]["V"]
        base["survey"]["shot_noise_file"] = None
        base["probes"] = {ALIAS[i]: base["probes"][ALIAS[i]] for i in order}
        for p in base["probes"].values():
            p["presence_flag"] = False
        self.json = base
        self.cfg = None
        self.n = 0

    def edit(self, p, g, noisy=()):
        d = self.json["probes"][ALIAS[p - 1]]
        d["presence_flag"] = g["k"] != "absent"
        if g["k"] == "lin":
            d.update(ell_external_filename=None, ell_log_selection=False, l_min=g["lo"], l_max=g["hi"])
        elif g["k"] == "log":
            hi = g["lo"] * g["b"] ** g["n"] if g["b"] > 1 else g["lo"]
            d.update(ell_external_filename=None, ell_log_selection=True, l_min=g["lo"], l_max=hi, log_l_number=g["n"])
        elif g["k"] == "file":
            self.n += 1
            name = f"ells_{p}_{self.n}.txt"
            with open(self.root / name, "w") as f:
                for i, (c, w) in enumerate(g["rows"]):
                    e = self.noise * (-1 if (i + p) % 2 else 1) * (i % 3)
                    f.write(f"{c / 2 * (1 + e)!r} {w / 2 * (1 - e)!r}\n")
            d["ell_external_filename"] = name

    def load(self):
        f = self.root / "fcfg.json"
        f.write_text(json.dumps(self.json))
        st, c = vlib.call(ForecastConfig, input_file=f, input_data_dir=self.root)
        self.cfg = c if st == "ok" else None
        return st

    def reload_probe(self, p):
        """the same edit seen by a configuration that is already loaded"""
        name = LONG[p - 1]
        if self.cfg is None or name not in self.cfg.probe_configs or not self.json["probes"][ALIAS[p - 1]]["presence_flag"]:
            return self.load()
        self.cfg.json_config.data["probes"][ALIAS[p - 1]] = copy.deepcopy(self.json["probes"][ALIAS[p - 1]])
        st, _ = vlib.call(self.cfg.probe_configs[name].loadFromJSONConfig, self.cfg.json_config)
        if st != "ok":
            self.cfg = None
        return st

    def present(self):
        return [LONG.index(n) + 1 for n in self.cfg.present_probes]

    def grid(self, p):
        pc = self.cfg[LONG[p - 1]]
        return rows(pc.l_bin_centers, pc.l_bin_widths)

    def pair(self, a, b):
        st, r = vlib.call(self.cfg.getMultipoleArraysForProbeComb, f"{LONG[a - 1]}_{LONG[b - 1]}")
        return (st, rows(*r)) if st == "ok" else (st, [])

    def spectrum(self, a, b):
        """the grid a spectrum takes from its configuration, at construction and when set up"""
        p1, p2 = LONG[a - 1], LONG[b - 1]

        def go():
            cl = AngularCoefficient(probe1=p1, probe2=p2, forecast_config=self.cfg)
            first = rows(cl.l_bin_centers, cl.l_bin_widths)
            cl.kernel = Stub(p1, p2, f"{p1}_{p2}")
            cl.evaluateLimberApproximatedPowerSpectrum = lambda: None
            cl.setUp()
            return first, rows(cl.l_bin_centers, cl.l_bin_widths)
        return vlib.call(go)

    def joint(self, S, rng=None):
        """FisherEvaluator's split of the multipoles of a data vector over the probes S"""
        S = list(S)
        keys = list(itertools.combinations_with_replacement(S, 2))
        if rng is not None:
            rng.shuffle(keys)
            keys = [k if rng.random() < .5 else k[::-1] for k in keys]
        dc = DeltaClCollection()
        auto = {}
        for a, b in itertools.combinations_with_replacement(S if rng is None else rng.sample(S, len(S)), 2):
            st, cl = vlib.call(lambda: AngularCoefficient(probe1=LONG[a - 1], probe2=LONG[b - 1], forecast_config=self.cfg))
            if st != "ok":
                return st, None, None
            d = DeltaCl(name="x")
            d.l_bin_centers, d.l_bin_widths = cl.l_bin_centers, cl.l_bin_widths
            d.delta_c_lij = np.ones((len(cl.l_bin_centers), 1, 1))
            dc.single_blocks[f"{LONG[a - 1]}_{LONG[b - 1]}"] = d
            if a == b:
                auto[a] = np.array(cl.l_bin_centers)

        def go():
            ev = FisherEvaluator([(ALIAS[a - 1], ALIAS[b - 1]) for a, b in keys])
            ev.covariance = ClCovarianceMatrix(ev.data_vector)
            ev.covariance.evaluateAllBlocks(dc)
            ev.covariance.maskCovBlocksToCommonElls()
            ev.covariance.buildMatrix()
            common = [half(x) for x in ev.ells]
            if ev.covariance.matrix.shape[0] != len(common):
                raise AssertionError("covariance and common multipoles differ in length")
            alone = {}
            zero = pd.DataFrame(0., index=["x"], columns=["x"])
            # one parameter per probe; its contribution at the i-th multipole is 2^i: the sum tells which are counted
            f = {ALIAS[a - 1]: pd.DataFrame({(f"p{a}", f"p{a}"): 2. ** np.arange(len(l))},
                                            index=pd.Index(l, name="ell")) for a, l in auto.items()}
            tot = ev.addInvolvedProbesContribution(zero, f)
            for a, l in auto.items():
                n = f"p{a}"
                v = int(tot.loc[n, n]) if n in tot.index else 0
                alone[a] = [half(x) for i, x in enumerate(l) if v >> i & 1] + ([-1] if v >> len(l) else [])
            return common, alone
        st, r = vlib.call(go)
        return (st, None, None) if st != "ok" else (st, *r)


def replay(ck, trans, init, root):
    n = 0
    for wi, w in enumerate(vlib.walks(trans, init=init, post=lambda t: {"g": t["post"]["g"]}, max_len=80)):
        c = Config(root / f"r{wi}", noise=(0., 3e-16)[wi % 2], order=[(0, 1, 2, 3), (2, 1, 0, 3)][wi // 2 % 2])
        for p, g in enumerate(w[0]["pre"]["g"], 1):
            c.edit(p, g)
        c.load()
        for t in w:
            _, p, g = t["act"]
            ck.s2i += 1
            n += 1
            before = None
            if c.cfg is not None:
                keep = [q for q in c.present() if q != p]
                before = {(a, b): c.pair(a, b) for a in keep for b in keep}
            c.edit(p, g)
            st = c.reload_probe(p) if n % 2 else c.load()
            post = t["post"]
            data = {"grids": post["g"], "edited": p, "in_place": bool(n % 2)}
            # a refused grid stays refused; in place, only the edited probe is read again
            if not post["ok"]:
                if n % 2 == 0 and st == "ok":
                    return ck.violation(f"a grid without multipoles was accepted: {post['g']}", data)
                c.cfg = None
                continue
            if st != "ok":
                return ck.violation(f"grids {post['g']} refused: {st}", data)
            for e in post["pairs"]:
                got = c.pair(e["a"], e["b"])
                if (got[0] == "ok") != (e["out"] == "ok") or got[0] == "ok" and got[1] != [list(r) for r in e["rows"]]:
                    return ck.violation(f"pair {ALIAS[e['a'] - 1]},{ALIAS[e['b'] - 1]} of grids {post['g']}: {got}, "
                                        f"specification {e['out']} {e['rows']}", data)
            if before:
                for k, v in before.items():
                    if c.pair(*k)[1] != v[1]:
                        return ck.violation(f"editing probe {ALIAS[p - 1]} changed the multipoles of the pair {k}: {v} -> {c.pair(*k)}", data)
            if post["alone"] and n % ck.budget(3, 1) == 0:
                conflict = {frozenset((e["a"], e["b"])) for e in post["pairs"] if e["out"] != "ok"}
                for S in {tuple(sorted(e["s"])) for e in post["alone"]}:
                    if any(frozenset(k) in conflict for k in itertools.combinations(S, 2)):
                        continue
                    st, common, alone = c.joint(S)
                    want = {e["p"]: sorted(e["l"]) for e in post["alone"] if tuple(sorted(e["s"])) == S}
                    if st != "ok" or alone != want:
                        return ck.violation(f"data vector over {[ALIAS[a - 1] for a in S]} of grids {post['g']}: probes used alone on "
                                            f"{alone} ({st}), specification {want}", data)
        shutil.rmtree(c.root)
    ck.sample({"edits_replayed": n})


# ------------------------------------------------------------------ recorded executions
def rand_grid(rng, shared):
    k = rng.random()
    if k < .12:
        return {"k": "absent"}
    if k < .35:
        lo = rng.randint(1, 12)
        return {"k": "lin", "lo": lo, "hi": max(1, lo + rng.choice([0, -1] + [1, 2, 3, 5, 9, 14] * 3))}
    if k < .6:
        b = rng.choice([2, 2, 3, 4])
        return {"k": "log", "lo": rng.randint(1, 9), "b": b, "n": rng.randint(1, 6 if b == 2 else 4)}
    # files drawn mostly from one pool of bins, so that they meet; in any order, sometimes with a repeated row
    rows_ = rng.sample(shared, rng.randint(1, len(shared)))
    rows_ += [[2 * rng.randint(1, 40) + 1, 2 * rng.randint(1, 3)] for _ in range(rng.choice([0, 0, 1, 3]))]
    seen, out = set(), []
    for c, w in rows_:
        if c not in seen:
            seen.add(c)
            out.append([c, w])
    if rng.random() < .2:
        out.append(list(rng.choice(out)))
    rng.shuffle(out)
    return {"k": "file", "rows": out}


def record(rng, root, n):
    shared = []
    for c in sorted(rng.sample(range(3, 90), rng.randint(3, 9))):
        shared.append([c, rng.choice([2, 2, 4, 6])])
    c = Config(root / f"t{n}", noise=rng.choice([0., 3e-16, 1e-13]), order=rng.sample(range(4), 4))
    ev = []
    for p in range(1, 5):
        g = rand_grid(rng, shared)
        c.edit(p, g)
        ev.append({"op": "edit", "p": p, "g": g})
    for _ in range(rng.randint(2, 5)):
        st = c.load()
        ev.append({"op": "load", "out": st, "present": c.present() if st == "ok" else []})
        if st == "ok":
            pr = c.present()
            ok = True
            for p in pr:
                ev.append({"op": "grid", "p": p, "rows": c.grid(p)})
            for a in pr:
                for b in pr:
                    st, r = c.pair(a, b)
                    ev.append({"op": "pair", "a": a, "b": b, "out": st, "rows": r})
                    ok &= st == "ok"
                    st, r = c.spectrum(a, b)
                    for x in (r if st == "ok" else [[]]):
                        ev.append({"op": "pair", "a": a, "b": b, "out": st, "rows": x})
            st, _ = vlib.call(c.cfg.checkProbesMultipoles)
            ev.append({"op": "check", "out": st})
            if ok and pr:
                S = rng.sample(pr, rng.randint(1, len(pr)))
                st, common, alone = c.joint(S, rng)
                if st == "ok":
                    ev.append({"op": "common", "s": S, "l": common})
                for p in S:
                    ev.append({"op": "alone", "s": S, "p": p, "out": st, "l": alone[p] if st == "ok" else []})
                for p in pr:                   # none of the queries changed a grid
                    ev.append({"op": "grid", "p": p, "rows": c.grid(p)})
        p, g = rng.randint(1, 4), rand_grid(rng, shared)
        c.edit(p, g)
        ev.append({"op": "edit", "p": p, "g": g})
    shutil.rmtree(c.root)
    return ev


def shipped(ck):
    """the multipole grids that come with the package, through the editor's settings"""
    cf = json.loads((vlib.REPO / "seyfert/data/config_files/basic_forecast_config.json").read_text())
    data = vlib.REPO / "seyfert/data/input_data"
    from seyfert.config.probe_config import ProbeConfig
    for name, lmax in (("wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt", 750),
                       ("wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt", 3000)):
        wl, ph = ProbeConfig("Lensing", input_data_dir=data), ProbeConfig("PhotometricGalaxy", input_data_dir=data)
        c = ForecastConfig()
        d = dict(cf["probes"]["GCph"], l_max=lmax)
        wl.l_bin_centers, wl.l_bin_widths = wl.getProbeMultipoleBinning(dict(cf["probes"]["WL"], ell_external_filename=name))
        ph.l_bin_centers, ph.l_bin_widths = ph.getProbeMultipoleBinning(d)
        c.probe_configs = {"Lensing": wl, "PhotometricGalaxy": ph}
        both = [vlib.call(c.getMultipoleArraysForProbeComb, k) for k in ("Lensing_PhotometricGalaxy", "PhotometricGalaxy_Lensing")]
        for st, r in both:
            if st != "ok" or len(r[0]) != 100 or not np.allclose(r[0], ph.l_bin_centers) or not np.allclose(r[1], ph.l_bin_widths):
                ck.violation(f"{name} and the photometric grid up to {lmax} share all the 100 bins of the latter; the pair gets "
                             f"{len(r[0]) if st == 'ok' else st}", {"file": name})
        ck.s2i += 2


def run(ck):
    ng = ck.budget(7, 12)
    consts = {"NP": "3", "NG": str(ng)}
    ck.model("MultipolesMC", vlib.cfg_text("Spec", consts, INV, properties=["EditLocal"], view="View"), workers=8)
    trans = ck.graph("MultipolesMC", vlib.cfg_text("Spec", {"NP": ck.budget("3", "3"), "NG": str(ck.budget(6, 9))}, [], view="View",
                                                   action_constraints=["Emit"]))
    ran = {e["out"] for t in trans for e in t["post"]["pairs"]}
    if ran != {"ok", "none", "conflict"}:
        raise vlib.MachineryError(f"MultipolesMC: outcomes {ran}")
    root = Path(tempfile.mkdtemp(prefix="p12_"))
    try:
        init = [t["pre"] for t in trans if len({json.dumps(g) for g in t["pre"]["g"]}) == 1][:1]
        shipped(ck)
        replay(ck, trans, init, root)
        traces = [record(ck.rng, root, i) for i in range(ck.budget(250, 3000))]
    finally:
        shutil.rmtree(root)
    ck.validate("MultipolesTrace", traces, label="configuration", batch=250)
    t = next(t for t in traces if any(e["op"] == "alone" and e["l"] for e in t))
    bad = copy.deepcopy(t)
    e = next(e for e in bad if e["op"] == "alone" and e["l"])
    e["l"] = e["l"][1:]
    ck.must_reject("MultipolesTrace", bad, "a multipole of a probe alone lost")
    t = next(t for t in traces if any(e["op"] == "pair" and len(e["rows"]) > 1 for e in t))
    bad = copy.deepcopy(t)
    e = next(e for e in bad if e["op"] == "pair" and len(e["rows"]) > 1)
    e["rows"][0][1] += 1
    ck.must_reject("MultipolesTrace", bad, "a width of a pair changed")
    ck.assumptions += ["grids whose centres and widths are whole numbers of half units (all linear grids, logarithmic grids of whole ratio, "
                       "files), with relative noise up to 1e-13; a file does not give two widths to one multipole"]
