"""P18  configuration editor, comparison and stage configurations  (Editor.tla)."""
import copy
import itertools
import json
import shutil
import tempfile
from pathlib import Path

import numpy as np

import repo
import vlib
from seyfert.config import main_config as mcfg
from seyfert.config.forecast_config import ForecastConfig, ForecastConfigEditor
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.utils import filesystem_utils as fsu

DATA = vlib.REPO / "seyfert/data"
SHIPPED = DATA / "config_files/basic_forecast_config.json"
FLAGS = ["gcph_minus_gcsp", "shot_noise_sp_reduced", "gcph_only_bins_in_spectro_range"]
OPTS = ["scenario", "n_sp_bins", *FLAGS]
# what the tokens of the specification stand for: only these values are the documented ones
GOOD = {"true": True, "false": False, "4": 4, "12": 12, "24": 24, "40": 40, "optimistic": "optimistic", "pessimistic": "pessimistic", "5": 5}
BAD = {"scenario": {"OPT": "Optimistic", "none": None, "bool": True, "empty": ""},
       "n_sp_bins": {"float": 4.0, "str": "12", "zero": 0, "minus": -4, "none": None, "bool": True, "list": [4], "5": 5, "13": 13},
       "flag": {"one": 1, "zero": 0, "str": "True", "none": None, "float": 1.}}


def value(k, tok):
    return GOOD[tok] if tok in GOOD else BAD["flag" if k in FLAGS else k][tok] if k in OPTS else True


def realise(o, order=None):
    keys = list(o)
    if order is not None:
        order.shuffle(keys)
    return {k: value(k, o[k]) for k in keys}


def token(v):
    return v if isinstance(v, str) else json.dumps(v)


def flat(d, path=""):
    if isinstance(d, dict) and d:
        out = {}
        for k, v in d.items():
            out.update(flat(v, f"{path}/{k}" if path else k))
        return out
    return {path: d}


def content(data):
    return {k: v for k, v in flat({k: v for k, v in data.items() if k != "metadata"}).items()}


def leaves(data):
    return {k: token(v) for k, v in content(data).items()}


def overlay(base, edits):
    return {**base, **{p: v for p, v in edits}}


class Shop:
    """Dictionaries of the caller, editors, and the directory of written files."""

    def __init__(self, root, rng):
        self.root, self.rng = Path(root), rng
        self.dicts, self.eds, self.names = {}, {}, {}

    def choose(self, d, o):
        self.dicts[d] = realise(o, self.rng)

    def mutate(self, d, k, tok):
        self.dicts[d][k] = value(k, tok)

    def make(self, e, d):
        st, ed = vlib.call(ForecastConfigEditor, self.dicts[d])
        if st == "ok":
            self.eds[e] = ed
        return st

    def apply(self, e):
        return vlib.call(self.eds[e].updateData)[0]

    def write(self, e, dated=False):
        sub = Path(tempfile.mkdtemp(dir=self.root))
        st, _ = vlib.call(self.eds[e].writeJSON, self.rng.choice([sub, str(sub)]), add_datetime=dated)
        fs = list(sub.iterdir())
        if st == "ok" and len(fs) != 1:
            return "files", None
        return st, (fs[0] if fs else None)


def norm(s):
    return json.loads(json.dumps(s))


def replay(ck, trans, root):
    base = leaves(json.loads(SHIPPED.read_text()))
    rng = ck.rng
    k = lambda s: json.dumps(s, sort_keys=True)
    succ = {}
    for t in trans:
        succ.setdefault(k(t["pre"]), []).append(t)
    empty = [s for s in succ if '"opts"' not in s and '"scenario"' not in s]
    if len(empty) != 1:
        raise vlib.MachineryError("initial state of the editor graph")
    names = {}          # files of all the walks
    for n in range(ck.budget(250, 3000)):
        s, shop, done = empty[0], Shop(root, rng), []
        shop.names = names
        while s in succ:
            t = rng.choice(succ[s])
            a, args = t["op"]["s"], t["op"]["a"]
            done.append([a, *args])
            ck.s2i += 1
            if a == "choose":
                shop.choose(args[0], t["post"]["dicts"][args[0] - 1])
            elif a == "mutate":
                shop.mutate(*args)
            elif a in ("make", "refuse"):
                st = shop.make(*args)
                if (st == "ok") != (a == "make"):
                    ck.violation(f"after {done}: options {shop.dicts[args[1]]} {'accepted' if st == 'ok' else 'refused: ' + st}, "
                                 f"which the specification does not", t)
                    return
            elif a == "apply":
                st = shop.apply(*args)
                if st != "ok":
                    ck.violation(f"after {done}: edit fails with {st}", t)
                    return
            else:
                st, f = shop.write(*args)
                if st != "ok":
                    ck.violation(f"after {done}: the configuration cannot be written: {st}", t)
                    return
                opts = next(x["o"] for x in [t["pre"]["eds"][args[0] - 1] and {"o": t["pre"]["eds"][args[0] - 1]["opts"]}])
                edits = next(w["edits"] for w in t["written"] if w["o"] == opts)
                if leaves(JSONForecastConfig(file=f).data) != overlay(base, edits):
                    ck.violation(f"after {done}: the written file is not the shipped configuration with the edits {edits}", t)
                    return
                if shop.names.setdefault(f.name, opts) != opts or any(o == opts and m != f.name for m, o in shop.names.items()):
                    ck.violation(f"after {done}: file name {f.name} does not identify the option set {opts} among {shop.names}", t)
                    return
                shutil.rmtree(f.parent)
            for i, x in enumerate(t["edits"], 1):
                if x["made"] == "yes" and leaves(shop.eds[i].config.data) != overlay(base, x["edits"]):
                    ck.violation(f"after {done}: editor {i} does not hold the shipped configuration with the edits {x['edits']}", t)
                    return
            s = k(t["post"])
        if leaves(json.loads(SHIPPED.read_text())) != base:
            raise vlib.MachineryError("the shipped configuration changed")
    ck.sample({"operations": done})


# ------------------------------------------------------------------ comparison of forecasts

PAR = {"a": {}, "value": {"fiducial": .71, "current_value": .71}, "free": {"is_free_parameter": False},
       "method": {"derivative_method": "analytic"}, "factor": {"stem_factor": 2.}}


def edit_list(pars, name, how):
    if how == "missing":
        pars[:] = [p for p in pars if p["name"] != name]
    else:
        next(p for p in pars if p["name"] == name).update(PAR[how])


class Forecasts:
    """Forecast configurations built from the fields of the specification."""

    def __init__(self, root, rng):
        self.dirs, self.rng, self.n, self.cache = [], rng, 0, {}
        for i in range(2):
            d = Path(root) / f"data{i}"
            d.mkdir()
            for f in DATA.joinpath("input_data").glob("*.h5"):
                shutil.copy(f, d)
            (d / "shot_noise").mkdir()
            for s in "ab":
                (d / "shot_noise" / f"noise_{s}.h5").touch()
            for f, rows in {"g1": "10 2\n12 2\n", "g1_copy": "10 2\n12 2\n", "g2": "10 2\n12 2\n14 2\n", "g3": "10 2\n13 4\n"}.items():
                (d / f"{f}.txt").write_text(rows)
            self.dirs.append(d)
        self.base = json.loads((DATA / "config_files/basic_forecast_config.json").read_text())

    def build(self, c):
        """c: the fields; anything that does not describe the forecast is drawn at random"""
        rng = self.rng
        j = copy.deepcopy(self.base)
        g = c["global"]
        j["survey"]["f_sky"] = {"a": .36, "b": .35}[g["f_sky"]]
        j["survey"]["shot_noise_file"] = None if g["noise"] == "none" else f"noise_{g['noise']}.h5"
        if g["noise"] == "none" and rng.random() < .3:
            del j["survey"]["shot_noise_file"]
        j["cosmology"]["flat"] = g["flat"] == "true"
        j["synthetic_opts"]["shot_noise_sp_reduced"] = g["reduced"] == "true"
        j["derivative_settings"]["base_stem_disps"] = {"a": [.01, .02], "b": [.01, .03]}[g["steps"]]
        edit_list(j["cosmology"]["parameters"], "h", g["par"])
        for name, p in j["probes"].items():
            f = c["probes"].get(name)
            p["presence_flag"] = bool(f) and f["present"] == "true"
            if not f:
                continue
            p["ell_external_filename"] = {"a": rng.choice(["g1.txt", "g1_copy.txt"]), "b": "g2.txt", "c": "g3.txt"}[f["grid"]]
            p["l_min"] = rng.choice([10, 20])          # unused with a file
            p["density_file"] = {"a": p["density_file"], "b": "voids_dndz_flagship_old.h5"}[f["density"]]
            p["specific_settings"] = {"a": p["specific_settings"], "b": {"include_IA": False}}[f["settings"]]
            if name == "WL":
                edit_list(p["extra_nuisance_parameters"], "aIA", f["extra"])
            else:
                p["bias_file"] = {"a": p["bias_file"], "b": "gcph_bias_constant.h5"}[f["bias"]]
                p["bias_derivative_method"] = {"a": "SteM", "b": "analytic"}[f["method"]]
                p["marginalize_bias_flag"] = f["marg"] == "false"
                if f["extra"] == "one":
                    p["extra_nuisance_parameters"] = [{"name": "x" + name, "fiducial": 1., "kind": "NuisanceParameter",
                                                       "is_free_parameter": True, "probe": p["long_name"]}]
        j["metadata"] = {"author": rng.choice(["me", "you"]), "creation_date": rng.choice(["now", "then"]), "version": "1"}
        self.n += 1
        d = rng.choice(self.dirs)
        f = d / f"fcfg{self.n}.json"
        f.write_text(json.dumps(j))
        r = ForecastConfig(input_file=f, input_data_dir=d, load_phys_params=True)
        f.unlink()
        return r

    def get(self, c):
        key = json.dumps(c, sort_keys=True)
        l = self.cache.setdefault(key, [])
        if len(l) < 2:
            l.append(self.build(c))
            return l[-1]
        return self.rng.choice(l)

    def compare(self, l, r):
        a, b = self.get(l), self.get(r)
        out = []
        for x, y in ((a, b), (b, a)):
            st, v = vlib.call(lambda: x == y)
            out.append(("same" if v else "different") if st == "ok" else st)
        st, v = vlib.call(lambda: a != b)
        return (*out, ("true" if v else "false") if st == "ok" else st)


def compare(ck, pairs, fs):
    if {p["same"] for p in pairs} != {"yes", "no"}:
        raise vlib.MachineryError("comparison pairs missing")
    ck.rng.shuffle(pairs)
    pairs.sort(key=lambda p: p["same"] == "yes")
    yes = [p for p in pairs if p["same"] == "yes"]
    no = [p for p in pairs if p["same"] == "no"]
    for p in yes[:ck.budget(400, 5000)] + no[:ck.budget(800, 9000)]:
        want = "same" if p["same"] == "yes" else "different"
        got = fs.compare(p["l"], p["r"])
        ck.s2i += 1
        if got != (want, want, "false" if want == "same" else "true"):
            diff = {k: (v, flat(p["r"])[k]) for k, v in flat(p["l"]).items() if flat(p["r"])[k] != v}
            ck.violation(f"forecasts differing in {diff}: specified {want}, == gives {got[0]} and {got[1]}, != gives {got[2]}", p)
            return
    ck.sample({"compared": len(pairs)})


# ------------------------------------------------------------------ recorded histories

def option_set(rng):
    o = {"scenario": rng.choice(["optimistic", "pessimistic"]), "n_sp_bins": rng.choice(["4", "12", "24", "40"]),
         **{f: rng.choice(["true", "false"]) for f in FLAGS}}
    if o["gcph_minus_gcsp"] == "true" and rng.random() < .7:
        o["gcph_only_bins_in_spectro_range"] = "false"
    r = rng.random()
    if r < .2:
        k = rng.choice(OPTS)
        o[k] = rng.choice(sorted(BAD["flag" if k in FLAGS else k]))
    elif r < .25:
        del o[rng.choice(OPTS)]
    elif r < .3:
        o[rng.choice(["gcph_minus_gcps", "l_max", ""])] = "true"
    return o


def shown(data, base):
    c = leaves(data)
    return {"at": {k: v for k, v in c.items() if k.startswith(("synthetic_opts", "probes"))},
            "changed": sorted(k for k in {*c, *base} if c.get(k) != base.get(k))}


def history(rng, root, length):
    base = leaves(json.loads(SHIPPED.read_text()))
    shop, opts, tr = Shop(root, rng), {}, []
    mine = {}
    pool = [option_set(rng) for _ in range(3)]
    for _ in range(length):
        r = rng.random()
        d, e = rng.randint(1, 3), rng.randint(1, 4)
        if r < .25 or not opts:
            opts[d] = dict(rng.choice(pool)) if rng.random() < .5 else option_set(rng)
            shop.choose(d, opts[d])
            tr.append({"op": "choose", "d": d, "opts": dict(opts[d])})
        elif r < .4:
            d = rng.choice(sorted(opts))
            k = rng.choice(sorted(opts[d]) or ["scenario"])
            o = option_set(rng)
            if k in o and k in OPTS:
                opts[d][k] = o[k]
                shop.mutate(d, k, o[k])
                tr.append({"op": "mutate", "d": d, "opts": dict(opts[d])})
        elif r < .6:
            d = rng.choice(sorted(opts))
            st = shop.make(e, d)
            tr.append({"op": "make", "e": e, "d": d, "out": st})
            if st == "ok":
                mine[e] = False
        elif mine:
            e = rng.choice(sorted(mine))
            if r < .75:
                tr.append({"op": "apply", "e": e, "out": shop.apply(e)})
                mine[e] = True
            elif r < .92:
                dated = rng.random() < .25
                st, f = shop.write(e, dated)
                ev = {"op": "write", "e": e, "out": st, "dated": "yes" if dated else "no", "name": "", "id": "", "readback": "", "file": {"at": {}, "changed": []}}
                if st == "ok":
                    st, j = vlib.call(JSONForecastConfig, file=f)
                    ev.update(name=f.name, id=str(j.getConfigID()), file=shown(j.data, base),
                              readback="same" if norm(j.data) == norm(shop.eds[e].config.data) else "different")
                    if not f.name.endswith(".json"):
                        ev["out"] = "suffix"
                tr.append(ev)
            else:
                st, f = shop.write(e)
                if st == "ok":
                    st, c = vlib.call(ForecastConfig, input_file=f, input_data_dir=DATA / "input_data")
                    ev = {"op": "forecast", "e": e, "out": st}
                    if st == "ok":
                        top = lambda p: int(round(c[p].l_bin_centers.max() + c[p].l_bin_widths[-1] / 2))
                        ev.update(scenario=c.scenario, n_sp_bins=token(c.n_sp_bins), reduced=token(c.shot_noise_sp_reduced),
                                  lmax=[int(round(float(f"{top(p):.2g}"))) for p in ("PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing")])
                    tr.append(ev)
        if rng.random() < .3:
            tr.append({"op": "look", "eds": [shown(shop.eds[i].config.data, base) if i in shop.eds else {"at": {}, "changed": []} for i in range(1, 5)],
                       "shipped": "same" if leaves(json.loads(SHIPPED.read_text())) == base else "different"})
    return tr


def fields(rng, dom):
    return {k: rng.choice(v) for k, v in dom.items()}


GLOBAL = dict(f_sky="ab", flat=["true", "false"], noise=["none", "a", "b"], reduced=["true", "false"], steps="ab", par=["a", "value", "free", "method", "factor", "missing"])
PROBE = dict(present=["true", "true", "false"], grid="abc", density="ab", settings="ab")


def forecast(rng):
    return {"global": fields(rng, GLOBAL),
            "probes": {"WL": fields(rng, {**PROBE, "extra": GLOBAL["par"]}),
                       **{p: fields(rng, {**PROBE, "extra": ["none", "one"], "bias": "ab", "method": "ab", "marg": ["true", "false"]}) for p in ("GCph", "GCsp")}}}


def compared(rng, fs):
    tr = []
    for _ in range(6):
        l = forecast(rng)
        r = copy.deepcopy(l)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 30])):
            o = forecast(rng)
            p = rng.choice(["global", "WL", "GCph", "GCsp"])
            src, dst = (o["global"], r["global"]) if p == "global" else (o["probes"][p], r["probes"][p])
            k = rng.choice(sorted(dst))
            dst[k] = src[k]
        lr, rl, ne = fs.compare(l, r)
        tr.append({"op": "compare", "l": l, "r": r, "lr": lr, "rl": rl, "ne": ne})
    return tr


TASKS = {"PowerSpectrum": "power_spectrum", "Angular": "angular", "Derivative": "derivative", "Fisher": "fisher"}
SET = {"PowerSpectrum": [("redshift_grid/z_min", "z_min", [.5, .25]), ("redshift_grid/z_max", "z_max", [1.5, 3.]), ("redshift_grid/n_redshifts", "n_redshifts", [4, 9]),
                         ("boltzmann_codes_settings/code", "boltzmann_code", ["CAMB", "CLASS"]), ("boltzmann_codes_settings/camb/ini_filename", "camb_ini_name", ["a.ini"])],
       "Angular": [], "Fisher": [], "Derivative": [("angular_dir", "cl_dir", ["/some/where", "x"])]}
PROBES = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]


def stages(rng, root):
    tr = []
    for _ in range(4):
        task = rng.choice([*TASKS, "Fisher", "PowerSpectrum", "Power", "fisher", ""])
        known = task in TASKS
        f = DATA / f"config_files/{TASKS.get(task, 'fisher')}_config.json"
        st, c = vlib.call(mcfg.config_for_task, task, rng.choice([f, str(f)]))
        ev = {"op": "stage", "known": "yes" if known else "no", "out": st, "base": [], "set": [], "got": [], "readback": [], "other": []}
        tr.append(ev)
        if st != "ok":
            continue
        tok = lambda d: [[k, token(v)] for k, v in flat(d).items()]
        other = mcfg.config_for_task(task, f)
        base = json.loads(f.read_text())
        base["config_type"] = f"{task}Config"
        done = {}
        for path, attr, vals in rng.sample(SET.get(task, []), rng.randint(0, len(SET.get(task, [])))):
            v = rng.choice(vals)
            if rng.random() < .5:
                setattr(c, attr, v)
            else:
                d = c
                for k in path.split("/")[:-1]:
                    d = d[k]
                d[path.split("/")[-1]] = v
            done[path] = v
        out = Path(root) / "stage.json"
        st, _ = vlib.call(c.writeToJSON, out)
        if st == "ok":
            st, back = vlib.call(getattr(mcfg, f"{task}Config").fromJSON, out)
        ev.update(out=st, base=tok(base), set=[[k, token(v)] for k, v in done.items()], got=tok(c.base_dict), other=tok(other.base_dict))
        if st == "ok":
            ev["readback"] = tok(back.base_dict)
            if not (back == c):
                ev["out"] = "not equal to itself"
        if task == "PowerSpectrum":
            c.z_min, c.z_max, c.n_redshifts = rng.choice([.5, 1.]), rng.choice([2., 3.5]), rng.choice([3, 4, 6])
            n = c.n_redshifts
            den = 2 * (n - 1)
            tr.append({"op": "zgrid", "n": n, "zmin": round(c.z_min * den), "zmax": round(c.z_max * den),
                       "z": [round(z * den) if abs(z * den - round(z * den)) < 1e-9 else -1 for z in c.z_grid]})
        if task == "Fisher":
            flags = {}
            for a, b in itertools.combinations_with_replacement(PROBES, 2):
                if rng.random() < .8:
                    flags[f"{a}_{b}" if rng.random() < .6 else f"{b}_{a}"] = rng.random() < .5
            c["cl_derivatives"] = flags
            for _ in range(4):
                a, b = rng.choice(PROBES), rng.choice(PROBES)
                st, v = vlib.call(c.getXCDerivativeFlag, f"{a}_{b}")
                tr.append({"op": "flag", "p1": a, "p2": b, "out": st, "flag": token(v) if st == "ok" else "",
                           "flags": [[k, token(x)] for k, x in flags.items()]})
    return tr


def run(ck):
    trans = ck.graph("EditorMC", vlib.cfg_text("Spec", {"NE": "2", "MaxOps": str(ck.budget(4, 5))}, [], action_constraints=["Emit"], view="View"))
    if {t["op"]["s"] for t in trans} != {"choose", "mutate", "make", "refuse", "apply", "write"}:
        raise vlib.MachineryError("editor operations missing")
    ck.model("EditorMC", vlib.cfg_text("Spec", {"NE": "2", "MaxOps": str(ck.budget(4, 5))}, ["OnlyValid", "Independent"], properties=["OthersKept"], view="View"), workers=8, timeout=1500)
    pairs = ck.graph("ForecastsMC", vlib.cfg_text("Spec", {}, ["Reflexive", "Symmetric", "OneEdit", "Hidden"], action_constraints=["Emit"]))
    tmp = Path(tempfile.mkdtemp(prefix="p18_"))
    try:
        (tmp / "shop").mkdir()
        replay(ck, trans, tmp / "shop")
        fs = Forecasts(tmp, ck.rng)
        compare(ck, pairs, fs)
        every = []
        # every documented option set once, in one history: the names tell all of them apart
        sets = [dict(zip(OPTS, c)) for c in itertools.product(["optimistic", "pessimistic"], ["4", "12", "24", "40"], *[["true", "false"]] * 3)]
        ck.rng.shuffle(sets)
        for half in range(2):
            tr = []
            mine = sets[half * 32:half * 32 + 32]
            for o in mine + mine[::-1] + ck.rng.sample(mine, 16):
                sh = Shop(tmp / "shop", ck.rng)
                sh.choose(1, o)
                tr.append({"op": "choose", "d": 1, "opts": o})
                st = sh.make(1, 1)
                tr.append({"op": "make", "e": 1, "d": 1, "out": st})
                if st == "ok":
                    tr.append({"op": "apply", "e": 1, "out": sh.apply(1)})
                    st, f = sh.write(1)
                    j = JSONForecastConfig(file=f) if st == "ok" else None
                    base = leaves(json.loads(SHIPPED.read_text()))
                    tr.append({"op": "write", "e": 1, "out": st, "dated": "no", "name": f.name if j else "", "id": str(j.getConfigID()) if j else "",
                               "readback": "same" if j and norm(j.data) == norm(sh.eds[1].config.data) else "different",
                               "file": shown(j.data, base) if j else {"at": {}, "changed": []}})
            every.append(tr)
        traces = every + [history(ck.rng, tmp / "shop", ck.rng.randint(6, 18)) for _ in range(ck.budget(150, 2000))]
        traces += [compared(ck.rng, fs) for _ in range(ck.budget(120, 1500))]
        traces += [stages(ck.rng, tmp) for _ in range(ck.budget(80, 800))]
    finally:
        shutil.rmtree(tmp)
    traces = [t for t in traces if t]
    ck.validate("EditorTrace", traces, label="configurations")
    has = lambda op, **kw: copy.deepcopy(next(t for t in traces if any(e["op"] == op and all(e.get(k) == v for k, v in kw.items()) for e in t)))
    get = lambda t, op, **kw: next(e for e in t if e["op"] == op and all(e.get(k) == v for k, v in kw.items()))
    t = has("write", out="ok")
    get(t, "write", out="ok")["file"]["changed"].append("survey/f_sky")
    ck.must_reject("EditorTrace", t, "an edit outside the options")
    t = copy.deepcopy(every[0])
    w = [e for e in t if e["op"] == "write"]
    w[5]["name"] = w[0]["name"]
    ck.must_reject("EditorTrace", t, "two option sets with one name")
    t = has("compare", lr="same")
    get(t, "compare", lr="same")["rl"] = "different"
    ck.must_reject("EditorTrace", t, "comparison that is not symmetric")
    t = has("stage", out="ok")
    get(t, "stage", out="ok")["other"] = []
    ck.must_reject("EditorTrace", t, "another configuration altered")
    ck.assumptions += ["configurations compared were loaded together with their parameters, list their probes in the same order, and name equal inputs by equal file names"]
