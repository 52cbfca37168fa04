"""P25  configurations made with the window  (Window.tla)."""
import argparse
import copy
import json
import os
import re
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np

import repo                                                                             # noqa: F401
import vlib
from PyQt5 import QtWidgets
from seyfert import VERSION
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology.bias import Bias
from seyfert.gui.interface_window import ConfigGUIWindow, GUIFileInterface
from seyfert.main import seyfert_core
from seyfert.utils import filesystem_utils as fsu

APP = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["check"])
DATA = Path(vlib.REPO) / "seyfert" / "data" / "input_data"
PROBES = {"Lensing": "WL", "GCph": "GCph", "GCsp": "GCsp", "Void": "V"}
LONG = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "V": "Void"}
COLUMNS = ["fid", "free", "units", "factor", "method"]
IA = ["aIA", "cIA", "etaIA", "betaIA"]
FILES = {"a.txt": [(12., 3.), (30., 9.)], "b.txt": [(15., 2.), (40., 4.), (90., 6.)],
         "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt": [(11., 1.), (21., 2.)]}
BIASES = {"GCph": ["gcph_bias_piecewise.h5", "gcph_bias_constant.h5", "gcph_bias_equal_one_piecewise.h5"],
          "GCsp": ["gcsp_bias_piecewise_4_bins.h5", "gcsp_bias_constant.h5", "gcsp_bias_equal_one_piecewise.h5"],
          "V": ["voids_bias_vdn.h5", "voids_bias_fiducial_growth.h5"]}


def num(x):
    """lowest terms, as text"""
    try:
        return str(Fraction(x) if isinstance(x, str) else Fraction(repr(float(x))))
    except (ValueError, ZeroDivisionError):
        return "bad"


def tick(b):
    return "yes" if b else "no"


def truth(t):
    return {"true": "yes", "false": "no"}.get(t.lower(), "bad")


CELL = {"fid": num, "factor": num, "free": truth, "units": str, "method": str}


def fields(w):
    """the fields of a probe, as a user finds them"""
    tabs = w.ui.centralwidget.findChildren(QtWidgets.QStackedWidget)[0]
    out = {}
    for t in tabs.children():
        if isinstance(t, QtWidgets.QWidget) and t.whatsThis() == "probe":
            out[PROBES[t.objectName()]] = {x.whatsThis(): x for x in t.findChildren(QtWidgets.QWidget) if x.whatsThis()}
    return out


def value(x, f):
    if isinstance(x, QtWidgets.QCheckBox):
        return tick(x.isChecked())
    if isinstance(x, (QtWidgets.QSpinBox, QtWidgets.QDoubleSpinBox)):
        return num(x.value())
    if isinstance(x, QtWidgets.QComboBox):
        return x.currentText()
    return num(x.text()) if f.startswith("nuis_param") else x.text()


def put(x, v):
    """as the user does; v: a text in lowest terms for numbers"""
    if isinstance(x, QtWidgets.QCheckBox):
        if x.isChecked() != (v == "yes"):
            x.click()
    elif isinstance(x, QtWidgets.QSpinBox):
        x.setValue(int(Fraction(v)))
    elif isinstance(x, QtWidgets.QDoubleSpinBox):
        x.setValue(float(Fraction(v)))
    elif isinstance(x, QtWidgets.QComboBox):
        x.setCurrentIndex(x.findText(v))
    else:
        x.setText(v)


def window(dated=False):
    return ConfigGUIWindow(argparse.Namespace(no_datetime=not dated))


def enabled(fs):
    return {p: {f: d[f].isEnabledTo(d[f].window()) for f in ("ell_external_filename", "l_min", "l_max", "ell_log_selection", "log_l_number")} for p, d in fs.items()}


def shown(w, fs):
    t = w.ui.cosmo_pars
    return {"f_sky": num(w.ui.f_sky.text()), "flat": tick(w.ui.is_universe_flat.isChecked()),
            "table": {t.verticalHeaderItem(i).text(): {c: CELL[c](t.item(i, j).text()) for j, c in enumerate(COLUMNS)} for i in range(t.rowCount())},
            "disps": [units(w.ui.stem_disps.item(i, 0).text()) for i in range(w.ui.stem_disps.rowCount())],
            "probes": {p: {"vals": {f: value(x, f) for f, x in d.items()}, "on": {"file": True, "ell": True, "n": True}} for p, d in fs.items()}}


def units(t):
    f = Fraction(t if isinstance(t, str) else repr(float(t))) * 100000
    return int(f) if f.denominator == 1 else -1


def counts():
    return {f: len(Bias.fromHDF5(DATA / f).nuisance_parameters or {}) for fs in BIASES.values() for f in fs}


def usual():
    d = json.loads((fsu.config_files_dir() / "basic_forecast_config.json").read_text())
    return {p["name"]: {"fid": num(p["fiducial"]), "free": tick(p["is_free_parameter"]), "units": p["units"], "factor": num(p["stem_factor"]), "method": p["derivative_method"]}
            for p in d["cosmology"]["parameters"]}


def multipoles(pc):
    c, w = pc.l_bin_centers, pc.l_bin_widths
    for f, rows in FILES.items():
        if len(rows) == len(c) and np.array_equal(np.array(rows), np.c_[c, w]):
            return {"kind": "file", "file": f, "lo": "", "hi": "", "n": ""}
    lo, hi = (num(round(float(x), 5)) for x in (c[0] - w[0] / 2, c[-1] + w[-1] / 2))
    r = (c[1:] + w[1:] / 2) / (c[:-1] + w[:-1] / 2)
    log = np.allclose(r, r[0], rtol=1e-6)
    if not log and not (np.all(w == 1) and np.allclose(np.diff(c), 1)):
        return {"kind": "neither", "file": "", "lo": lo, "hi": hi, "n": ""}
    return {"kind": "log" if log else "linear", "file": "", "lo": lo, "hi": hi, "n": str(len(c)) if log else ""}


def digest(fc):
    extra = set()
    probes = {}
    for p, pc in fc.probe_configs.items():
        mine = {n: x for n, x in pc.nuisance_parameters.items() if n not in IA}
        extra |= set(mine)
        probes[p] = {"multipoles": multipoles(pc), "density": pc.density_init_file.name,
                     "bias": {"file": "" if pc.bias_init_file is None else pc.bias_init_file.name, "n": len(mine), "free": sorted({tick(x.is_free_parameter) for x in mine.values()}),
                              "method": sorted({x.derivative_method for x in mine.values()})},
                     "specific": {k: tick(v) if isinstance(v, bool) else num(v) for k, v in pc.specific_settings.items()}}
    pp = fc.phys_pars
    pars = {n: {"fid": num(x.fiducial) if x.current_value == x.fiducial else "current", "free": tick(x.is_free_parameter), "units": x.units, "factor": num(x.stem_factor),
                "method": x.derivative_method, "probe": x.probe or ""} for n, x in pp.items() if n not in extra}
    for n in IA:
        if n in pars and not pp[n].is_nuisance:
            pars[n]["probe"] = "cosmological"
    return {"f_sky": num(fc.survey_f_sky), "flat": tick(fc.is_universe_flat), "steps": [units(pp.stem_dict[s]) for s in sorted(pp.stem_dict) if s > 0],
            "pars": pars, "probes": probes}


def load(f, data):
    fc = ForecastConfig(input_file=f, input_data_dir=data)
    fc.loadPhysicalParametersFromJSONConfig()
    return fc


def inputs(tmp):
    d = tmp / "data"
    d.mkdir()
    for fs in BIASES.values():
        for f in fs:
            shutil.copy(DATA / f, d / f)
    for f, rows in FILES.items():
        np.savetxt(d / f, rows, fmt="%r")
    return d


def save(w, name, out):
    """to a file of that name below out; outcome"""
    old = os.getcwd()
    os.chdir(out)
    try:
        w.outfile_line_edit = QtWidgets.QLineEdit()
        w.outfile_line_edit.setText(name)
        w.dumpToJSONAndExit()
        return "no exit"
    except SystemExit as ex:
        return "ok" if not ex.code else f"exit {ex.code}"
    except Exception as ex:                                                             # noqa: BLE001
        return type(ex).__name__
    finally:
        os.chdir(old)


def kinds(out):
    res = []
    for f in sorted(p.name for p in out.iterdir()):
        m = re.fullmatch(rf"(.*)_{re.escape(VERSION)}_\d{{4}}-\d\d-\d\dT\d\d-\d\d-\d\d\.json", f)
        res.append({"stem": m.group(1) if m else f, "dated": bool(m)})
    return res


def apply(w, fs, a):
    t = w.ui.cosmo_pars
    if a["op"] == "field":
        put(fs[a["probe"]][a["field"]], a["text"])
    elif a["op"] == "flat":
        put(w.ui.is_universe_flat, a["to"])
    elif a["op"] == "sky":
        w.ui.f_sky.setText(a["text"])
    elif a["op"] == "disp":
        w.ui.stem_disps.item(a["row"] - 1, 0).setText(a["text"])
    else:
        i = next(i for i in range(t.rowCount()) if t.verticalHeaderItem(i).text() == a["par"])
        t.item(i, COLUMNS.index(a["column"])).setText(a["text"])


def text(x):
    """a number in lowest terms as one writes it"""
    f = Fraction(x)
    return repr(float(f)) if f.denominator > 1 else str(f.numerator)


def spelled(a):
    to = a["to"]
    if a["op"] == "disp":
        s = repr(to / 100000)
    elif a["op"] == "cell":
        s = {"yes": "True", "no": "false", "bad": "maybe"}.get(to, text(to) if a["column"] in ("fid", "factor") and to != "bad" else to)
    elif a["op"] == "field" and a["field"].startswith("nuis_param"):
        s = "?" if to == "bad" else text(to)
    else:
        s = to
    return dict(a, text=s)


def expected(want, got, base):
    """the model's window has two parameters, and three probes, whose values are those of the real one"""
    return all(got[k] == want[k] for k in ("flat",)) and all(got["probes"].get(p) == dict(c, specific=dict(c["specific"])) for p, c in want["probes"].items()) \
        and set(got["probes"]) == set(want["probes"]) | {"SpectroscopicGalaxy"} and all(got["pars"].get(n) == r for n, r in want["pars"].items()) \
        and (set(IA) & set(got["pars"])) == (set(IA) & set(want["pars"])) and set(want["steps"]) <= set(got["steps"]) == set(base["steps"]) - {625} | set(want["steps"]) \
        and all(got["pars"].get(n) == base["pars"][n] for n in base["pars"] if n not in want["pars"] and n not in IA)


def replay(ck, prints, data, tmp):
    ts = {json.dumps(r, sort_keys=True): r for t, r in prints if t == "T"}
    ts = [ts[k] for k in sorted(ts)]
    out = tmp / "replay"
    base = None
    for r in [{"hist": [], "bad": False, "want": None}] + ck.rng.sample(ts, min(len(ts), ck.budget(250, 3000))):
        w = window()
        fs = fields(w)
        fs["WL"]["ell_external_filename"].setText("a.txt")
        for a in r["hist"]:
            apply(w, fs, spelled(a))
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir()
        ck.s2i += 1
        res = save(w, "mine", out)
        w.deleteLater()
        if r["bad"]:
            if res == "ok" or list(out.iterdir()):
                ck.violation("bad text saved", r)
                return
            continue
        if res != "ok" or kinds(out) != [{"stem": "mine.json", "dated": False}]:
            ck.violation(f"configuration not saved: {res}", r)
            return
        st, fc = vlib.call(load, out / "mine.json", data)
        if st != "ok":
            ck.violation(f"saved configuration cannot be loaded: {st} {fc}", r)
            return
        got = digest(fc)
        base = base or got
        if r["want"] and not expected(r["want"], got, base):
            ck.violation("saved configuration does not say what the window shows", {"edits": r["hist"], "want": r["want"], "got": got})
            return


# ---- recorded uses ------------------------------------------------------------------------------
def decimal(rng, signed=True):
    """a number as one may write it"""
    v = Fraction(rng.randint(1, 4000), rng.choice([1, 10, 100, 1000])) * (rng.choice([1, 1, -1]) if signed else 1)
    return rng.choice([repr(float(v)), "%.5f" % float(v), "%.6e" % float(v)])


def use(ck, rng, data, tmp, cts, usl):
    w = window()
    fs = fields(w)
    tr = [{"op": "open", "win": shown(w, fs), "counts": cts, "usual": usl}]
    out = tmp / "out"
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir()
    pars = list(tr[0]["win"]["table"])
    first = [("presence_flag", "yes"), ("bias_file", rng.choice(BIASES["V"])), ("marginalize_bias_flag", tick(rng.random() < .7))] if rng.random() < .3 else []
    for f, v in first:                                  # voids are absent at the start
        e = {"op": "field", "probe": "V", "field": f, "to": v, "text": v}
        apply(w, fs, e)
        tr.append(e)
    for _ in range(rng.randint(8, 30)):
        op = rng.choice(["field"] * 8 + ["cell", "cell", "disp", "flat", "sky", "state", "save", "save"])
        e = {"op": op}
        if op == "field":
            p = rng.choice(list(fs))
            # what matters most: how multipoles are given, and who is there
            f = rng.choice([f for f in fs[p] if fs[p][f].isEnabledTo(w)] + [f for f in ("ell_external_checkbox", "ell_external_filename", "ell_log_selection", "presence_flag")
                                                                            if fs[p][f].isEnabledTo(w)])
            x = fs[p][f]
            if isinstance(x, QtWidgets.QCheckBox):
                v = s = tick(rng.random() < .5)
            elif isinstance(x, QtWidgets.QComboBox):
                v = s = x.itemText(rng.randrange(x.count()))
            elif f in ("l_min", "l_max"):
                v = s = str(rng.choice([10, 20, 35, 100]) if f == "l_min" else rng.choice([750, 1000, 1499, 1500]))
            elif f == "log_l_number":
                v = s = str(rng.randint(20, 200))
            elif f.startswith("void_k"):
                v = s = num(rng.randint(1, 900) / 1000)
            elif f == "ell_external_filename":
                v = s = rng.choice(["", "a.txt", "b.txt"])
            elif f == "bias_file":
                v = s = rng.choice(BIASES[p])
            elif f.startswith("nuis_param"):
                s = rng.choice(["", "x"]) if rng.random() < .06 else decimal(rng)
                v = num(s)
            else:
                v = s = rng.choice(["one.h5", "two.h5", "gcph_dndz_redbook.h5"])
            e.update(probe=p, field=f, to=v, text=s)
        elif op == "cell":
            c = rng.choice(COLUMNS)
            s = decimal(rng, c == "fid") if c in ("fid", "factor") else rng.choice(["true", "True", "false", "FALSE"]) if c == "free" else \
                rng.choice(["eV", "None", "km"]) if c == "units" else rng.choice(["SteM", "Analytic"])
            if rng.random() < .05 and c in ("fid", "free", "factor"):
                s = rng.choice(["1,5", "yes"])
            e.update(par=rng.choice(pars), column=c, to=CELL[c](s), text=s)
        elif op == "disp":
            have = [w.ui.stem_disps.item(i, 0).text() for i in range(w.ui.stem_disps.rowCount())]
            v = rng.choice([x for x in (100, 500, 2000, 3000, 15000, 20000, 7) if x not in map(units, have)])
            e.update(row=rng.randint(1, len(have)), to=v, text=rng.choice([repr(v / 100000), "%.5f" % (v / 100000)]))
        elif op == "flat":
            e["to"] = tick(rng.random() < .5)
        elif op == "sky":
            e["text"] = "" if rng.random() < .04 else decimal(rng, False)
            e["to"] = num(e["text"])
        elif op == "state":
            e["on"] = enabled(fs)
        elif op == "save":
            e["dated"] = w.args.no_datetime is False if rng.random() < .5 else rng.random() < .5
            w.args.no_datetime = not e["dated"]
            e["name"] = rng.choice(["mine", "mine.json", "run_1", "v1.2"])
            e["kind"] = e["name"].endswith(".json")
            for p in out.iterdir():                     # an older configuration is replaced
                os.utime(p, ns=(1, 1))
            e["out"] = save(w, rng.choice(["", "elsewhere/"]) + e["name"], out)
            e.update(files=kinds(out), got={}, same=True, runs="")
            if e["out"] == "ok":
                new = [p for p in out.iterdir() if p.stat().st_mtime_ns > 1]
                if len(new) != 1:
                    ck.violation(f"{len(new)} files saved", tr + [e])
                    return None
                st, fc = vlib.call(load, new[0], data)
                if st != "ok":
                    ck.violation(f"saved configuration cannot be loaded: {st} {fc}", tr + [e])
                    return None
                e["got"] = digest(fc)
                e["same"] = vlib.call(lambda: bool(fc == load(new[0], data))) == ("ok", True)
                e["runs"], opts = vlib.call(seyfert_core.compute_bsub_options, {"memory": 5000, "queue": "q", "n_cores_per_job": 2}, fc)
                if e["runs"] == "ok" and (opts["memory_MB"] != 5000 or fc.shot_noise_sp_reduced is not False or fc.shot_noise_file is not None):
                    e["runs"] = "other options"
        if op in ("field", "cell", "disp", "flat", "sky"):
            apply(w, fs, e)
        tr.append(e)
    w.deleteLater()
    return tr


def run(ck):
    inv = ["NoSay", "Told", "OnlyPresent", "Complete"]
    ck.model("WindowMC", vlib.cfg_text("Spec", {"Bound": "4" if ck.thorough else "3"}, inv, properties=["Own"], deadlock=False), timeout=1800)
    res = ck.model("WindowMC", vlib.cfg_text("Spec", {"Bound": "4" if ck.thorough else "3"}, action_constraints=["Emit"], view="View", deadlock=False), workers=1, timeout=1800)
    tmp = Path(tempfile.mkdtemp(prefix="p25_"))
    try:
        data = inputs(tmp)
        replay(ck, res.prints, data, tmp)
        traces = []
        cts, usl = counts(), usual()
        for _ in range(ck.budget(60, 800)):
            if ck.viol:
                return
            t = use(ck, ck.rng, data, tmp, cts, usl)
            if t:
                traces.append(t)
    finally:
        shutil.rmtree(tmp)
    if ck.viol:
        return
    ck.validate("WindowTrace", traces, label="window")
    if ck.viol:
        return

    def corrupt(op, f, what, when=lambda e: True):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op and when(e) for e in t)))
        f(next(e for e in t if e["op"] == op and when(e)))
        ck.must_reject("WindowTrace", t, what)
    fine = lambda e: e["out"] == "ok" and e["got"]["probes"]
    corrupt("save", lambda e: e["got"]["pars"]["w0"].update(fid="7/9"), "another fiducial value", fine)
    corrupt("save", lambda e: next(iter(e["got"]["probes"].values()))["multipoles"].update(lo="7/9"), "other multipoles", fine)
    corrupt("save", lambda e: e["files"].clear(), "no file", fine)
    corrupt("state", lambda e: e["on"]["WL"].update(l_min=not e["on"]["WL"]["l_min"]), "other fields enabled")
