"""P27  Printed tables  (Printed.tla)."""
import copy
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import pandas as pd

import vlib
from seyfert.notebook_helpers import table_helpers as th
from seyfert.utils.tex_utils import TeXTranslator

PROBES = ["WL", "GCph", "GCsp"]
DELTA, PERCENT = "Delta FoM", "Delta FoM (%)"
PARS = ["w0", "wa", "mnu", "Omm", "OmDE", "Omb", "sigma8", "ns", "h", "gamma", "aIA", "etaIA", "betaIA"]
UNIT = {"FoM": 1000, DELTA: 1000, PERCENT: 1000}


def plain(name):
    def item(x):
        return {"xc": f"XC({x['a']},{x['b']})", "pk": f"{x['a']}(Pk)", "cl": f"{x['a']}(Cl)"}.get(x["k"], x["a"])
    text = ["+".join(item(x) for x in g["items"]) for g in name]
    return " + ".join(f"[{t}]" if g["braced"] else t for g, t in zip(name, text))


def rand_name(rng):
    def item():
        k = rng.choice(["probe", "probe", "xc", "pk", "cl"])
        return {"k": k, "a": rng.choice(PROBES), "b": rng.choice(PROBES) if k == "xc" else ""}
    return [{"braced": rng.random() < .6, "items": [item() for _ in range(rng.choice([1, 1, 2, 3]))]} for _ in range(rng.choice([1, 1, 2]))]


def number(rng, low=True):
    """in tenths of the last decimal; never half-way between two decimals, never a negative one which rounds to nought"""
    while True:
        v = rng.choice([rng.randint(0, 9), rng.randint(0, 999), rng.randint(0, 99999), rng.randint(0, 9999999), 99996, 9999])
        v = -v if low and rng.random() < .4 else v
        if v % 10 != 5 and not (v < 0 and (-v + 5) // 10 == 0):
            return v


def read(text, depth):
    """header, rows and first column of a LaTeX table"""
    body = text[text.index(r"\toprule") + len(r"\toprule"):text.index(r"\bottomrule")]
    head, rows = body.split(r"\midrule", 1)
    cells = lambda line: [c.strip() for c in re.split(r"(?<!\\)&", re.sub(r"\\\\\s*$", "", line.strip()))]
    heads = [cells(x) for x in head.splitlines() if "&" in x]
    title = heads[0][depth:]
    out, first, left, held = [], [], 0, ""
    for line in rows.splitlines():
        if "&" not in line:
            continue
        c = cells(line)
        if depth == 2:
            m = re.fullmatch(r"\\multirow(?:\[[a-z]\])?\{(\d+)\}\{\*\}\{(.*)\}", c[0])
            if m:
                left, held = int(m.group(1)), m.group(2)
            elif left <= 0 or c[0]:
                left, held = 1, c[0]
            left -= 1
            first.append(held)
        out.append({"name": c[depth - 1], "cells": c[depth:]})
    return title, out, first


def printed(cols, rows, by, path=None):
    frame = pd.DataFrame({c: [r["vals"][k] / UNIT.get(c, 100000) for r in rows] for k, c in enumerate(cols)})
    if by:
        frame.index = pd.MultiIndex.from_tuples([(r["bins"], r["plain"]) for r in rows], names=["n_bins", "fisher"])
    else:
        frame.index = pd.Index([r["plain"] for r in rows], name="fisher")
    kept = frame.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if path is None:
            st, text = vlib.call(th.write_latex_table, frame)
        else:
            st, text = vlib.call(th.write_latex_table, frame, path)
    if st == "ok" and not frame.equals(kept):
        st = "table changed"
    return st, text


def replay(ck, cases):
    if len(cases) < 100:
        raise vlib.MachineryError("tables never printed")
    for c in cases:
        rows = [{"plain": p, "vals": r["vals"]} for p, r in zip(c["plain"], c["rows"])]
        st, text = printed(["FoM", "h", PERCENT], rows, False)
        ck.s2i += 1
        if st != "ok":
            return ck.violation(f"printing {rows}: {st}", c)
        got = read(text, 1)[1]
        if got != c["lines"]:
            return ck.violation(f"printing {rows} gives {got}, specification {c['lines']}", c)


def record(ck, tmp):
    rng, t, tr = ck.rng, TeXTranslator(), []
    for _ in range(rng.randint(3, 6)):
        op = rng.choice(["table", "table", "row", "row", "name", "probe", "par", "pars", "bias"])
        n = rand_name(rng)
        if op == "table":
            cols = ["FoM"] * (rng.random() < .8) + [c for c in (DELTA, PERCENT) if rng.random() < .6]
            cols += rng.sample(["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa", "mnu", "gamma"], rng.randint(1, 5))
            if rng.random() < .3:
                rng.shuffle(cols)
            by, rows = rng.random() < .5, []
            for b in sorted(rng.sample(["4", "12", "24", "40"], rng.randint(1, 3)) if by else [""]):
                seen = set()
                for _ in range(rng.randint(1, 3)):
                    x = rand_name(rng)
                    if plain(x) not in seen:
                        seen.add(plain(x))
                        rows.append({"name": x, "plain": plain(x), "bins": b, "vals": [number(rng) for _ in cols]})
            path = rng.choice([None, tmp / "t.tex", str(tmp / "t.tex")])
            st, text = printed(cols, rows, by, path)
            if st != "ok":
                ck.violation(f"a table of {cols} with rows {[r['plain'] for r in rows]} is not printed: {st} {text}", {"cols": cols, "rows": rows})
                return tr
            head, got, first = read(text, 2 if by else 1)
            tr.append({"op": "table", "cols": cols, "rows": rows, "by": by, "head": head, "got": got, "bins": first,
                       "saved": path is None or Path(path).read_text() == text})
        elif op == "row":
            fom, ref = rng.randint(1, 99999), rng.choice([0, 0, 100, 1000, 2500, 5000, 10000])
            if fom == ref:
                continue
            errs = [number(rng, low=False) for _ in range(rng.randint(1, 5))]
            bins = rng.choice(["", "4", "12"])
            row = {"nbins": bins, "fisher": plain(n), "FoM": fom / 100, **dict(zip(rng.sample(["Omm", "h", "ns", "w0", "wa"], len(errs)), [e / 100000 for e in errs]))}
            if not bins:
                del row["nbins"]
            st, text = vlib.call(th.get_latex_row, pd.Series(row), **({"ref_fom": ref / 100} if ref else {}))
            if st != "ok":
                ck.violation(f"a row {row} is not printed: {st} {text}", row)
                return tr
            tr.append({"op": "row", "row": {"name": n, "bins": bins, "fom": fom, "ref": ref, "errs": errs}, "plain": plain(n),
                       "got": [c.strip() for c in re.sub(r"\\\\\s*$", "", text.strip()).split(" & ")]})
        elif op == "name":
            al = rng.random() < .5
            tr.append({"op": op, "name": n, "plain": plain(n), "alias": al, "got": rng.choice([t.translateToTeX, t.toTeX])(plain(n), use_aliases=al)})
        elif op == "probe":
            words = [rng.choice(PROBES) for _ in range(rng.randint(1, 3))]
            tex = t.ProbeNameToTeX(rng.choice(["+", " + "]).join(words))
            st, back = vlib.call(t.ProbeTeXToName, tex)
            tr.append({"op": op, "words": words, "tex": tex, "again": t.ProbeNameToTeX(back) if st == "ok" else st})
        elif op == "par":
            p = rng.choice(PARS)
            tex = rng.choice([t.CosmoParNameToTeX, t.PhysParNameToTeX])(p)
            tr.append({"op": op, "name": p, "tex": tex, "back": t.CosmoParTeXToName(tex)})
        elif op == "pars":
            ps, d = rng.sample(PARS, rng.randint(1, 5)), rng.random() < .5
            tr.append({"op": op, "names": ps, "dollar": d, "got": list(t.PhysParsNamesToTeX(ps, include_dollar=d))})
        else:
            k, i = rng.choice(["ph", "sp"]), rng.randint(0, 120)
            tr.append({"op": op, "kind": k, "i": i, "got": t.PhysParNameToTeX(f"bg{k}{i}")})
    return tr


def run(ck):
    res = ck.model("PrintedMC", vlib.cfg_text("Spec", {"Deep": "TRUE" if ck.thorough else "FALSE"}, ["Readable", "Signs", "InStep"], properties=["Kept"],
                                              action_constraints=["Emit"], deadlock=False), workers=1, timeout=1200)
    replay(ck, [p for t, p in res.prints if t == "T"])
    if ck.viol:
        return
    traces, tmp = [], Path(tempfile.mkdtemp(prefix="p27_"))
    try:
        for _ in range(ck.budget(250, 2500)):
            traces.append(record(ck, tmp))
            if ck.viol:
                return
    finally:
        shutil.rmtree(tmp)
    traces = [t for t in traces if t]
    ck.validate("PrintedTrace", traces, label="tables")
    if len({e["op"] for t in traces for e in t}) < 7:
        raise vlib.MachineryError("events missing")
    if ck.viol:
        return

    def corrupt(op, f, what):
        t = copy.deepcopy(next(t for t in traces if any(e["op"] == op for e in t)))
        f(next(e for e in t if e["op"] == op))
        ck.must_reject("PrintedTrace", t, what)
    corrupt("table", lambda e: e["got"][0]["cells"].__setitem__(0, "7.7777"), "another number")
    corrupt("row", lambda e: e["got"].__setitem__(-1, "7.7777"), "another error")
    corrupt("name", lambda e: e.update(got=e["got"] + "x"), "another name")
    ck.assumptions += ["numbers are never half-way between two printed decimals", "printed names of groups of rows are those of the numbers of bins"]
