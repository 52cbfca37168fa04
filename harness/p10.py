"""P10  probe-pair keys and the dictionaries keyed by them  (ProbeKeys.tla)."""
import copy

import numpy as np

import vlib
from seyfert.base_structs import cl_dict as cd
from seyfert.utils import shortcuts as sc

INV = ["Unambiguous", "OneQuantity"]
SIZES = {1: 2, 2: 3, 3: 2, 4: 4}
# class, are reversed reads transposed, spellings its keys may have
CLASSES = {
    "ClSmartKeyDict": (sc.ClSmartKeyDict, True, ("long", "short", "alias", "key")),
    "SmartKeyDict": (sc.SmartKeyDict, False, ("long", "short", "alias", "key")),
    "ClSmartDict": (cd.ClSmartDict, True, ("alias",)),
    "TupleSmartDict": (cd.TupleSmartDict, False, ("alias",)),
    "ClDict": (cd.ClDict, True, ("long", "alias")),
    "FlexDict": (cd.FlexDict, False, ("long", "alias")),
}
SP = {}           # (kind, a, b) -> raw key, from the specification
BACK = {}         # raw key -> (a, b)


def load_names(rec):
    SP.clear()
    BACK.clear()
    for r in rec["pairs"]:
        raw = r["raw"][0] if len(r["raw"]) == 1 else tuple(r["raw"])
        SP[r["k"], r["a"], r["b"]] = raw
        BACK[raw] = (r["a"], r["b"])


class Box:
    """One real dictionary, and the arrays written into it."""

    def __init__(self, kind, init=()):
        self.kind = kind
        self.cls, self.tr, self.spells = CLASSES[kind]
        self.written = {}
        first = "long" if kind in ("ClDict", "FlexDict") else "alias"
        data = {SP[first, a, b]: self.arr(a, b, i) for a, b, i in init}
        self.o = self.cls(data) if init else self.cls()

    def arr(self, a, b, i):
        x = i * 1000 + np.arange(2 * SIZES[a] * SIZES[b], dtype=float).reshape(2, SIZES[a], SIZES[b]) if self.tr \
            else i * 1000 + np.arange(3.)
        self.written[i] = x
        return x.copy()

    def key(self, sp, a, b):
        return sc.ClKey(SP[("alias", "long", "short")[(a + b) % 3], a, b]) if sp == "key" else SP[sp, a, b]

    def see(self, x):
        """(id, transposed) of an array that came out"""
        x = np.asarray(x)
        i = int(x.flat[0] // 1000) if x.size else -1
        w = self.written.get(i)
        if w is None:
            return -1, False
        if x.shape == w.shape and np.array_equal(x, w):
            return i, False
        if self.tr and x.shape == (w.shape[0], w.shape[2], w.shape[1]) and np.array_equal(x, np.transpose(w, (0, 2, 1))):
            return i, True
        return -1, False

    def get(self, sp, a, b):
        st, v = vlib.call(lambda: self.o[self.key(sp, a, b)])
        if st != "ok":
            return {"out": st, "id": -1, "t": False}
        i, t = self.see(v)
        return {"out": "ok", "id": i, "t": t}

    def items(self):
        out = []
        for k, v in self.o.items():
            raw = k.key if isinstance(k, sc.ClKey) else k
            out.append([*BACK.get(raw, (0, 0)), *self.see(v)])
        return out


def normal(tr, items):
    """the specification's canonical state of listed items"""
    s = []
    for a, b, i, t in items:
        if a > b:
            a, b, t = b, a, (not t) if tr else False
        s.append([a, b, i, t if a != b else False])
    return sorted(s)


def step(box, act, n):
    op = act[0]
    sp = lambda j: box.spells[(n + j) % len(box.spells)]
    if op == "put":
        box.o[box.key(sp(0), act[1], act[2])] = box.arr(*act[1:])
    elif op == "del":
        del box.o[box.key(sp(0), act[1], act[2])]
    else:
        box.o.update({box.key(sp(0), act[1], act[2]): box.arr(*act[1:4]), box.key(sp(1), act[4], act[5]): box.arr(*act[4:7])})


def replay(ck, trans):
    init = [{"tr": x, "s": []} for x in (True, False)]
    ws = vlib.walks(trans, init=init, max_len=60)
    for kind, (cls, tr, spells) in CLASSES.items():
        n = 0
        for w in ws:
            if w[0]["pre"]["tr"] != tr:
                continue
            box = Box(kind)
            done = []
            for t in w:
                n += 1
                act = t["act"]
                done.append(act)
                # ids name writes: the same id may be written again elsewhere, so rename them apart
                ren = list(act)
                for j in {"put": (3,), "del": (), "update": (3, 6)}[act[0]]:
                    ren[j] = n * 10 + act[j]
                st, e = vlib.call(step, box, ren, n)
                ck.s2i += 1
                post = normal(tr, [[a, b, i, f] for a, b, i, f in t["post"]["s"]])
                it = normal(tr, [[a, b, i % 10, f] for a, b, i, f in box.items()])
                bad = None
                if st != "ok":
                    bad = f"refused: {st} {e}"
                elif it != post or len(box.o) != len(post):
                    bad = f"holds {it} ({len(box.o)} entries), specification {post}"
                else:
                    exp = {(a, b): (i, f) for a, b, i, f in post}
                    for sp in spells:
                        for a in (1, 2):
                            for b in (1, 2):
                                g = box.get(sp, a, b)
                                e = exp.get((min(a, b), max(a, b)))
                                want = (None if e is None else
                                        (e[0], (e[1] != (a > b)) if tr and a != b else False))
                                have = None if g["out"] != "ok" else (g["id"] % 10, g["t"])
                                inn = box.key(sp, a, b) in box.o
                                if have != want or inn != (e is not None):
                                    bad = f"read of {box.key(sp, a, b)}: {g} (in: {inn}), specification {want}"
                if bad:
                    ck.violation(f"{kind} after {done}: {bad}", {"class": kind, "history": done})
                    return
    ck.sample({"replayed_walk": [t["act"] for t in ws[0][:8]]})


# ------------------------------------------------------------------ recorded executions

def record_dict(rng, kind):
    ids = iter(range(1, 10 ** 6))
    cls, tr, spells = CLASSES[kind]
    P = (1, 2, 3, 4)
    init = []
    if rng.random() < .6:
        pairs = rng.sample([(a, b) for a in P for b in P if a <= b], rng.randint(1, 6))
        init = [[*(p if rng.random() < .5 else p[::-1]), next(ids)] for p in pairs]
    box = Box(kind, init)
    ev = [{"op": "new", "tr": tr, "items": init, "out": "ok", "class": kind}]
    for _ in range(rng.randint(6, 25)):
        a, b, sp = rng.choice(P), rng.choice(P), rng.choice(spells)
        op = rng.choice(["put", "put", "put", "get", "get", "del", "update", "in", "all"])
        if op == "put":
            i = next(ids)
            x = box.arr(a, b, i)
            st, _e = vlib.call(box.o.__setitem__, box.key(sp, a, b), x)
            ev.append({"op": op, "a": a, "b": b, "id": i, "sp": sp, "out": st})
        elif op == "del":
            st, _e = vlib.call(box.o.__delitem__, box.key(sp, a, b))
            ev.append({"op": op, "a": a, "b": b, "sp": sp, "out": st})
        elif op == "update":
            its = [[rng.choice(P), rng.choice(P), next(ids)] for _ in range(rng.randint(1, 3))]
            up = {}
            for x in its:
                up[box.key(rng.choice(spells), x[0], x[1])] = box.arr(*x)
            its = [[*BACK[k.key if isinstance(k, sc.ClKey) else k], box.see(v)[0]] for k, v in up.items()]
            st, _e = vlib.call(box.o.update, up)
            ev.append({"op": op, "items": its, "out": st})
        elif op == "get":
            ev.append({"op": op, "a": a, "b": b, "sp": sp, **box.get(sp, a, b)})
        elif op == "in":
            ev.append({"op": op, "a": a, "b": b, "sp": sp, "r": box.key(sp, a, b) in box.o})
        if op == "all" or rng.random() < .3:
            ev.append({"op": "all", "n": len(box.o), "items": box.items()})
    for a in P:
        for b in P:
            sp = rng.choice(spells)
            ev.append({"op": "get", "a": a, "b": b, "sp": sp, **box.get(sp, a, b)})
    ev.append({"op": "all", "n": len(box.o), "items": box.items()})
    return ev


def listed(raw):
    return [raw] if isinstance(raw, str) else [str(x) for x in raw]


def conv(raw):
    st, k = vlib.call(sc.ClKey, raw)
    ev = {"op": "conv", "raw": listed(raw), "made": st == "ok", "out": st}
    if st == "ok":
        st, r = vlib.call(lambda: {
            "kind": k.kind, "to": {"long": listed(k.toLongRawKey()), "short": listed(k.toShortRawKey()),
                                   "alias": listed(k.toTupleRawKey())},
            "rev": listed(k.getReverseKey().key), "parts": list(k.toParts()), "auto": bool(k.is_auto_correlation),
            "fisher": k.toFisherStringRepr()})
        ev["out"] = st
        if st == "ok":
            ev.update(r)
    return ev


def fisher(raw):
    st, k = vlib.call(sc.ClKey.fromFisherStringRepr, raw)
    return {"op": "fisher", "raw": raw, "out": st, "to": listed(k.key) if st == "ok" else []}


def probe(raw):
    st, k = vlib.call(sc.ProbeName, raw)
    ev = {"op": "probe", "raw": raw, "made": st == "ok", "out": st}
    if st == "ok":
        ev["out"], r = vlib.call(lambda: {"long": k.toLong().name, "short": k.toShort().name, "alias": k.toAlias().name})
        if ev["out"] == "ok":
            ev["to"] = r
    return ev


def mutate(rng, s):
    k = rng.randrange(8)
    if k == 0:
        return s + rng.choice(["X", "_", " ", "1", "\n", "wl", "_Void"])
    if k == 1:
        return rng.choice(["X", " ", "_", "n"]) + s
    if k == 2:
        i = rng.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k == 3:
        return s.lower() if s.lower() != s else s.upper()
    if k == 4:
        i = rng.randrange(len(s))
        return s[:i] + rng.choice("aGWV_,(") + s[i:]
    if k == 5:
        return s[::-1]
    if k == 6:
        return s.replace("_", rng.choice(["__", "-", " "]))
    return s + s


def record_names(rng):
    """every spelling converted, plus strings that resemble spellings"""
    ev = [{"op": "new", "tr": True, "items": [], "out": "ok", "class": "names"}]
    raws = list(BACK)
    for raw in rng.sample(raws, 12):
        ev.append(conv(raw))
        other = rng.choice([rng.choice(raws), rng.choice([r for r in raws if set(BACK[r]) == set(BACK[raw])])])
        x, y = sc.ClKey(raw), sc.ClKey(other)
        ev.append({"op": "same", "x": listed(raw), "y": listed(other), "eq": bool(x == y), "hash": hash(x) == hash(y)})
        if isinstance(raw, str):
            ev.append(conv(mutate(rng, raw)))
        else:
            i = rng.randrange(2)
            bad = list(raw)
            bad[i] = mutate(rng, bad[i]) if rng.random() < .7 else rng.choice([n for n in NAMES if n not in ALIAS])
            ev.append(conv(tuple(bad)))
            ev.append(conv(raw + ("WL",)))
            ev.append(conv("".join(raw)))
        a, b = BACK[raw]
        fs = ALIAS[a - 1] if a == b else f"XC({ALIAS[a - 1]},{ALIAS[b - 1]})"
        ev += [fisher(fs), fisher(mutate(rng, fs))]
    for n in rng.sample(NAMES, 6):
        ev += [probe(n), probe(mutate(rng, n))]
        m = rng.choice(NAMES)
        ev.append({"op": "sameprobe", "x": n, "y": m, "eq": bool(sc.ProbeName(n) == sc.ProbeName(m))})
    return ev


NAMES, ALIAS = [], []


def run(ck):
    cfg = vlib.cfg_text("Spec", {"PP": "{1, 2}", "IDs": "{1, 2}"}, INV, properties=["SeenThroughBoth"], view="View",
                        action_constraints=["Emit"])
    r = ck.model("ProbeKeysMC", cfg, workers=1)
    rec = next(p for t, p in r.prints if t == "K")
    load_names(rec)
    NAMES[:] = rec["long"] + rec["short"] + rec["alias"]
    ALIAS[:] = rec["alias"]
    seen, trans = set(), []
    for t, p in r.prints:
        if t == "T":
            k = vlib.json.dumps(p, sort_keys=True)
            if k not in seen:
                seen.add(k)
                p["pre"]["s"] = sorted(p["pre"]["s"])
                p["post"]["s"] = sorted(p["post"]["s"])
                trans.append(p)
    if not {"put", "del", "update"} <= {t["act"][0] for t in trans}:
        raise vlib.MachineryError("ProbeKeysMC: some operation never taken")
    if ck.thorough:
        ck.model("ProbeKeysMC", vlib.cfg_text("Spec", {"PP": "{1, 2, 3}", "IDs": "{1, 2}"}, INV,
                                              properties=["SeenThroughBoth"], view="View"), workers=8)
    replay(ck, trans)
    rng = ck.rng
    every = [{"op": "new", "tr": True, "items": [], "out": "ok", "class": "names"}] + [conv(raw) for raw in BACK] + \
        [probe(n) for n in NAMES]
    traces = [every] + [record_dict(rng, k) for k in CLASSES for _ in range(ck.budget(25, 300))]
    traces += [record_names(rng) for _ in range(ck.budget(40, 600))]
    ck.validate("ProbeKeysTrace", traces, label="probe-pair keys")
    t = copy.deepcopy(traces[1])
    g = next(e for e in t if e["op"] == "get" and e["out"] == "ok")
    g["id"] += 1
    ck.must_reject("ProbeKeysTrace", t, "quantity read")
    t = copy.deepcopy(traces[0])
    t[3]["to"]["long"] = ["Lensing_Void"] if t[3]["to"]["long"] != ["Lensing_Void"] else ["Void_Void"]
    ck.must_reject("ProbeKeysTrace", t, "conversion")
    ck.assumptions += ["a dictionary is built from data holding one order per pair",
                       "values are compared exactly; sizes of the two probes differ in some pairs and agree in others"]
