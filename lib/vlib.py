"""Shared machinery: TLC runner, spec->impl transition replay, impl->spec trace validation, evidence.

Nothing in here knows about SEYFERT.  A check module (harness/<id>.py) drives the real code and uses
these helpers to (a) model-check the TLA+ module, (b) obtain every transition of its bounded state graph
and step the real code through it, and (c) have TLC accept or reject traces recorded from the real code.
"""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
SPEC = VERIF / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself is broken (TLC did not run, spec does not parse...)."""


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data


# ---------------------------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.out = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.error = None          # text of a violation or TLC error
        self.prints = []           # decoded JSON payloads of lines  "@@<tag>" emitted by specs
        self.coverage = {}         # action name -> (distinct, taken)


_PRINT = re.compile(r'^"@@')


def run_tlc(module, cfg, *, workers=4, env=None, timeout=600, extra=(), heap="4g", coverage=True,
            simulate=None, seed=1):
    """Run TLC on spec/<module>.tla with configuration text or file name `cfg` in a scratch copy of spec/."""
    res = TlcResult()
    tmp = Path(tempfile.mkdtemp(prefix="vtlc_"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, tmp)
        cfgp = tmp / f"run_{module}.cfg"
        if "\n" in cfg or not (SPEC / cfg).exists():
            cfgp.write_text(cfg)
        else:
            shutil.copy(SPEC / cfg, cfgp)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-config", cfgp.name, "-workers", str(workers), "-metadir", str(tmp / "meta"),
               "-noGenerateSpecTE", "-fp", "1", "-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "100"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [f"{module}.tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as te:
            raise MachineryError(f"TLC timed out after {timeout}s on {module}")
        lines = p.stdout.splitlines()
        keep = []
        for ln in lines:
            if _PRINT.match(ln):
                s = json.loads(ln)
                tag, _, payload = s[2:].partition(" ")
                res.prints.append((tag, json.loads(payload) if payload else None))
            else:
                keep.append(ln)
        res.out = "\n".join(keep)
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", res.out)
        if m:
            res.generated, res.distinct = (int(x.replace(",", "")) for x in m[-1])
        elif simulate:
            m = re.findall(r"([\d,]+) states checked", res.out) or re.findall(r"number of states generated: ([\d,]+)", res.out)
            if m:
                res.generated = res.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m[-1])
        for name, d, t in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", res.out, re.M):
            res.coverage[name] = (int(d), int(t))
        if p.returncode != 0:
            err = [l for l in keep if l.startswith("Error:") or "violated" in l or "rror" in l]
            res.error = "\n".join(err[:6]) or f"TLC exit code {p.returncode}"
            res.rc = p.returncode
        if p.returncode not in (0, 10, 11, 12, 13):
            k = res.out.find("Error:")
            txt = res.out[k:k + 2500] if k >= 0 else res.out[-3000:]
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + txt)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cfg_text(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(),
             postcondition=None, init=None, next_=None, view=None, deadlock=False):
    out = []
    if init:
        out.append(f"INIT {init}\nNEXT {next_}")
    else:
        out.append(f"SPECIFICATION {spec}")
    for k, v in (constants or {}).items():
        out.append(f"CONSTANT {k} {v}" if str(v).startswith("<-") else f"CONSTANT {k} = {v}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for i in properties:
        out.append(f"PROPERTY {i}")
    for i in constraints:
        out.append(f"CONSTRAINT {i}")
    for i in action_constraints:
        out.append(f"ACTION_CONSTRAINT {i}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    if view:
        out.append(f"VIEW {view}")
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


def _noempty(o):
    """JSON has no sets; None has no TLA+ counterpart; ints must fit TLC."""
    if isinstance(o, dict):
        return {str(k): _noempty(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_noempty(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return [_noempty(v) for v in sorted(o)]
    if isinstance(o, bool) or isinstance(o, str):
        return o
    if o is None:
        return "NONE"
    if isinstance(o, int) or hasattr(o, "__index__"):
        o = int(o)
        if not -2**31 < o < 2**31:
            return f"BIG:{o}"
        return o
    if isinstance(o, float):
        if o == int(o) and abs(o) < 2**31:
            return int(o)
        return f"FLOAT:{o!r}"
    return f"PY:{type(o).__name__}:{o}"


# -------------------------------------------------------------------------------------------- checks

class Check:
    """One property check: counters, violations, replay files, evidence."""

    def __init__(self, pid, tier=None, seed=None, level="model_checking"):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.s2i = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.viol = []
        self.known_hits = []
        self.known = load_known(pid)
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- recording -----------------------------------------------------------------------------
    def violation(self, what, data=None, key=None):
        """key identifies the failing input / call site; listed keys are known findings."""
        if key is not None and key in self.known:
            if key not in self.known_hits:
                self.known_hits.append(key)
            return
        if len(self.viol) < 50:
            self.viol.append({"what": what, "data": data, "key": key})
        else:
            self.viol.append(None)

    def expect(self, cond, what, data=None, key=None):
        if not cond:
            self.violation(what, data, key)
        return cond

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -- model checking ------------------------------------------------------------------------
    def model(self, module, cfg, *, must_take=(), allow_error=False, count=True, **kw):
        r = run_tlc(module, cfg, **kw)
        if r.error and not allow_error:
            raise MachineryError(f"model {module}: {r.error}\n{r.out[-2500:]}")
        for a in must_take:
            if r.coverage.get(a, (0, 0))[1] == 0:
                raise MachineryError(f"model {module}: action {a} never taken (vacuous); {r.coverage}")
        if count:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"module": module, "distinct": r.distinct, "generated": r.generated,
                                "depth": r.depth,
                                "actions": {k: v[1] for k, v in r.coverage.items() if k not in ("Init",)}})
        return r

    def graph(self, module, cfg, tag="T", repeats=False, **kw):
        """Model-check and return every transition the spec printed with Emit (deduplicated unless repeats)."""
        kw.setdefault("workers", 1)
        kw.setdefault("heap", "6g")
        r = self.model(module, cfg, **kw)
        seen = set()
        out = []
        for t, p in r.prints:
            if t != tag:
                continue
            k = json.dumps(p, sort_keys=True)
            if repeats or k not in seen:
                seen.add(k)
                out.append(p)
        if not out:
            raise MachineryError(f"model {module} emitted no {tag} records")
        return out

    # -- impl -> spec --------------------------------------------------------------------------
    def validate(self, module, traces, *, constants=None, timeout=600, workers=4, label="", key_of=None,
                 count=True, overrides=None, batch=400):
        """Have TLC accept or reject each recorded trace.  Returns list of (index, pos, clause)."""
        rejected = []
        for b in range(0, len(traces), batch):
            chunk = traces[b:b + batch]
            for (i, pos, clause) in self._validate(module, chunk, constants, timeout, workers):
                rejected.append((b + i, pos, clause))
        if count:
            self.traces += len(traces)
            self.events += sum(len(t) for t in traces)
            for t in traces[:2]:
                self.sample({"trace": _noempty(t[:6]), "validated_by": module})
        for i, pos, clause in rejected:
            tr = traces[i]
            ev = tr[pos - 1] if 0 < pos <= len(tr) else None
            key = key_of(tr, pos, clause) if key_of else None
            self.violation(f"{label or module}: recorded execution rejected by the specification at event {pos}: {clause}",
                           {"module": module, "clause": clause, "event": _noempty(ev),
                            "trace": _noempty(tr[:pos])}, key)
        return rejected

    def _validate(self, module, chunk, constants, timeout, workers):
        if not chunk:
            return []
        fd, path = tempfile.mkstemp(prefix="vtrace_", suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(_noempty(chunk), f)
            cfg = cfg_text("TraceSpec", constants, constraints=())
            r = run_tlc(module, cfg, workers=workers, env={"TRACE_FILE": path}, timeout=timeout, coverage=False)
            if r.error:
                raise MachineryError(f"trace spec {module}: {r.error}\n{r.out[-3000:]}")
            acc = {p["t"] for t, p in r.prints if t == "ACCEPT"}
            rej = {}
            for t, p in r.prints:
                if t == "REJECT":
                    if p["t"] not in rej or rej[p["t"]][0] < p["i"]:
                        rej[p["t"]] = (p["i"], p["c"])
            out = []
            for i in range(1, len(chunk) + 1):
                if i in acc:
                    continue
                if i not in rej:
                    raise MachineryError(f"trace spec {module}: no verdict for trace {i}\n{r.out[-2000:]}")
                out.append((i - 1, rej[i][0], rej[i][1]))
            return out
        finally:
            os.unlink(path)

    def must_reject(self, module, trace, what, constants=None):
        """Binding self-test: a corrupted trace has to be rejected."""
        r = self._validate(module, [trace], constants, 300, 1)
        if not r:
            raise MachineryError(f"{module}: corrupted trace accepted ({what}); the check is vacuous")
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + 1

    # -- end -----------------------------------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.s2i,
               "samples": self.samples or [{"note": "no sample recorded"}],
               "models": self.models,
               "spec_transitions_replayed_in_impl": self.s2i,
               "impl_traces_checked_by_tlc": self.traces,
               "impl_events_checked_by_tlc": self.events}
        cov.update(self.extra)
        nviol = len(self.viol)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        EVID.mkdir(exist_ok=True)
        (EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        if nviol:
            rp = EVID / f"replay_{self.pid}.json"
            rp.write_text(json.dumps([v for v in self.viol if v], indent=1, default=str) + "\n")
            for v in [v for v in self.viol if v][:3]:
                print("  " + v["what"])
                if v["data"] is not None:
                    print("    " + json.dumps(v["data"], default=str)[:900])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} replayed={self.s2i} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0


def load_known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return {}
    return {e["key"]: e["what"] for e in json.loads(f.read_text())["known"] if e["property"] == pid}


# ---------------------------------------------------------------------------------- path covers

def walks(transitions, pre=lambda t: t["pre"], post=lambda t: t["post"], init=None, max_len=60):
    """Cover every transition of a graph by walks from an initial state.

    Returns lists of transitions; each walk starts in a state without predecessors on its BFS tree."""
    K = lambda s: json.dumps(s, sort_keys=True)
    succ = {}
    for t in transitions:
        succ.setdefault(K(pre(t)), []).append(t)
    inits = [K(s) for s in init] if init is not None else \
        sorted(set(succ) - {K(post(t)) for t in transitions})
    parent = {s: None for s in inits}
    queue = list(inits)
    for s in queue:
        for t in succ.get(s, ()):
            k = K(post(t))
            if k not in parent:
                parent[k] = (s, t)
                queue.append(k)
    done = set()
    out = []

    def path_to(s):
        p = []
        while parent[s] is not None:
            s, t = parent[s]
            p.append(t)
        return p[::-1]

    # deepest first, so that long prefixes cover the shallow transitions
    for s in reversed(queue):
        for t in succ.get(s, ()):
            if id(t) in done:
                continue
            w = path_to(s)
            cur = t
            while cur is not None:
                w.append(cur)
                done.add(id(cur))
                nxt = None
                if len(w) < max_len:
                    for u in succ.get(K(post(cur)), ()):
                        if id(u) not in done:
                            nxt = u
                            break
                cur = nxt
            for u in w:
                done.add(id(u))
            out.append(w)
    return out


def call(f, *a, **k):
    """Run real code; any exception becomes an observable outcome."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:          # noqa
        return type(e).__name__, e
