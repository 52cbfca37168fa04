"""Make and judge planted bugs:  mkseed.py DEFS.py [ID ...]
DEFS.py calls seed(id, prop, edits, needs, breaks, demo) ; every edit is (file, old, new).  The demo is Python, run with
the repository as working directory; it gets scratch(), Patched and the repository on its path."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path(__file__).resolve().parent.parent
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SEEDS = []
SRC = os.environ.get("SEED_REPO", "/repo")
ORIG = "603d5c3"      # the last commit of the original repository
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: 0 = behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=$PWD MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONHASHSEED=0
export SEYFERT_INPUT_DATA=$PWD/seyfert/data/input_data
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export SCRATCH=$scratch NUMBA_CACHE_DIR=$scratch/numba
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import os, sys, json, logging, warnings, shutil
from pathlib import Path
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
REPO = Path.cwd()
SCRATCH = Path(os.environ["SCRATCH"])
'''
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def one(s, checks=True):
    d = V / "seeded" / s["id"]
    w = Path(tempfile.mkdtemp(prefix=f"seed_{s['id']}_", dir="/tmp"))
    out = {}
    try:
        d.mkdir(parents=True, exist_ok=True)
        r = w / "repo"
        sh(f"cp -a {SRC} {r}"); sh("git checkout -q -- . && git clean -fdq", cwd=r)
        (d / "demo.sh").write_text(DEMO_SH); (d / "demo.sh").chmod(0o755)
        (d / "demo.py").write_text(PRE + s["demo"].lstrip("\n"))
        a = sh(f"bash {d}/demo.sh", cwd=r)
        out["clean"] = a.returncode
        for f, old, new in s["edits"]:
            t = (r / f).read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            (r / f).write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh("git diff", cwd=r).stdout)
        for f, old, new in s["edits"]:
            lines = {l[1:] for l in sh(f"git diff -U0 -- {f}", cwd=r).stdout.splitlines() if l[:1] == "-" and l[:3] != "---"}
            ours = {l.split(") ", 1)[1] for l in sh(f"git blame -s {ORIG}..HEAD -- {f}", cwd=r).stdout.splitlines() if not l.startswith("^")}
            out["not_original"] = out.get("not_original", []) + sorted(lines & ours)
        b = sh(f"bash {d}/demo.sh", cwd=r)
        out["patched"] = b.returncode
        out["why"] = (a.stdout + a.stderr)[-600:] if a.returncode else (b.stdout + b.stderr)[-300:]
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        if "--notest" not in sys.argv:
            t = Path("/opt/vp/test.sh").read_text().replace("/repo", str(r))
            (w / "test.sh").write_text(t)
            sh(f"bash {w}/test.sh {w}/out.json", cwd=r)
            res = json.load(open(w / "out.json"))
            out["broken_tests"] = len(set(BASE) - set(res["passed"]))
        if "--nocheck" not in sys.argv:
            env = dict(os.environ, VERIF_REPO=str(r), VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=str(w / "ev"))
            c = sh(f"timeout 900 bash {V}/check.sh {s['prop']} quick", env=env)
            out["check"] = c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2]
    except Exception as e:
        out["error"] = repr(e)
    shutil.rmtree(w)
    ok = out.get("clean") == 0 and out.get("patched") and not out.get("broken_tests") and not out.get("not_original") and (out.get("check") or [1])[0] == 1
    print(("OK  " if ok else "BAD ") + s["id"], json.dumps(out), flush=True)

if __name__ == "__main__":
    exec(Path(sys.argv[1]).read_text())
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, [s for s in SEEDS if not ids or s["id"] in ids]))
