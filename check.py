"""usage: check.py <PROPERTY-ID> [quick|thorough]   (run by check.sh under the repository's interpreter)"""
import importlib
import logging
import os
import sys
import traceback
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path[:0] = [str(HERE / "lib"), str(HERE)]
import vlib

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)


ERRLOG = None


def quiet_stderr():
    """Child processes of the code under test write to a file; shown only when the machinery fails."""
    global ERRLOG
    import tempfile
    ERRLOG = tempfile.TemporaryFile()
    sys.stderr.flush()
    saved = os.dup(2)
    os.dup2(ERRLOG.fileno(), 2)
    return saved


def main():
    saved = quiet_stderr()
    rc = main2()
    sys.stderr.flush()
    os.dup2(saved, 2)
    if rc == 3:
        ERRLOG.seek(0)
        sys.stderr.write(ERRLOG.read().decode(errors="replace")[-6000:])
    return rc


def main2():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = vlib.Check(pid, tier)
    mod = importlib.import_module(f"harness.{pid.lower()}")
    try:
        mod.run(ck)
    except vlib.Violation as v:
        ck.violation(v.what, v.data)
    except vlib.MachineryError:
        if not [v for v in ck.viol if v]:
            traceback.print_exc()
            return 3
    except Exception as e:
        # An exception that escapes from the code under test is an observable deviation; one raised by the
        # machinery itself is not.  The innermost frame inside the repository decides.
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if str(vlib.REPO / "seyfert") in f.filename or str(vlib.REPO / "bin") in f.filename]
        traceback.print_exc()
        if in_repo:
            ck.violation(f"unexpected {type(e).__name__} escapes from the code under test: {e}",
                         {"traceback": traceback.format_exc()[-3000:]})
        elif not ck.viol:
            return 3
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
