"""Entry point: main.py Cxx   (tier and seed come from VERIF_TIER / VERIF_SEED)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True

from vf.core import Check  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("props." + pid.lower())
    chk = Check(pid, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(chk)
        rc = chk.finish()
    except SystemExit:
        raise
    except BaseException as ex:
        # an exception that escapes through the library's own frames is an observation, not a failure of the check
        frames = traceback.extract_tb(sys.exc_info()[2])
        src = [f for f in frames if f.filename.startswith(os.path.join(REPO, "src") + os.sep)]
        traceback.print_exc()
        rc = 2
        if src and isinstance(ex, Exception):
            chk.violation("unexpected-exception", type(ex).__name__, {"error": traceback.format_exc()})
            rc = chk.finish()
    finally:
        chk.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
