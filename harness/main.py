import os, sys, traceback
from harness.core import Check, MachineryError, Mismatch, REPO, ROOT
from harness.registry import CHECKS
import importlib


def raised_by_code(e):
    """Was the exception raised by the code under test, on inputs it has to accept?"""
    own = str(ROOT)
    code = os.path.realpath(REPO)
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        n = os.path.realpath(f.filename)
        if n.startswith(code + "/pysim"):
            last = "code"
        elif n.startswith(own + "/harness"):
            last = "harness"
    return last == "code" and not isinstance(e, MachineryError)


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    chk = Check(pid)
    mod = importlib.import_module("harness." + c["module"])
    try:
        getattr(mod, c["fn"])(chk)
    except Mismatch as m:
        chk.violation(m.clause, m.data)
    except Exception as e:                                           # noqa: BLE001
        traceback.print_exc()
        if raised_by_code(e):
            chk.violation(f"{pid}.raises_{type(e).__name__}", dict(error=repr(e), where=traceback.format_exc()[-1500:]))
            sys.stdout.flush()
            sys.exit(chk.finish())
        import shutil
        shutil.rmtree(chk.dir, ignore_errors=True)
        print(f"ERROR property={pid}: the check itself failed")
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(chk.finish())


main()
