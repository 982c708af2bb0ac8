"""run.py <property> [-v] [harness substring]: decide one property."""
import importlib
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "spec")]
sys.dont_write_bytecode = True
import check  # noqa: E402

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "-v"]
    mod = importlib.import_module(a[0].lower())
    try:
        rc = check.main(a[0], mod.harnesses, mod.NOTES, a[1] if len(a) > 1 else None, "-v" in sys.argv)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
