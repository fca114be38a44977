import argparse
import importlib
import logging
import os
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--only")
    ap.add_argument("--case")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    warnings.filterwarnings("ignore")
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    if os.environ.get("VERIF_COV"):
        from mc import cov

        cov.start()
    import reagent_compat  # noqa

    logging.disable(logging.CRITICAL)
    from mc import core

    try:
        module = importlib.import_module("checks." + a.pid.lower())
    except Exception:
        # The code under test no longer imports: every property about it is broken.
        import traceback

        traceback.print_exc()
        d = os.path.join(core.HOME, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.pid + "-import.txt")
        with open(path, "w") as f:
            f.write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        sys.exit(1)
    code = core.run_check(a.pid, module, a.only, a.case, a.list)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
