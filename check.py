#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vp


def main():
    prop = sys.argv[1]
    module = importlib.import_module("checks." + prop.lower())
    check = vp.Check(prop)
    try:
        module.check(check)
        return check.finish()
    except vp.CheckError as e:
        if check.violations:
            return check.finish()
        print(f"ERROR of the check {prop}: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        if check.violations:
            return check.finish()
        return 2
    finally:
        check.close()


sys.exit(main())
