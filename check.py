#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree.  check.py --setup: prebuild."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vf  # noqa: E402


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    arg = sys.argv[1]
    if arg == "--setup":
        from checks import registry
        return registry.setup()
    from checks import registry
    try:
        fn = registry.CHECKS[arg]
    except KeyError:
        print("no check for", arg)
        return 2
    try:
        r = fn(vf.Ctx(arg))
        if r not in (0, 1):
            raise vf.CheckError("%s gave no answer" % arg)
        return r
    except vf.CheckError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        vf.cleanup()


sys.exit(main())
