#!/usr/bin/env python3
"""check.py <property>: one check. Exit 0, or 1 with a VIOLATION line; 2 is an error of the check."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import owlib  # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    prop = sys.argv[1]
    suite, level = CHECKS[prop]
    mod = importlib.import_module("suites." + suite)
    c = owlib.Check(prop, level)
    try:
        getattr(mod, prop)(c)
    except owlib.ToolError as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


sys.exit(main())
