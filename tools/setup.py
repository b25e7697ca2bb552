#!/usr/bin/env python3
"""Builds everything once: the shim and the harness crates."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import owlib  # noqa: E402

for kind in ("scoped", "full", "mux"):
    try:
        owlib.build(kind)
    except owlib.ToolError as e:
        print(e, file=sys.stderr)
        if kind == "scoped":
            sys.exit(1)
