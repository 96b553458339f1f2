#!/usr/bin/env python3
"""python3 check/run.py <property id>"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def go():
    prop = sys.argv[1]
    if prop == "setup":
        lib.build()
        return
    for mod in ("checks_parse", "checks_eval", "checks_state"):
        try:
            m = __import__(mod)
        except ModuleNotFoundError as e:
            if e.name == mod:
                continue
            raise
        if prop in m.CHECKS:
            return m.CHECKS[prop]()
    raise lib.ToolError("no check for " + prop)


lib.main(go)
