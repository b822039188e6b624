#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from the source of /repo."""

import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from potsa.api import Ctx  # noqa: E402
from potsa.project import AnalysisBroken  # noqa: E402
from potsa.report import Report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    mod = importlib.import_module("potsa.rules." + a.prop.lower())
    rep = Report(a.prop, a.tier)
    try:
        mod.run(Ctx(a.tier), rep)
    except (AnalysisBroken, SyntaxError) as e:
        rep.broken.append(str(e))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
