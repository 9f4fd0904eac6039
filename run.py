#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--space NAME]..."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space", action="append")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    from mc import engine

    mod = importlib.import_module(f"checks.{a.property.lower()}")
    spaces = mod.spaces(tier)
    if a.replay:
        return engine.replay(spaces, a.replay)
    return engine.run_check(a.property, spaces, mod.ASSUMPTIONS, tier, int(os.environ.get("VERIF_SEED", "1")), a.space)


if __name__ == "__main__":
    sys.exit(main())
