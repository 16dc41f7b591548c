#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.driver import Broken, tier_of  # noqa: E402
from sa.interp import in_big_stack  # noqa: E402


def main():
    prop = sys.argv[1].upper()
    mod = importlib.import_module("checks." + prop.lower())
    try:
        rc = in_big_stack(lambda: mod.main(tier_of(sys.argv)))
    except Broken as e:
        print(f"ANALYSIS-BROKEN {prop}: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN {prop}")
        return 3
    return rc


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
