#!/usr/bin/env python3
"""Entry point: run_check.py <property id> [quick|thorough]"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symdust import runner  # noqa: E402

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = runner.run_check(sys.argv[1], tier)
    except Exception:  # pylint: disable=broad-except
        # The machinery failed, which says nothing about the property.
        traceback.print_exc()
        rc = 2
    sys.stderr.flush()
    sys.stdout.flush()
    os._exit(rc)
