#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property. Exit 0: held, 1: violated, 2: no answer."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402

CHECKS = {
    "C01": "c_eval", "C02": "c_eval", "C03": "c_eval", "C04": "c_eval", "C05": "c_eval", "C06": "c_eval",
    "C07": "c_limits", "C08": "c_interrupt", "C09": "c_read", "C10": "c_norm", "C11": "c_load", "C12": "c_bits", "C13": "c_web", "C14": "c_cli", "C15": "c_life", "C16": "c_progress",
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    scratch = lib.Scratch(prop)
    try:
        rep = lib.Report(prop, tier)
        mod = importlib.import_module(CHECKS[prop])
        try:
            mod.run(prop, tier, rep, scratch)
        except lib.Hangs as h:
            for c, r in h.cases:
                rep.violation(f"{c.get('query', '')!r}: it did not end within {r['hang']} s", {"case": c, "record": r})
        return rep.finish()
    except lib.ToolError as e:
        lib.log(f"{prop}: no answer: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            scratch.close()


if __name__ == "__main__":
    sys.exit(main())
