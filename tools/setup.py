"""Builds what the checks share, so that the first check does not have to."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402

try:
    lib.build()
    import c_bits
    c_bits.build()
    import c_cli
    c_cli.build()
except lib.ToolError as e:
    print(e)
    sys.exit(1)
