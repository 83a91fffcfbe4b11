#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE]
sys.dont_write_bytecode = True
import core  # noqa: E402

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER",
                                                            "quick")
m = importlib.import_module("props." + prop)
sys.exit(core.main(prop, m.COMPONENTS, tier, m.BUILD,
                   getattr(m, "ASSUMPTIONS", ())))
