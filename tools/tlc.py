#!/usr/bin/env python3
"""tlc.py MODULE CFG [workers]: runs TLC on a specification by hand."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
core.build()
r = core.tlc(sys.argv[1], sys.argv[2], workers=int(sys.argv[3]) if len(sys.argv) > 3 else 8, expect_ok=False)
print(r.text[-3500:])
print(len(r.emitted), "emitted;", str(r.emitted[:2])[:1500])
