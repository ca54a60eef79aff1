#!/usr/bin/env python3
"""builds the extractor and the real crate against the offline stand-ins"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/tools")
import vlib, harness
print(vlib.build_extract())
harness.prebuild()
try:
    import specgen
    print(specgen.build())
except Exception as e:
    print("spec-gen:", str(e)[-300:])
