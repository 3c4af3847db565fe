#!/usr/bin/env python3
"""replay.py FILE: re-executes the script of a replay file on the current tree
and prints the records, then re-checks them is up to the property's check."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib                                                    # noqa: E402

d = json.load(open(sys.argv[1]))
print(d["property"], "-", d["what"])
if d.get("script"):
    L = lib.Lab()
    try:
        L.build()
        for r in L.run({1: d["script"]})[1]:
            print(json.dumps(r))
    finally:
        L.close()
