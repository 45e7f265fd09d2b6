#!/usr/bin/env python3
"""Prints a replay without its empty fields and without the world. usage: show.py FILE [world]"""
import json, sys
def clean(x):
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items() if v not in (None, "", 0, [], False, {})}
    if isinstance(x, list): return [clean(v) for v in x]
    return x
c = json.load(open(sys.argv[1]))["case"]
for k, v in c.items():
    if k != "Spec" or len(sys.argv) > 2:
        if isinstance(v, list):
            for i, y in enumerate(v): print(k, i, json.dumps(clean(y)))
        else: print(k, json.dumps(clean(v)))
