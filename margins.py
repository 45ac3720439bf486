#!/usr/bin/env python3
"""Prints the error/tolerance quotients of the last run of a check that are close to the edge."""
import json, sys
lim = float(sys.argv[2]) if len(sys.argv) > 2 else 0.3
d = json.load(open("evidence/%s.json" % sys.argv[1]))["coverage"]["worst_error_over_tolerance"]
for k, v in sorted(d.items(), key=lambda x: -x[1]):
    if v >= lim:
        print(k, v)
