#!/usr/bin/env python3
"""Writes data/counterparts.json: per pair, for each character of the result the groups of letters it can come from."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import lib
from checks import c12
ip = lib.interp()
js = c12.job_list(ip, sys.argv[1] if len(sys.argv) > 1 else 'thorough')
got, st = c12.signatures(ip, js)
J = {}
for k, o in got.items():
    if o is not None:
        g = {}
        for c, m in o.items():
            g.setdefault('%x' % m, []).append(c)
        J[k] = {m: ''.join(sorted(cs)) for m, cs in sorted(g.items())}
json.dump(J, open(c12.DATA, 'w', encoding='utf8'), ensure_ascii=False, indent=0)
print(len(js), len(J), {k: v for k, v in st.items() if k != 'cov'}, len(st['cov']))
