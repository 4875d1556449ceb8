"""Writes data/rules.json: which conversions do not use a script's rules (run on a tree known to be good)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from checks import c22
from engine import lib, sweep

ip = lib.interp()
ip.memo_on = False
have = set(c22.rules(ip).values())
use, seen = {}, {}
for (j, w), r, err in lib.parallel(c22.one, c22.pair_jobs(ip, 'thorough')):
    if err or r[0] != 'ok':
        continue
    s, t = j[1], j[2]
    for name, side, o in ((c22.rule_name(t), 'target', s), (c22.rule_name(s), 'source', t)):
        if name in have:
            seen.setdefault((name, side), set()).add(o)
            if (name, side == 'source') in r[1]:
                use.setdefault((name, side), {}).setdefault(o, set()).add(j[3])
out = {}
for (name, side), os_ in sorted(seen.items()):
    u = {o for o, n in use.get((name, side), {}).items() if n == {True, False}}
    out.setdefault(name, {'source': None, 'target': None})[side] = sorted(os_ - u) if u else None
json.dump(out, open(c22.DATA, 'w'), indent=0, sort_keys=True)
print(len(out), {k: (d['source'] and len(d['source']), d['target'] and len(d['target'])) for k, d in out.items()})
