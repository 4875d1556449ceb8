#!/usr/bin/env python3
"""Writes data/latin.json: the letters of other alphabets which a pair of scripts or an option uses itself (reviewed by hand)."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from checks import c17, c18
from engine import lib
lost, ran = {}, set()
for j, r, err in c18.collect('quick'):
    if r is None:
        continue
    l = set(''.join(x[3] for x in r[1])) & set(r[0]) | set(r[3])
    w = c17.what(j)
    if j[0] == 'conv':
        ran.add(w[0])
    if not l:
        continue
    if j[0] == 'copt':
        l -= set().union(*[lost.get(x, set()) for x in w])
        for o in w[3:]:
            lost.setdefault(o, set()).update(l)
    else:
        lost.setdefault(w[0], set()).update(l)
latin = c18.roman(lib.interp())
pairs = {k: v for k, v in lost.items() if '>' in k}
# a letter lost in a fair part of the conversions from a script, or to a script, is that script's own
for side in (0, 1):
    for s in {k.split('>')[side] for k in pairs}:
        ks = [k for k in ran if k.split('>')[side] == s and len(set(k.split('>'))) == 2 and k.split('>')[1 - side] not in latin]
        common = {x for k in ks for x in pairs.get(k, ()) if sum(x in pairs.get(q, ()) for q in ks) >= max(3, len(ks) / 5)}
        if common:
            for k in pairs:
                if k.split('>')[side] == s:
                    pairs[k] = pairs[k] - common
            lost[s + '>' if side == 0 else '>' + s] = common
lost.update(pairs)
json.dump({k: ''.join(sorted(v)) for k, v in sorted(lost.items()) if v}, open(c18.DATA, 'w', encoding='utf8'), ensure_ascii=False, indent=0)
