#!/usr/bin/env python3
"""Writes data/kept.json: which of the watched characters each pair of scripts and each option uses itself (reviewed by hand),
and every character the sources and tables mention."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
import ast
from engine import lib, jobs
from checks import c17
ip = lib.interp()
lost, never = {}, {}
said = set()
for m in ip.modules.values():
    if getattr(m, 'tree', None) is not None:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                said |= set(n.value)
for root, _, fs in os.walk(os.path.join(lib.REPO, 'aksharamukha', 'json')):
    for f in fs:
        if f.endswith('.json'):
            said |= set(json.dumps(json.load(open(os.path.join(root, f), encoding='utf8')), ensure_ascii=False))
said -= set(c17.PLAIN)
import collections
nall = collections.Counter()
for name, j, r, err in c17.collect():
    if r is None or name == 'marks':
        continue
    w = c17.what(j)
    l = set(''.join(x[3] for x in r[1])) | set(r[3])
    if j[0] == 'copt':
        l -= set().union(*[lost.get(x, set()) for x in w])
        for o in w[3:]:
            lost.setdefault(o, set()).update(l)
    else:
        lost.setdefault(w[0], set()).update(l)
    g = set(r[2] or '') - said
    if g:
        for x in (w[1:2] if len(w) > 1 else w[:1]):
            never.setdefault(x, set()).update(g)
pairs = {k: v for k, v in lost.items() if '>' in k}
# a character lost from a source whatever the target, or to a target whatever the source, is that script's own
for side in (0, 1):
    for s in {k.split('>')[side] for k in pairs}:
        ks = [k for k in pairs if k.split('>')[side] == s and len(set(k.split('>'))) == 2]
        common = set.intersection(*[pairs[k] for k in ks]) if ks else set()
        if common:
            for k in pairs:
                if k.split('>')[side] == s:
                    pairs[k] = pairs[k] - common
            lost[s + '>' if side == 0 else '>' + s] = common
for k, v in pairs.items():
    lost[k] = v
json.dump({'lost': {k: ''.join(sorted(v)) for k, v in sorted(lost.items()) if v}, 'never': {k: ''.join(sorted(v)) for k, v in sorted(never.items())}, 'mentioned': ''.join(sorted(said))},
          open(c17.DATA, 'w', encoding='utf8'), ensure_ascii=True, indent=0)
