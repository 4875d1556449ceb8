#!/usr/bin/env python3
"""Writes data/routes.json: which scripts the core converts between for a pair, and which pairs and options depart from the plain order of steps."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import lib
from checks import c13
ip = lib.interp()
c13.HOOKS = c13.hooks(ip)
J = {'except': {}, 'option': {}, 'route': {}}
for j, r, err in lib.parallel(c13.one, c13.job_list(ip, 'thorough')):
    p = '%s>%s' % j[1:3]
    ks = {'%s|%s' % (b[0], c13.cls(b[1], j)) for b in r[0]}
    if ks:
        J['except'][p] = sorted(ks | set(J['except'].get(p, ())))
    if r[1] != ['>'.join(j[1:3])]:
        J['route'][c13.key(j)] = r[1]
for j, r, err in lib.parallel(c13.one, c13.special_jobs(ip, 'thorough')):
    o = (j[4] + j[5])[0]
    ks = {'%s|%s' % (b[0], c13.cls(b[1], j)) for b in r[0]} - set(J['except'].get('%s>%s' % j[1:3], ()))
    if ks:
        J['option'][o] = sorted(ks | set(J['option'].get(o, ())))
        print(j, ks)
json.dump(J, open(c13.DATA, 'w', encoding='utf8'), ensure_ascii=False, indent=0, sort_keys=True)
print({k: len(v) for k, v in J.items()}, J['option'])
