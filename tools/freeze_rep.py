#!/usr/bin/env python3
"""Writes data/repertoire.json: what stays of the source and what else can appear, per pair, script and option."""
import json
import os
import sys
from collections import Counter, defaultdict
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import lib, jobs
from checks import c09
ip = lib.interp()
js = list({str(j): j for j in c09.job_list(ip, "thorough")}.values())
left = defaultdict(lambda: defaultdict(set))
odd = defaultdict(lambda: defaultdict(set))
later = []
tg = defaultdict(set)
und = 0
for j, r, err in lib.parallel(c09.one, js):
    if r is None:
        und += 1
        continue
    l, o = c09.split(j, r[0])
    s, t = j[1:3]
    if j[0] == 'copt':
        later.append((j, l, o))
        continue
    tg[s].add(t)
    for c in l:
        left[s][c].add(t)
    for c in o:
        odd[t][c].add(s)
oddt, pair = {}, defaultdict(set)
for t in odd:
    oddt[t] = {c for c, ss in odd[t].items() if len(ss) > 3}
    for c, ss in odd[t].items():
        if len(ss) <= 3:
            for s in ss:
                pair['%s>%s' % (s, t)].add(c)
opt = defaultdict(set)
later.sort(key=lambda x: len(x[0][4] + x[0][5]))
for j, l, o in later:
    s, t = j[1:3]
    x = {c for c in l if t not in left[s].get(c, ())} | {c for c in o if c not in oddt.get(t, ()) and c not in pair.get('%s>%s' % (s, t), ())}
    os_ = list(j[4]) + list(j[5])
    x -= set().union(*[opt[k] for k in os_])
    for k in os_[-1:]:
        opt[k] |= x


def enc(s, ts):
    return '*' if len(ts) >= 0.8 * len(tg[s]) else ' '.join(sorted(ts))


J = {'left': {s: {c: enc(s, ts) for c, ts in sorted(m.items())} for s, m in sorted(left.items())},
     'odd': {t: ''.join(sorted(v)) for t, v in sorted(oddt.items()) if v},
     'pair': {k: ''.join(sorted(v)) for k, v in sorted(pair.items())},
     'opt': {k: ''.join(sorted(v)) for k, v in sorted(opt.items()) if v}}
json.dump(J, open(c09.DATA, 'w', encoding='utf8'), ensure_ascii=False, indent=0)
print(len(js), 'und', und, {k: len(v) for k, v in J.items()}, sum(len(v) for v in J['opt'].values()))
