#!/usr/bin/env python3
"""Writes data/codes.json: the script each code stands for. Each is checked against the package's list of scripts."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import lib
from checks import c14
ip = lib.interp()
load = ip.func('aksharamukha.transliterate', '_load_data')
d = ip.call(load, ['/yaml/aksharamukha-scripts.yaml'], {}, None)
names = lib.scripts(ip)
info = {k: (v['script'], [x.strip() for x in v['lang'].split(',')] if 'lang' in v else []) for k, v in d.items()}
S = {s for s, _ in info.values()} - {'Zzzz'}
L = {l for _, ls in info.values() for l in ls}
both = {'%s-%s' % (l, s) for s, ls in info.values() for l in ls if s != 'Zzzz'}
sem = [n for n in names if n in ip.load('aksharamukha.GeneralMap').vars['SemiticScripts']]
latin = [n for n in names if n in ip.load('aksharamukha.GeneralMap').vars['LatinScripts'] and '-' not in n]
codes = {'script_code': S | both | {'latn-' + n for n in latin} | {'Latn', 'en', 'eng', 'Syrc'} | set(sem),
         'lang_code': L | both | {'la-' + n for n in latin} | {'la', 'en', 'eng', 'sa', 'san', 'pi', 'pli'} |
         {'sa-' + s for s in S} | {'pli-' + s for s in S}}
out = {}
for p, cs in codes.items():
    out[p] = {}
    o = c14.OTHER[p][0]
    for (_, c, _, _), (r, _), err in lib.parallel(c14.resolve, [(p, c, o, True) for c in sorted(cs)]):
        if r[0] != 'ok' or not isinstance(r[1], str):
            print(p, c, r)
            continue
        s = r[1]
        if s in info:
            a, _, b = c.partition('-')
            fits = c in (info[s][0], s) or c in info[s][1] or (b == info[s][0] and (a in info[s][1] or a in ('sa', 'san', 'pi', 'pli')))
            if not fits:
                print('odd', p, c, s)
        out[p][c] = s
json.dump(out, open(c14.DATA, 'w', encoding='utf8'), ensure_ascii=False, indent=0, sort_keys=True)
print({p: len(c) for p, c in out.items()})
