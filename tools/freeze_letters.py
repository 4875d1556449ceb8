#!/usr/bin/env python3
"""Writes data/letters.json: per script the characters of its tables (`own`), and the further characters of its block (`block`)."""
import json
import os
import sys
import unicodedata
from collections import Counter
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import absint as A, lib
ip = lib.interp()
gm = ip.load('aksharamukha.GeneralMap').vars
crunch = ip.func('aksharamukha.GeneralMap', 'CrunchSymbols')
own = {}
for s in lib.all_scripts(ip):
    o = set()
    try:
        for n in ('Vowels', 'VowelSigns', 'Consonants', 'CombiningSigns', 'Numerals', 'Signs', 'Aytham'):
            for x in ip.call(crunch, [gm[n], s], {}, None):
                o |= set(x)
    except A.AbsRaise:
        o = set()
    own[s] = o
d = json.load(open(os.path.join(lib.REPO, 'aksharamukha/json/gimeltra_data.json'), encoding='utf8'))
for s, m in d['ssub'].items():
    for t, mm in m.items():
        if s == 'Latn':
            own.setdefault(t, set()).update(*map(set, mm.values()))
            own.setdefault('Latn', set()).update(*map(set, mm))
        else:
            own.setdefault(s, set()).update(*map(set, mm))
LATIN = ('LATIN', 'COMBINING', 'MODIFIER', 'GREEK', 'CYRILLIC', 'CJK', 'KATAKANA', 'HIRAGANA', 'KATAKANA-HIRAGANA', 'SUPERSCRIPT')


def word(c):
    try:
        return unicodedata.name(c).split()[0]
    except ValueError:
        return ''


byword = {}
for cp in range(0x80, 0x110000):
    c = chr(cp)
    if unicodedata.category(c)[0] in 'LMNP' and not 0xFB00 <= cp <= 0xFEFF and not 0x10E60 <= cp < 0x10E80 and not 0x1E000 <= cp < 0x1F000:
        byword.setdefault(word(c), set()).add(c)
for s in ('ISO259', 'HebrewSBL', 'ISO233', 'PersianDMG'):
    own[s] = own[s] | own['Latn']
own['RomanLoC'] = own['RomanLoC'] | own['DevanagariRomanLoC']
out = {}
for s in own:
    ws = Counter(word(c) for c in own[s] if unicodedata.category(c)[0] in 'LMN' and ord(c) > 127)
    ws = [w for w, n in ws.items() if n >= 5 and w and w not in LATIN]
    b = set().union(*[byword.get(w, set()) for w in ws])
    if len(b) > 450:
        b = set()
    o = {c for c in own[s] if not c.isascii() or (c.isalpha() and not ws)}
    if o:
        out[s] = {'own': ''.join(sorted(o)), 'block': ''.join(sorted(b - o))}
json.dump(out, open(os.path.join(H, 'data', 'letters.json'), 'w', encoding='utf8'), ensure_ascii=True, indent=0)
print(len(out), sum(len(v['own']) for v in out.values()), sum(len(v['block']) for v in out.values()))
print([s for s in own if s not in out], [s for s in out if len(out[s]['block']) > 150])
