#!/usr/bin/env python3
"""Writes data/detect.json: per script the letters and what a text of them is detected as, to be read through by hand."""
import importlib.util
import json
import os
import sys
import unicodedata
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from engine import lib
from checks import c03, c09

UD = '/opt/venv/lib/python3.12/site-packages/fontTools/unicodedata/Scripts.py'
ns = {}
exec(compile(open(UD, encoding='utf8').read(), UD, 'exec'), ns)


def script(c):
    import bisect
    return ns['VALUES'][bisect.bisect_right(ns['RANGES'], ord(c)) - 1]


LATIN_OK = {'IAST', 'ISO', 'HK', 'Itrans', 'Latn', 'Titus', 'BurmeseRomanLoC'}
fam = {}
extra = {'HIRAGANA': map(chr, range(0x3041, 0x3095)), 'KATAKANA': map(chr, range(0x30A1, 0x30FB))}
for s, x in list(c09.letters().items()) + [(k, {'own': '', 'block': ''.join(v)}) for k, v in extra.items()]:
    for c in x['own'] + x['block']:
        if unicodedata.category(c)[0] in 'LM' and unicodedata.category(c) != 'Lm' or c in extra.get(s, ()):
            w = c03.word(c)
            w += ' ' + script(c) if w in ('INSCRIPTIONAL', 'SOGDIAN', 'TAI') else ''
            fam.setdefault(w, set()).add(c)
drop = {'COMBINING', 'MODIFIER', 'SUPERSCRIPT', 'SUBSCRIPT', 'VEDIC', 'ZERO', 'CHINESE', 'HUNGARIAN-', 'MUSICAL', 'DOUBLE', 'MASCULINE', 'FEMININE'}
fam = {w: ''.join(sorted(cs)) for w, cs in fam.items() if w not in drop}
tab = {}
for cs in fam.values():
    for c in cs:
        tab.setdefault(script(c), set()).add(c)
ip = lib.interp()
KNOWN = set(lib.all_scripts(ip)) | {'Hebrew'}
out = {'script': {k: ''.join(sorted(v)) for k, v in sorted(tab.items())}, 'detect': [], 'options': []}
c03._S = {c: k for k, v in out['script'].items() for c in v}
c03._S.update({c: 'Zyyy' for c in c03.SHARED})


def run(jobs):
    r = {}
    for j, x, err in lib.parallel(c03.one, jobs):
        if err:
            print('gap', j[:2], err[-200:])
        r[j] = x and x[0]
    return r


# which letters alone tell another member of the family
single = run([('auto_detect', p, '', c) for w, cs in fam.items() for c in cs for p in (False, True)])
todo, lst = [], []
for w, cs in sorted(fam.items()):
    n = {}
    for c in cs:
        k = single[('auto_detect', False, '', c)]
        n[k] = n.get(k, 0) + 1
    base = 'HK' if w == 'LATIN' else max((k for k in n if k), key=n.get)
    b = ''.join(c for c in cs if c.isascii() and c.isalpha() and c != 'w' or w != 'LATIN' and single[('auto_detect', False, '', c)] == base)
    b = ''.join(c for c in b if c not in '\u0654\u0615\u1039')
    lst.append((w, b, ''))
    lst += [(w, b, c) for c in cs if c not in b]
    if len(set(single[('auto_detect', False, '', c)] for c in cs)) > 1:
        # any letters of the whole family besides
        lst += [(w, cs, c) for c in cs if c not in b] + [(w, cs, '')]
    if w == 'LATIN':
        dia = [c for c in cs if single[('auto_detect', False, '', c)] == ('IAST',)]
        lst += [(w, b, c + x) for c in dia for x in '\u0113\u014d']
        lst += [(w, b + ''.join(dia) + 'w\u0161\u0113\u014d', c) for c in '\u02be\u02bf\u02b0\u0161w']
        lst += [(w, b + ''.join(dia), c) for c in '\u00b4\u02dd\u02bb']
        lst += [(w, b + ''.join(dia), c) for c in dia]
    if w == 'MYANMAR':
        sub = [c for c in cs if [k for k in ('SHAN', 'LAING', 'KHAMTI') if k in unicodedata.name(c)] and c != '\u1083']
        for k in ('SHAN', 'LAING', 'KHAMTI'):
            own = [c for c in sub if k in unicodedata.name(c)]
            lst += [(w, b + ''.join(own), c) for c in own]
r = run([('auto_detect', p, b, m) for w, b, m in lst for p in (False, True)])
for w, b, m in lst:
    got = [r[('auto_detect', p, b, m)] for p in (False, True)]
    print(w, len(b), ' '.join('U+%04X' % ord(c) for c in m), got[0], '' if got[0] == got[1] else got[1])
    if None not in got and w not in ('TAI Tale', 'TAI Tavt') and any(x in KNOWN for x in got[0]):
        out['detect'].append({'letters': b, 'must': m, 'is': [list(g) for g in got]})
# pre-options
lst = []
for s in ('Thai', 'Lao', 'LaoPali', 'Urdu', 'Arab', 'Arab-Fa', 'Devanagari', 'Burmese', 'Khmer', 'Sinhala', 'TaiTham', 'Tamil', 'IAST', 'Siddham'):
    cs = ''.join(c for c in c09.letters()[s]['own'] if unicodedata.category(c)[0] in 'LM')
    if s == 'Thai':
        cs = ''.join(sorted(set(cs + '\u0e31\u0e47\u035c\u0325\u0e4d\u0e30\u0e4c')))
    if s.startswith('Lao'):
        cs = ''.join(sorted(set(cs + '\u0eb0\u0eb1\u0ecc')))
    lst.append((s, cs))
single = run([('detect_preoptions', s, '', c) for s, cs in lst for c in cs])
l2 = []
for s, cs in lst:
    n = {}
    for c in cs:
        k = single[('detect_preoptions', s, '', c)]
        n[k] = n.get(k, 0) + 1
    base = max((k for k in n if k), key=n.get)
    b = ''.join(c for c in cs if single[('detect_preoptions', s, '', c)] == base)
    b = ''.join(c for c in b if c not in '\u0e4d\u0e2b\u0eab')
    l2 += [(s, b, '')] + [(s, b, c) for c in cs if c not in b]
    odd = [c for c in cs if c not in b]
    l2 += [(s, b + x, c) for c in odd for x in odd if x != c]
r = run([('detect_preoptions', s, b, c) for s, b, c in l2])
for s, b, c in l2:
    got = r[('detect_preoptions', s, b, c)]
    print(s, len(b), ' '.join('U+%04X' % ord(x) for x in c), got)
    if got is not None:
        out['options'].append({'script': s, 'letters': b, 'must': c, 'is': list(got)})
json.dump(out, open(c03.DATA, 'w', encoding='utf8'), ensure_ascii=True, indent=0)
print(len(out['detect']), len(out['options']))
