"""C12: every letter is converted to its own counterpart."""
import ast
import json
import os
import unicodedata
from itertools import combinations

from checks import c09
from engine import absint as A, charset as C, jobs, lib, sweep

DATA = os.path.join(lib.HERE, 'data', 'counterparts.json')
K = 16
CODES = list(combinations(range(K), 4))
FREE = " \n.,-'\u200c\u200d"
HUB = ('Devanagari', 'IAST')
SEM = ('Arab', 'Hebr')


def alphabet(s):
    """the characters of the script's tables and block, without digits, in a fixed order"""
    d = c09.letters().get(s)
    if not d:
        return []
    return [c for c in d['own'] + (d['block'] if len(d['block']) < 150 else '') if not c.isdigit() and c not in FREE]


def always(s):
    """virama, nukta and the like: they stand in every run"""
    d = c09.letters().get(s, {})
    return [c for c in d.get('own', '') if unicodedata.combining(c) in (7, 9)]


def runs_of(s):
    al = alphabet(s)
    code = {c: CODES[(i * 1009) % len(CODES)] for i, c in enumerate(al)}
    return [always(s) + [c for c in al if i in code[c]] for i in range(K)]


def one(arg):
    job, i = arg
    ip = lib.IP
    ip.covered = set()
    use = runs_of(job[1])[i]
    st, v = jobs.run(ip, job, A.AStr(C.of(''.join(sorted(set(use) | set(FREE))))))
    if st != 'ok':
        return None
    if isinstance(v, (A.OneOf, str)):
        v = A.to_astr(v)
    if not isinstance(v, A.AStr) or v.cs.neg:
        return None
    return ''.join(c for c in v.cs.chars() if c not in FREE), frozenset(ip.covered)


def job_list(ip, tier):
    al = {s: len(alphabet(s)) for s in lib.all_scripts(ip)}
    ok = lambda s, t: al.get(s, 0) >= 5 and (s, t) != ('Tamil', 'IPA') and t not in ('Hiragana', 'Katakana')
    names = lib.all_scripts(ip)
    sem = [s for s in lib.scripts(ip) if s in ip.load('aksharamukha.GeneralMap').vars['SemiticScripts']]
    ps = {(a, h) for a in names for h in HUB} | {(h, a) for a in names for h in HUB}
    ps |= {(a, h) for a in sem for h in SEM} | {(h, a) for a in sem for h in SEM}
    ps |= {p for p in sweep.mentioned_pairs(ip, names, 14)}
    if tier != 'quick':
        ps |= {(a, h) for a in names for h in sweep.HUBS} | {(h, a) for a in names for h in sweep.HUBS}
    js = [('conv', s, t, True) for s, t in sorted(ps) if ok(s, t)]
    js += [('conv', s, t, False) for s, t in sorted(ps) if ok(s, t) and (s in HUB[:1] or t in HUB[:1])]
    for side, mod in (('pre', 'PreProcess'), ('post', 'PostProcess')):
        for o in jobs.option_fns(ip, mod):
            l = jobs.option_pairs(ip, o)
            l = (l[2:] or l)[:1 if tier == 'quick' else 2]
            h = hosts(ip, mod, o, [n for n in names if al[n] >= 5])
            l += [(x, t) if side == 'pre' else (t, x) for x in h for t in (HUB if tier != 'quick' else HUB[:1]) if x != t]
            for s, t in dict.fromkeys(l):
                if ok(s, t):
                    js.append(('copt', s, t, True, [o] if side == 'pre' else [], [o] if side == 'post' else []))
    return list({key(j): j for j in js}.values())


def hosts(ip, mod, o, names):
    """the two scripts with most of the letters the option function mentions"""
    f = ip.func('aksharamukha.' + mod, o)
    cs = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value != ast.get_docstring(f.node, False):
            cs |= {c for c in n.value if not c.isascii() and c not in FREE}
    L = c09.letters()
    sc = {n: (len(cs & set(L[n]['own'] + L[n]['block'])), -len(L[n]['own'] + L[n]['block'])) for n in names if n in L}
    best = sorted((n for n in sc if sc[n][0]), key=lambda n: (sc[n], n), reverse=True)
    return best[:2]


def key(j):
    return '%s>%s' % j[1:3] + (' ' + ' '.join(j[4] + j[5]) if j[0] == 'copt' else '' if j[3] else ' plain')


def signatures(ip, js):
    """{key: {character of the result: set of the runs it can come from}}"""
    out, st = {}, {'runs': 0, 'undecided': 0, 'gaps': 0, 'cov': set()}
    for (j, i), r, err in lib.parallel(one, [(j, i) for j in js for i in range(K)]):
        st['runs'] += 1
        if err:
            st['gaps'] += 1
            lib.gap(err)
        k = key(j)
        if r is None:
            st['undecided'] += 1
            out[k] = None
            continue
        st['cov'] |= r[1]
        if out.get(k, 0) is not None:
            o = out.setdefault(k, {})
            for c in r[0]:
                o[c] = o.get(c, 0) | 1 << i
    return out, st


def run(R):
    ip = lib.interp()
    jobs.anchors(ip)
    base = json.load(open(DATA, encoding='utf8'))
    js = job_list(ip, R.tier)
    got, st = signatures(ip, js)
    if st['gaps'] > 0.2 * st['runs'] or st['undecided'] > 0.5 * st['runs']:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (st['undecided'], st['runs']))
    show = {key(j): jobs.show(j) for j in js}
    n = 0
    for k, o in got.items():
        if o is None or k not in base:
            continue
        was = {c: int(h, 16) for h, cs in base[k].items() for c in cs}
        src = k.split('>')[0]
        for c in sorted(set(o) | set(was)):
            n += 1
            a, b = was.get(c, 0), o.get(c, 0)
            if b & ~a:
                R.hit('from|U+%04X|%s' % (ord(c), k), '%s can give U+%04X for other letters (%s)' % (
                    show[k], ord(c), ' '.join('U+%04X' % ord(x) for x in blame(src, a, b)[:6])))
            elif a & ~b:
                R.hit('never|U+%04X|%s' % (ord(c), k), '%s never gives U+%04X for letters it stands for' % (show[k], ord(c)))
    R.cov.update(explanation='the letters of the source are coded in sixteen groups so that each is in its own four, with the virama and nukta in all; for each group the '
                             'set of characters the result can hold is computed, which tells for each character of the result which '
                             'letters it can come from; compared with the frozen correspondence (data/counterparts.json)',
                 conversions=len(got), runs=st['runs'], characters_compared=n, undecided=st['undecided'],
                 functions_reached=len(st['cov']), engine_gaps=st['gaps'])


def blame(src, a, b):
    """letters in all the new groups"""
    new = [i for i in range(K) if (b & ~a) >> i & 1]
    gs = runs_of(src)
    return [c for c in alphabet(src) if all(c in gs[i] for i in new)] or [c for c in alphabet(src) if any(c in gs[i] for i in new)]
