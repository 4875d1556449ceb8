"""C14: script and language codes stand for the scripts they are listed with; unknown codes are refused."""
import json
import os

from engine import absint as A, charset as C, jobs, lib, sweep

DATA = os.path.join(lib.HERE, 'data', 'codes.json')
OTHER = {'script_code': ('Deva', 'Devanagari'), 'lang_code': ('hi', 'Devanagari')}
UNK = {'script_code': ('Zzyx', 'Dev', 'hi-Zzyx', 'xqx-Deva', 'ta-Deva', 'Devanagariii'),
           'lang_code': ('xqx', 'hindi', 'xqx-Deva', 'hi-Zzyx', 'ta-Deva', 'h')}
CASES = {'as': str, 'lower': str.lower, 'upper': str.upper, 'title': str.title}


def resolve(job):
    """(source, target) handed to convert, or why not"""
    param, s, t, nat = job
    ip = lib.IP
    ip.covered = set()
    del jobs.SEEN[:]
    ip.hooks['transliterate.convert'] = jobs.convert_stub
    ip.memo_on = False
    try:
        st, v = sweep.run(ip, ip.func('aksharamukha.transliterate', 'process'), [s, t, A.AStr(C.ALL, frozenset(['text']), True)],
                          {'nativize': nat, 'param': param})
    finally:
        ip.hooks.clear()
        ip.memo_on = True
    if st == 'raise':
        return ('raise', v.exc, v.msg), frozenset(ip.covered)
    if len(jobs.SEEN) != 1:
        return ('calls', len(jobs.SEEN)), frozenset(ip.covered)
    v = list(jobs.SEEN[0].values())
    return ('ok', v[0], v[1]), frozenset(ip.covered)


def job_list(d, tier):
    """(param, source, target, nativize), expected source and target"""
    out = []
    for p, codes in d.items():
        o, os_ = OTHER[p]
        for i, (c, want) in enumerate(sorted(codes.items())):
            cases = list(CASES.values()) if tier != 'quick' else [str, list(CASES.values())[1 + i % 3]]
            if tier == 'quick' and '-' in c and i % 4:
                cases = [cases[i % 2]]
            for f in cases:
                if (c in KEEP or c == want) and f is not str or '-' in c and c.split('-')[0] in ('latn', 'la', 'en', 'eng') and f is not str:
                    continue
                out.append(((p, f(c), o, True), (want, os_)))
                out.append(((p, o, f(c), False), (os_, want)))
    return out


# the Semitic engine's own names are looked up as they are written
KEEP = ('Syrc',)


def run(R):
    ip = lib.interp()
    jobs.anchors(ip)
    d = json.load(open(DATA, encoding='utf8'))
    js = job_list(d, R.tier)
    # what might be taken for a code: the names of the scripts and their beginnings, a code with its last letter gone, two codes in one
    near = {}
    for p, cs in d.items():
        have = {c.lower() for c in cs}
        near[p] = {x for n in sorted(set(d['script_code'].values()) | set(d['lang_code'].values())) for x in (n.lower()[:2], n.lower()[:3], n[:4], n)
                   if x.lower() not in have}
        near[p] |= {x for c in sorted(cs)[::7] if '-' not in c for x in (c[:-1], c + 'x', c + ' ', c + ',') if x and x.strip().lower() not in have and x.lower() not in have}
        near[p] = sorted(near[p])
    want = dict(js)
    UNKNOWN = {p: tuple(UNK[p]) + tuple(near[p]) for p in UNK}
    bad = [(p, c, OTHER[p][0], True) for p, cs in UNKNOWN.items() for c in cs] + [(p, OTHER[p][0], c, True) for p, cs in UNKNOWN.items() for c in cs]
    n = und = gaps = 0
    cov = set()
    for j, r, err in lib.parallel(resolve, [j for j, _ in js] + bad):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        r, c = r
        cov |= c
        p, s, t, _ = j
        k = '%s|%s>%s' % (p, s.lower(), t.lower())
        if j not in want:
            x = s if t == OTHER[p][0] else t
            if r[0] == 'ok':
                R.hit('accepted|' + k, 'the unknown %s %s is taken for %s' % (p, x, r[1] if x == s else r[2]))
            elif r[0] == 'raise' and r[1] not in ('Exception', 'ValueError', 'LookupError') or r[0] == 'raise' and x not in r[2] and '?' not in r[2]:
                R.hit('refused|' + k, 'the unknown %s %s gives %s: %s' % (p, x, r[1], r[2][:80]))
            continue
        if r[0] == 'raise':
            R.hit('raises|' + k, 'process %s -> %s (%s) raises %s: %s' % (s, t, p, r[1], r[2][:80]))
        elif r[0] == 'calls':
            R.hit('calls|' + k, 'process %s -> %s (%s) calls convert %d times' % (s, t, p, r[1]))
        else:
            for what, a, b in (('source', r[1], want[j][0]), ('target', r[2], want[j][1])):
                if not isinstance(a, str):
                    und += 1
                elif a != b:
                    R.hit('script|' + k, 'process %s -> %s (%s): the %s is %s, expected %s' % (s, t, p, what, a, b))
    if gaps + und > 0.3 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps + und, n))
    R.cov.update(explanation='every code of data/codes.json, on either side and in several cases, is followed by constant propagation through '
                             'the resolution (and the data files) for an arbitrary text; the scripts handed to convert are compared',
                 codes={p: len(c) for p, c in d.items()}, calls=n, undecided=und, functions_reached=len(cov), engine_gaps=gaps)
