"""C03: a text written in one script is detected as that script, and with the pre-options its spelling needs."""
import json
import os
import unicodedata

from engine import absint as A, charset as C, jobs, lib, models, rx as R, sweep

DATA = os.path.join(lib.HERE, 'data', 'detect.json')
LETTER = ('Lo', 'Ll', 'Lu', 'Lt', 'Mn', 'Mc')
T = 'aksharamukha.transliterate'
SHARED = ' \n\t.,;:!?()-\u2013\u2014\u201c\u201d\u2018\u2019"\'0123456789/\u2026\u200c\u200d\u0964\u0965'


def one(job):
    """the answers the detection can give for all texts of `letters` and the shared signs that hold `must` (or any letter)"""
    fn, arg, letters, must = job
    ip = lib.IP
    ip.covered = set()
    R.FOREIGN = tuple(must or letters)
    ip.memo.clear()
    some = [c for c in must if unicodedata.category(c) in LETTER]
    tok = {('any', frozenset(some or letters or must))} | set(must)
    txt = A.AStr(C.of(letters + must + SHARED), frozenset(tok), True)
    ip.enum, old = True, A.MAX_ALT
    A.MAX_ALT = 600
    models.SCRIPT_OF = scripts_of().get
    try:
        st, v = sweep.run(ip, ip.func(T, fn), [txt, arg])
    finally:
        ip.enum, A.MAX_ALT = False, old
    if st != 'ok':
        return ('raises ' + v.exc, ), frozenset(ip.covered)
    return answers(v), frozenset(ip.covered)


def answers(v):
    """the possible answers, None when they cannot be told"""
    out = set()
    for x in A.alts(v):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, (A.L, tuple)) and not any(isinstance(y, A.Vague) for y in x):
            if not x:
                out.add('nothing')
            for y in x:
                for z in A.alts(y):
                    if not isinstance(z, str):
                        return None
                    out.add(z)
        elif isinstance(x, (A.AList, A.L)):
            if not A.certain(x):
                out.add('nothing')
            for y in ([x.elem] if isinstance(x, A.AList) else A.plain(x)):
                for z in A.alts(y):
                    if not isinstance(z, str):
                        return None
                    out.add(z)
        else:
            return None
    return tuple(sorted(out))


_S = None


def scripts_of():
    """what fontTools.unicodedata.script says of each letter (a frozen copy of that library's table)"""
    global _S
    if _S is None:
        _S = {c: k for k, cs in json.load(open(DATA, encoding='utf8'))['script'].items() for c in cs} if os.path.exists(DATA) else {}
        _S.update({c: 'Zyyy' for c in SHARED})
        _S['\u200c'] = _S['\u200d'] = 'Zinh'
    return _S


def word(c):
    w = unicodedata.name(c, '').split(' ')
    return w[0] if w[0] != 'OLD' else w[1]


def job_list(d):
    out = []
    for f in d['detect']:
        for plugin in (False, True):
            out.append((('auto_detect', plugin, f['letters'], f['must']), f['is'][plugin]))
    for f in d['options']:
        out.append((('detect_preoptions', f['script'], f['letters'], f['must']), f['is']))
    return out


def run(R_):
    ip = lib.interp()
    jobs.anchors(ip)
    d = json.load(open(DATA, encoding='utf8'))
    js = job_list(d)
    want = dict(js)
    n = und = gaps = 0
    cov = set()
    for j, r, err in lib.parallel(one, [j for j, _ in js]):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        got, c = r
        cov |= c
        if got is None:
            und += 1
            continue
        fn, arg, letters, must = j
        odd = [x for x in got if x not in want[j]]
        if odd:
            what = 'letters of ' + (arg if fn == 'detect_preoptions' else unicodedata.name(letters[-1] if letters else must, '?').split(' ')[0].lower())
            w = ' with ' + ' '.join('U+%04X' % ord(x) for x in must) if must else ''
            R_.hit('%s|%s%s|%s' % (fn, what, w, '' if fn == 'detect_preoptions' else 'plugin' if arg else 'plain'),
                   '%s of a text of %s%s can give %s, not only %s' % (fn, what, w, ' '.join(odd), ' '.join(want[j])))
    if gaps + und > 0.3 * n:
        raise lib.Broken('the interpreter could not follow %d of %d detections' % (gaps + und, n))
    R_.cov.update(explanation='the detection functions are interpreted for all texts over the letters of one script and the shared '
                              'signs, each character its own case; the set of possible answers is compared with data/detect.json',
                  letter_sets=n, undecided=und, functions_reached=len(cov), engine_gaps=gaps)
