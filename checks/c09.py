"""C09: a conversion leaves no letters of the source, of other scripts, or internal markers."""
import json
import os

from engine import absint as A, charset as C, jobs, lib, sweep

LETTERS = os.path.join(lib.HERE, 'data', 'letters.json')
DATA = os.path.join(lib.HERE, 'data', 'repertoire.json')
NEUTRAL = ''.join(chr(i) for i in range(32, 127)) + '\t\n\u200c\u200d।॥'
LET = None


def letters():
    global LET
    if LET is None:
        LET = json.load(open(LETTERS, encoding='utf8'))
    return LET


def own(s):
    d = letters().get(s)
    return set(d['own'] + d['block']) if d else set()


def one(job):
    ip = lib.IP
    ip.covered = set()
    s = job[1]
    st, v = jobs.run(ip, job, A.AStr(C.of(''.join(sorted(own(s) | set(NEUTRAL))))))
    if st != 'ok':
        return None
    if isinstance(v, (A.OneOf, str)):
        v = A.to_astr(v)
    if not isinstance(v, A.AStr) or v.cs.neg:
        return None
    return ''.join(v.cs.chars()), frozenset(ip.covered)


def job_list(ip, tier):
    js = [j for j in jobs.all_jobs(ip, tier) if j[0] in ('conv', 'copt') and own(j[1])]
    js = [j for j in js if j[1:3] != ('Tamil', 'IPA') and j[2] not in ('Hiragana', 'Katakana')]
    return js


def split(j, out):
    """(characters of the source left over, foreign characters) of a result"""
    s, t = j[1:3]
    so, to = own(s), set(letters().get(t, {}).get('own', ''))
    left = {c for c in out if c in so and c not in to}
    odd = {c for c in out if c not in so and c not in to and c not in NEUTRAL}
    return left, odd


def run(R):
    ip = lib.interp()
    jobs.anchors(ip)
    d = json.load(open(DATA, encoding='utf8'))
    js = job_list(ip, R.tier)
    n = und = gaps = clean = 0
    cov = set()
    left_ok = {s: {c: v if v == '*' else set(v.split()) for c, v in m.items()} for s, m in d['left'].items()}
    odd_ok = {t: set(v) for t, v in d['odd'].items()}
    pair_ok = {p: set(v) for p, v in d['pair'].items()}
    opt_ok = {o: set(v) for o, v in d['opt'].items()}
    for j, r, err in lib.parallel(one, js):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            und += 1
            continue
        out, c = r
        cov |= c
        left, odd = split(j, out)
        s, t = j[1:3]
        ok = set().union(*[opt_ok.get(o, set()) for o in list(j[4]) + list(j[5])]) if j[0] == 'copt' else set()
        lo = left_ok.get(s, {})
        bad = [c for c in left if c not in ok and not (lo.get(c) == '*' or t in lo.get(c, ()))]
        leak = [c for c in odd if c not in ok and c not in odd_ok.get(t, ()) and c not in pair_ok.get('%s>%s' % (s, t), ())]
        if not bad and not leak:
            clean += 1
        o = ' with ' + ' '.join(j[4] + j[5]) if j[0] == 'copt' else ''
        for c in bad:
            R.hit('left|U+%04X|%s>%s%s' % (ord(c), s, t, o), '%s can leave U+%04X of the source in the result' % (jobs.show(j), ord(c)))
        for c in leak:
            R.hit('foreign|U+%04X|%s>%s%s' % (ord(c), s, t, o),
                  '%s can give U+%04X, which neither script has' % (jobs.show(j), ord(c)))
    if gaps > 0.2 * n or und > 0.5 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps + und, n))
    R.cov.update(explanation='for texts of all letters of the source and ASCII, the set of characters the result can hold, computed '
                             'through every operation, against the target\'s repertoire and the frozen leftovers (data/repertoire.json)',
                 conversions=n, within_repertoire=clean, undecided=und, functions_reached=len(cov), engine_gaps=gaps)
