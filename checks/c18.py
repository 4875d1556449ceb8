"""C18: words in Latin letters within a text of another script stay as they are."""
import json
import os
import string

from engine import absint as A, charset as C, jobs, lib, rx as R
from checks import c09, c17

DATA = os.path.join(lib.HERE, 'data', 'latin.json')
LET = string.ascii_letters
OTHER = 'ßœøþΩλψяжЩ'
# a text without combining marks, which together with a Latin letter can be notation
CS = C.ALL.minus(C.of(''.join(chr(i) for i in range(0x300, 0x370)) + ''.join(chr(i) for i in range(0x1dc0, 0x1e00))))
# the private-use characters that stand for Latin letters while a text is converted
PUA = ''.join(chr(i) for i in range(0xee01, 0xee60))
ROMAN = {'Type', 'Latn', 'RomanSemitic', 'IPA', 'Hiragana', 'Katakana', 'RussianCyrillic', 'RomanColloquial', 'Aksharaa', 'Inter'}


def roman(ip):
    return ROMAN | \
        {s for s, d in c09.letters().items() if len(set(d['own']) & set(LET)) > 5}


def job_list(ip, tier):
    lat = roman(ip)
    js = [j for j in jobs.all_jobs(ip, tier) if j[0] in ('conv', 'copt') and j[1] not in lat and j[2] not in lat]
    return [j for j in js if not c17.exempt(j)]


def setup(chars):
    c17.setup(chars + PUA)


def collect(tier):
    ip = lib.interp()
    js = job_list(ip, tier)
    for chars in (LET, OTHER):
        setup(chars)
        for (j, _, _), r, err in lib.parallel(c17.one, [(j, chars, CS) for j in js]):
            yield j, r, err


def run(R_):
    ip = lib.interp()
    jobs.anchors(ip)
    allow = {k: set(v) for k, v in json.load(open(DATA, encoding='utf8')).items()}
    n = kept = und = gaps = 0
    cov = set()
    for j, r, err in collect(R_.tier):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            continue
        lost, why, gone, away, c = r
        cov |= c
        ok = set().union(*[allow.get(w, set()) for w in c17.what(j)])
        bad = [x for x in lost if x not in ok]
        kept += not bad
        seen = set()
        for fn, ex, how, hit in why:
            for x in bad:
                if x in hit:
                    seen.add(x)
                    R_.hit('lost|%s|%s|U+%04X' % (fn, ex, ord(x)), '%s: %s takes away %s in %s' % (jobs.show(j), how, x, fn))
        for x in away:
            if x not in ok:
                seen.add(x)
                R_.hit('gone|%s|%s' % (x, '>'.join(map(str, j[1:3]))), '%s never gives %s' % (jobs.show(j), x))
        und += len(set(bad) - seen)
    if gaps > 0.2 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps, n))
    if len(cov) < 150:
        raise lib.Broken('only %d functions were reached' % len(cov))
    R_.cov.update(explanation='abstract interpretation with a token for each letter: an operation that can take one away ends the token, '
                              'one that puts another tracked character in its place hands it on',
                  conversions=n, all_kept=kept, undecided_letters=und, functions_reached=len(cov), engine_gaps=gaps)
