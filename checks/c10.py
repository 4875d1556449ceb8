"""C10: digits keep their value."""
import unicodedata
from itertools import combinations

from checks import c09, c17
from engine import absint as A, charset as C, jobs, lib, rx, sweep

# schemes that write letters with digits (or Om with one): the digits that can come of letters
SIGNS = {'HK': '23', 'SLP1': '0124', 'TaiLaing': '\u1040', 'HanifiRohingya': '\U00010d34'}
# numerals that are not digits: additive systems, signs of its own, and the internal notation
OWN = ('Inter', 'Kharoshthi', 'OldPersian', 'TolongSiki')
# every digit has its own pair of runs among five; a digit that turns into another shows in one of them
SUB = list(combinations(range(5), 2))
HUB = ('Devanagari', 'IAST', 'Tamil', 'Thai', 'Arab', 'Hebr', 'Malayalam', 'Burmese')


def value(c):
    try:
        return unicodedata.decimal(c)
    except ValueError:
        return None


ALLDIG = {}
for _cp in range(0x110000):
    _v = value(chr(_cp))
    if _v is not None and not 0x1D7CE <= _cp <= 0x1D7FF and not 0x1FBF0 <= _cp < 0x1FC00 and not 0xFF10 <= _cp < 0xFF20:
        ALLDIG.setdefault(int(_v), set()).add(chr(_cp))


def digits_of(s):
    """{value: the characters of the script for it}, with the ASCII digits"""
    o = c09.own(s)
    return {v: {str(v)} | (ALLDIG[v] & o) for v in range(10)}


def one(arg):
    job, i = arg
    ip = lib.IP
    ip.covered = set()
    s = job[1]
    d = digits_of(s) if job[0] != 'opt' else {v: {c for c, x in tracked(ip).items() if x == v and value(c) is not None} for v in range(10)}
    alld = set().union(*d.values())
    if i < 5:
        use = {v for v in range(10) if i in SUB[v]}
        cs = (c09.own(s) | set(c09.NEUTRAL)) - alld | set().union(*[d[v] for v in use])
    else:
        use = {i - 5}
        cs = d[i - 5]
    st, v = jobs.run(ip, job, A.AStr(C.of(''.join(sorted(cs)))))
    if st != 'ok':
        return None
    if isinstance(v, (A.OneOf, str)):
        v = A.to_astr(v)
    if not isinstance(v, A.AStr) or v.cs.neg:
        return None
    got = {c: int(value(c)) for c in v.cs.chars() if value(c) is not None}
    wrong = ''.join(sorted(c for c, x in got.items() if x not in use))
    gone = ''.join(map(str, sorted(use - set(got.values()))))
    return wrong, gone, frozenset(ip.covered)


# digits that are notation: (script or option) -> values
NOTE = {'>Mro': '23', 'TamilNumeralSub': '234', 'HK>': '23', 'SLP1>': '0124', 'Itrans>': '0'}


def inter_digits(ip):
    """the characters that stand for the digits while a text is converted"""
    try:
        v = ip.load('aksharamukha.ScriptMap.Roman.Inter').vars.get('NumeralMap')
    except A.AbsRaise:
        v = None
    return list(v) if isinstance(v, A.L) and len(v) == 10 and all(isinstance(x, str) and len(x) == 1 for x in v) else []


TRACKED = {}


def tracked(ip):
    """{digit of any script, or what stands for it: its value}"""
    if 'd' in TRACKED:
        return TRACKED['d']
    out = TRACKED['d'] = {str(v): v for v in range(10)}
    for s in c09.letters():
        o = c09.own(s)
        for v in range(10):
            out.update((c, v) for c in ALLDIG[v] & o)
    out.update((c, v) for v, c in enumerate(inter_digits(ip)))
    return out


def kept(arg):
    """the values that may be lost on the way, and where"""
    job, which = arg
    ip = lib.IP
    ip.covered = set()
    d = digits_of(job[1])
    asc = set('0123456789')
    own = set().union(*d.values()) - asc
    use = asc if which == 'ascii' else own
    if not use:
        return None
    cs = (c09.own(job[1]) | set(c09.NEUTRAL)) - (own if which == 'ascii' else asc)
    st, v = jobs.run(ip, job, A.AStr(C.of(''.join(sorted(cs))), frozenset(use)))
    v = c17.text_of(v) if st == 'ok' else None
    if v is None:
        return None
    same = ip.same
    have = {same[m] for m in v.must if type(m) is str and m in same}
    miss = {same[c] for c in use} - have
    why = set()
    for e in ip.events:
        if e['kind'] == 'token-lost' and not (e['msg'] == 'slice' and c17.resliced(e)):
            hit = {same[c] for c in e['lost'] if c in same} & miss
            if hit:
                why.add((e['fn'], sweep.short(e['node']), e['msg'], ''.join(map(str, sorted(hit)))))
    return ''.join(map(str, sorted(miss))), sorted(why), frozenset(ip.covered)


def job_list(ip, tier):
    js = [j for j in jobs.all_jobs(ip, tier) if j[0] in ('conv', 'copt') and (c09.own(j[1]) or j[1] == 'Hiragana')]
    out = []
    for j in js:
        if j[1:3] == ('Tamil', 'IPA') or j[1] in OWN or j[2] in OWN or j[2] in ('Hiragana', 'Katakana'):
            continue
        if j[0] == 'copt' and not any('umeral' in o for o in j[4] + j[5]):
            continue
        if tier == 'quick' and j[0] == 'conv' and not (j[1] in HUB or j[2] in HUB):
            continue
        if tier == 'quick' and j[0] == 'conv' and not j[3] and not (j[1] in HUB[:2] or j[2] in HUB[:2]):
            continue
        out.append(j)
    return out


def key(j):
    return '%s>%s' % j[1:3] + (' ' + ' '.join(j[4] + j[5]) if j[0] == 'copt' else '')


def run(R):
    ip = lib.interp()
    jobs.anchors(ip)
    js = job_list(ip, R.tier)
    n = und = gaps = 0
    cov = set()
    tracked(ip)
    opts = [j for j in jobs.all_jobs(ip, R.tier) if j[0] == 'opt']
    for (j, i), r, err in lib.parallel(one, [(j, i) for j in js for i in range(5 if R.tier == 'quick' and j[0] == 'conv' else 15)] +
                                       [(j, i) for j in opts for i in range(5, 15)]):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            und += 1
            continue
        wrong, gone, c = r
        cov |= c
        k = key(j)
        for c in wrong:
            if c not in SIGNS.get(j[2], ''):
                R.hit('wrong|U+%04X|%s' % (ord(c), k), '%s can turn another digit into U+%04X' % (jobs.show(j), ord(c)))
        for c in gone:
            R.hit('gone|%s|%s' % (c, k), '%s gives no digit %s for it' % (jobs.show(j), c))
    # the same with one token for each digit: none is taken away
    ip.same = tracked(ip)
    c17.setup(''.join(sorted(ip.same)))
    m = lost = und2 = 0
    for (j, w), r, err in lib.parallel(kept, [(j, w) for j in js for w in ('ascii', 'own')]):
        m += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            continue
        miss, why, c = r
        cov |= c
        note = NOTE.get('>' + j[2], '') + NOTE.get(j[1] + '>', '') + ''.join(NOTE.get(o, '') for o in (j[4] + j[5] if j[0] == 'copt' else ()))
        bad = set(miss) - set(note)
        lost += bool(bad)
        for fn, ex, how, hit in why:
            for x in sorted(set(hit) & bad):
                bad.discard(x)
                R.hit('taken|%s|%s|%s' % (fn, ex, x), '%s: %s can take away a digit %s in %s' % (jobs.show(j), how, x, fn))
        und2 += len(bad)
    if gaps > 0.2 * n or und > 0.5 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps + und, n))
    R.cov.update(explanation='texts of all letters of the source with some of its digits, chosen so that every digit is told apart '
                             'from every other by one run; the digits the result can hold must be those digits',
                 runs=n, token_runs=m, conversions=len(js), options_alone=len(opts), undecided=und, undecided_digits=und2, functions_reached=len(cov), engine_gaps=gaps)
