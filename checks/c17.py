"""C17: line breaks and the characters that neither script uses stay in the text."""
import ast
import json
import os
import unicodedata

from engine import absint as A, charset as C, jobs, lib, rx as R, sweep

DATA = os.path.join(lib.HERE, 'data', 'kept.json')

# characters that mean nothing in any script here, and ordinary signs that nearly all leave alone
PLAIN = ('中漢あა😀\ufffd\ue0f0\U000e0041—–…•“”„«»‹›€₹£¥©®™±÷¶†‡¡¿‽→←↔★☆♥✓■□○∞≤≥√∑§°％！？，\u2028\u2029\u3000\ufeff\u00ad'
         '\u200e\u200f\u2060\u00a0\x00\x07\x0b\x0c\x1b\x85\t\n\r')
# the converter's own placeholders, which it takes for its own wherever they stand in the text (known findings)
MARKS = '●│┃¹×'
SIGNS = '%=>< @&$-/#^'


HUB = ('Devanagari', 'IAST', 'Tamil', 'Thai', 'Telugu', 'Arab', 'Hebr', 'ISO', 'Bengali', 'Burmese')


def text_of(v):
    if isinstance(v, (A.OneOf, str)):
        v = A.to_astr(v)
    return v if isinstance(v, A.AStr) else None


def one(arg):
    job, chars, cs = arg
    ip = lib.IP
    ip.covered = set()
    st, v = jobs.run(ip, job, A.AStr(cs, frozenset(chars)))
    v = text_of(v) if st == 'ok' else None
    if v is None:
        return None
    lost = ''.join(c for c in chars if c not in v.must)
    why = []
    for e in ip.events:
        if e['kind'] == 'token-lost':
            hit = ''.join(sorted(e['lost'].intersection(lost)))
            if hit and not (e['msg'] == 'slice' and resliced(e)):
                why.append((e['fn'], sweep.short(e['node']), e['msg'], hit))
    gone = v.cs.mask if v.cs.neg else None
    return lost, sorted(set(why)), steady(C.chars_of(gone)) if gone is not None else None, \
        ''.join(c for c in chars if not v.cs.has(c)), frozenset(ip.covered)


def steady(cs):
    """signs, without the characters that a change of case or a normalisation alters"""
    return ''.join(c for c in cs if unicodedata.category(c)[0] in 'PSZ' and all(g(c) == c for g in (str.lower, str.upper, str.casefold)) and
                   all(unicodedata.normalize(n, c) == c for n in ('NFC', 'NFD')))


def resliced(e):
    """other parts of the same text are taken in the same function, so they may be put together again"""
    node, fn = e.get('node'), e.get('fnode')
    if fn is None or not isinstance(node, ast.Subscript):
        return True
    base = ast.dump(node.value)
    n = [x for x in ast.walk(fn) if isinstance(x, ast.Subscript) and x is not node and ast.dump(x.value) == base]
    return bool(n) or fn_parts(fn)


def fn_parts(fn):
    return any(isinstance(x, ast.Attribute) and x.attr in ('partition', 'rpartition', 'start', 'end', 'span') for x in ast.walk(fn))


def convert_kept(ip, f, args, kw, node):
    """what `process` hands to `convert`, as if the conversion changed nothing: convert has its own jobs"""
    v = ip.bind_args(f, args, kw, node)
    return next((x for k, x in v.items() if isinstance(x, A.AStr) and x.must), A.AStr())


def setup(chars):
    ip = lib.IP
    jobs.convert_stub = convert_kept
    R.FOREIGN = tuple(chars)
    ip.memo.clear()
    ip.track = True


def passes(ip, tier):
    """[(name, jobs, characters, input set)]"""
    js = [j for j in jobs.all_jobs(ip, tier) if j[0] in ('conv', 'opt', 'copt', 'process', 'default')]
    js = [j for j in js if not exempt(j)]
    cv = [j for j in js if j[0] == 'conv' and j[3]]
    alone = C.of(PLAIN + ''.join(chr(i) for i in range(97, 123)))
    return [('plain', js, PLAIN, C.ALL), ('signs', cv, SIGNS, C.ALL), ('alone', cv, PLAIN, alone),
            ('marks', [j for j in cv if j[1] in HUB and j[2] in HUB], MARKS, C.ALL)]


def exempt(j):
    if j[0] not in ('conv', 'copt'):
        return False
    return j[1] in ('Hiragana', 'Katakana') or j[1:3] == ('Tamil', 'IPA')


def what(j):
    """the allowances that apply: the pair, and the options"""
    if j[0] == 'opt':
        return [j[2]]
    if j[0] in ('process', 'default'):
        return ['process']
    w = ['%s>%s' % j[1:3], '%s>' % j[1], '>%s' % j[2]]
    return w + (list(j[4]) + list(j[5]) if j[0] == 'copt' else [])


def collect(tier='quick'):
    ip = lib.IP
    for name, js, chars, cs in passes(ip, tier):
        setup(chars)
        for (j, _, _), r, err in lib.parallel(one, [(j, chars, cs) for j in js]):
            yield name, j, r, err


def run(R_):
    ip = lib.interp()
    jobs.anchors(ip)
    d = json.load(open(DATA, encoding='utf8'))
    allow = {k: set(v) for k, v in d['lost'].items()}
    said = set(d['mentioned'])
    never = {k: set(v) for k, v in d['never'].items()}
    n = kept = und = gaps = 0
    cov = set()
    for name, j, r, err in collect(R_.tier):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            continue
        lost, why, gone, away, c = r
        if name == 'marks':
            for c in {c for w in why for c in w[3]}:
                R_.hit('mark|U+%04X' % ord(c), '%s takes U+%04X of the text for its own' % (jobs.show(j), ord(c)))
            continue
        cov |= c
        ok = set().union(*[allow.get(w, set()) for w in what(j)])
        bad = [c for c in lost if c not in ok]
        if not bad:
            kept += 1
        seen = set()
        for fn, ex, how, hit in why:
            b = [c for c in bad if c in hit]
            for c in b:
                seen.add(c)
                R_.hit('lost|%s|%s|U+%04X' % (fn, ex, ord(c)),
                       '%s: %s takes away U+%04X in %s' % (jobs.show(j), how, ord(c), fn))
        for c in away:
            if c not in ok:
                R_.hit('gone|U+%04X|%s' % (ord(c), '>'.join(map(str, j[1:3]))), '%s never gives U+%04X' % (jobs.show(j), ord(c)))
        for c in gone or ():
            if c not in said and c not in ok and not any(c in never.get(w, ()) for w in what(j)):
                R_.hit('never|U+%04X|%s' % (ord(c), '>'.join(map(str, j[1:3]))), '%s never gives U+%04X' % (jobs.show(j), ord(c)))
        und += len(set(bad) - seen)
    if gaps > 0.2 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps, n))
    if len(cov) < 250:
        raise lib.Broken('only %d functions were reached' % len(cov))
    R_.cov.update(explanation='abstract interpretation with a token for each foreign character: an operation that can take one '
                              'away (replacement, pattern, strip, slice, split, normalisation, change of case) ends the token; '
                              'and over texts of foreign characters, whether the result can hold them at all',
                  conversions=n, all_kept=kept, undecided_characters=und, functions_reached=len(cov), engine_gaps=gaps)
