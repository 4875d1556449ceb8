"""C13: options are applied in order, once each, around the conversion; the entry points hand on what they were given."""
import json
import os

from engine import absint as A, charset as C, jobs, lib, sweep

DATA = os.path.join(lib.HERE, 'data', 'routes.json')
T = 'transliterate.'
MARK0 = 0x10F000
CORE = 'Convert.convertScript'
NATIVE = 'PostOptions.ApplyScriptDefaults'
CLEAN = {'PostProcess.RemoveDiacritics', 'PostProcess.RemoveDiacriticsTamil'}
FIRST = 'PreProcess.PreProcess'
LAST = 'PostProcess.defaultPost'
TEXT = (FIRST, LAST, 'PreProcess.retainLatin', 'PreProcess.JapanesePreProcess', 'PostProcess.JapanesePostProcess', NATIVE,
        'ConvertFix.OriyaIPAFixPre', 'ConvertFix.OriyaIPAFix')
MARKS = {}
CALLS = []


def mark(name):
    if name not in MARKS:
        MARKS[name] = chr(MARK0 + len(MARKS))
    return MARKS[name]


def seen(v, name):
    """may the step `name` have been applied to v?"""
    return v.cs.has(mark(name))


def texts(args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, A.OneOf):
            v = A.to_astr(v)
        if isinstance(v, A.AStr):
            yield v


def stub(ip, f, args, kw, node):
    ts = list(texts(args, kw))
    vals = ip.bind_args(f, args, kw, node)
    cs, must = C.EMPTY, frozenset()
    for t in ts:
        cs, must = cs.union(t.cs), must | t.must
    whole = A.AStr(cs, must)
    CALLS.append((f.qual, whole, {k: v for k, v in vals.items() if not isinstance(v, A.AStr)}))
    # the name of the step as a token (it has certainly run), and its mark in the set of characters (it may have run)
    return A.AStr(cs.add_str(mark(f.qual)), must | {f.qual})


def hooks(ip):
    h = {}
    for mod in ('PreProcess', 'PostProcess'):
        for o in jobs.option_fns(ip, mod):
            h['%s.%s' % (mod, o)] = stub
    for q in TEXT + (CORE,):
        h[q] = stub
    for q in sorted(h):
        mark(q)
    return h


def start(src):
    """any text without the marks (and, in ITRANS, without the ## that keeps a part from being converted)"""
    out = ''.join(MARKS.values()) + ('#' if src == 'Itrans' else '')
    return A.AStr(C.ALL.del_mask(C.mask_of(out)), frozenset(['the text']))


def plain_options(ip):
    """{side: options that convert does not treat by name}"""
    sp = jobs.special_options(ip)
    fix = set(sp['pre']) | set(sp['post']) | {'RemoveDiacritics', 'RemoveDiacriticsTamil'} | {q.split('.')[1] for q in TEXT}
    gm = ip.load('aksharamukha.GeneralMap').vars
    for k, v in gm.items():
        if k.startswith('LoC') and 'Options' in k and isinstance(v, dict):
            fix |= {o for l in v.values() if isinstance(l, A.L) for o in l if isinstance(o, str)}
    fix |= {o for m in ('PreProcess', 'PostProcess') for o in jobs.option_fns(ip, m) if 'LoC' in o or o.endswith(('Target', 'Source'))}
    return {'pre': [o for o in jobs.option_fns(ip, 'PreProcess') if o not in fix and o != 'PreProcess'],
            'post': [o for o in jobs.option_fns(ip, 'PostProcess') if o not in fix and o not in ('default', 'defaultPost')]}


def one(job):
    """-> (findings, route)"""
    _, s, t, nat, pre, post = job
    ip = lib.IP
    ip.covered = set()
    del CALLS[:]
    ip.hooks.update(HOOKS)
    ip.memo_on = False
    try:
        st, v = jobs.run(ip, job, start(s))
    finally:
        ip.hooks.clear()
        ip.memo_on = True
    if st != 'ok':
        return None
    if isinstance(v, A.OneOf):
        v = A.to_astr(v)
    if not isinstance(v, A.AStr):
        return None
    bad = []
    P, Q = ['PreProcess.' + o for o in pre], ['PostProcess.' + o for o in post]
    have = {c[0] for c in CALLS}
    for q in P + Q:
        if q in v.must:
            continue
        bad.append(('skipped', q, 'not every text goes through it' if q in have else 'it is never applied'))
    for q, w, _ in CALLS:
        if q in P:
            i = P.index(q)
            if seen(w, q):
                bad.append(('twice', q, 'a text may go through it twice'))
            if any(p in have and p not in w.must for p in P[:i]) or any(seen(w, p) for p in P[i + 1:]):
                bad.append(('order', q, 'not in the order of the list'))
            if seen(w, CORE):
                bad.append(('late', q, 'a pre-option applied to the converted text'))
            if FIRST in have and FIRST not in w.must:
                bad.append(('early', q, 'a pre-option applied to the text before it is cleaned'))
        elif q in Q:
            i = Q.index(q)
            if seen(w, q):
                bad.append(('twice', q, 'a text may go through it twice'))
            if any(p in have and p not in w.must for p in Q[:i]) or any(seen(w, p) for p in Q[i + 1:]):
                bad.append(('order', q, 'not in the order of the list'))
            if CORE in have and CORE not in w.must:
                bad.append(('early', q, 'a post-option applied to the unconverted text'))
            if nat and NATIVE in have and NATIVE not in w.must:
                bad.append(('native', q, 'a post-option applied before the nativization'))
        elif q == CORE:
            if any(p in have and p not in w.must for p in P):
                bad.append(('late', q, 'converted before the pre-options'))
            if any(seen(w, p) for p in Q):
                bad.append(('early', q, 'converted after a post-option'))
        elif q == NATIVE or q in CLEAN:
            if not nat:
                bad.append(('native', q, 'applied although nativization is off'))
            if any(seen(w, p) for p in Q):
                bad.append(('late', q, 'applied after the post-options of the caller'))
            if CORE in have and CORE not in w.must:
                bad.append(('early', q, 'applied to the unconverted text'))
        elif q == LAST:
            if any(p in have and p not in w.must for p in Q):
                bad.append(('early', q, 'applied before the post-options'))
    if CORE in have and CORE not in v.must:
        bad.append(('skipped', CORE, 'not every text is converted'))
    if nat and NATIVE not in v.must:
        bad.append(('skipped', NATIVE, 'the nativization is left out'))
    if LAST in have and LAST not in v.must:
        bad.append(('skipped', LAST, 'the final clean-up is left out'))
    if 'the text' not in v.must:
        bad.append(('lost', 'the text', 'not all of the text goes into the result'))
    route = []
    for q, w, vals in CALLS:
        if q == CORE:
            r = '>'.join(str(x) if isinstance(x, str) else '?' for x in vals.values())
            if r not in route:
                route.append(r)
    return sorted(set(bad)), route, frozenset(ip.covered)


HOOKS = {}


def job_list(ip, tier):
    po = plain_options(ip)
    a, b = po['pre'], po['post']
    out, n = [], 0
    pairs = sweep.star_pairs(ip) if tier == 'quick' else sweep.full_pairs(ip)
    for s, t in pairs:
        if (s, t) == ('Tamil', 'IPA'):
            continue
        for nat in (True, False):
            n += 1
            i, k = n % len(a), n % len(b)
            out.append(('copt', s, t, nat, [a[i], a[(i * 7 + 3) % len(a)]] if i != (i * 7 + 3) % len(a) else [a[i]],
                        [b[k], b[(k * 7 + 5) % len(b)]] if k != (k * 7 + 5) % len(b) else [b[k]]))
    return out


def special_jobs(ip, tier):
    """the options that convert treats by name, alone"""
    sp, nat = jobs.special_options(ip), jobs.natural(ip)
    hubs = ('Devanagari', 'IAST', 'Tamil', 'Hebr') if tier == 'quick' else sweep.HUBS
    out = []
    for side, mod in (('pre', 'PreProcess'), ('post', 'PostProcess')):
        have = set(jobs.option_fns(ip, mod)) - {q.split('.')[1] for q in TEXT}
        for o in sorted((set(sp[side]) | {'RemoveDiacritics'}) & have):
            for h in hubs:
                for x in sorted(set(hubs) | nat.get(o, set())):
                    for s, t in {(h, x), (x, h)}:
                        if s != t:
                            out.append(('copt', s, t, True, [o] if side == 'pre' else [], [o] if side == 'post' else []))
    both = set(jobs.option_fns(ip, 'PreProcess')) & set(jobs.option_fns(ip, 'PostProcess')) - {q.split('.')[1] for q in TEXT}
    for o in sorted(both):
        out += [('copt', s, t, n, [o], [o]) for s, t in zip(hubs, hubs[1:]) for n in (True, False)]
    return out


def upcase(s):
    return s.upper() if s.upper() != s else s.lower()


def entry_jobs(ip, tier):
    """(entry, source asked, target asked, source, target, options asked, options)"""
    po = plain_options(ip)
    names = [s for s in lib.scripts(ip) if s not in ip.load('aksharamukha.GeneralMap').vars['SemiticScripts'] and
             s not in ('Hiragana', 'Katakana')]
    low = {}
    for o in jobs.option_fns(ip, 'PreProcess') + [o for o in jobs.option_fns(ip, 'PostProcess')]:
        low.setdefault(o.lower(), set()).add(o)
    once = {k: [o for o in v if len(low[o.lower()]) == 1] for k, v in po.items()}
    out = []
    n = max(len(names), len(once['pre']), len(once['post']))
    fs = (str, str.lower, upcase)
    for i in range(n):
        s, t = names[i % len(names)], names[(i * 11 + 5) % len(names)]
        f, g = fs[i % 3], fs[(i + 1) % 3]
        p = [once['pre'][i % len(once['pre'])], once['pre'][(i * 5 + 2) % len(once['pre'])]]
        q = [once['post'][i % len(once['post'])], once['post'][(i * 5 + 2) % len(once['post'])], once['post'][(i * 3 + 1) % len(once['post'])]]
        p, q = list(dict.fromkeys(p)), list(dict.fromkeys(q))
        out.append(('process', 'default', f(s), g(t), s, t, i % 2 == 0, p, q, f))
        if i % 8 == 0:
            out.append(('process', 'default', s, t, s, t, i % 3 == 0, [], [], f))
    for i, (p, s, t) in enumerate([('script_code', 'Deva', 'Thai'), ('lang_code', 'ta', 'hi'), ('lang_name', 'Hindi', 'Tamil'), ('script_code', 'hi-Deva', 'latn-IAST'),
                                   ('default', 'autodetect', 'Tamil'), ('script_code', 'autodetect', 'Deva'), ('lang_code', 'autodetect', 'hi'),
                                   ('lang_name', 'autodetect', 'Hindi'), ('default', 'Hebr', 'Arab'), ('default', 'Syre', 'Devanagari')]):
        for nat in (True, False):
            for f in fs:
                out.append(('process', p, s, t, None, None, nat, once['pre'][i:i + 2], once['post'][i + 4:i + 7][::-1], f))
    for i in range(0, len(names), 4):
        s, t = names[i], names[(i * 7 + 3) % len(names)]
        out.append(('convert_default', None, s, t, s, t, i % 8 == 0, once['pre'][i % 5:i % 5 + 2], once['post'][i % 9:i % 9 + 3], fs[i % 3]))
    # one name may stand twice, and names that mean nothing are left out without a fuss
    a, b = once['pre'][3], once['post'][3]
    out.append(('process', 'default', 'Devanagari', 'Tamil', 'Devanagari', 'Tamil', True, [a], [b], None))
    return out


def entry(job):
    fn, param, s, t, src, tgt, nat, pre, post, f = job
    ip = lib.IP
    ip.covered = set()
    del jobs.SEEN[:]
    put = (lambda l: A.L([f(o) for o in l])) if f else (lambda l: A.L(['nosuchoption'] + l + ['', 'Devanagari']))
    txt = A.AStr(C.ALL, frozenset(['the text']), True)
    kw = {'nativize': nat, 'post_options': put(post), 'pre_options': put(pre)}
    if param:
        kw['param'] = param
    ip.hooks[T + 'convert'] = jobs.convert_stub
    ip.memo_on = False
    try:
        st, v = sweep.run(ip, ip.func('aksharamukha.transliterate', fn), [s, t, txt], kw)
    finally:
        ip.hooks.clear()
        ip.memo_on = True
    bad = []
    if st != 'ok':
        return [('raises', str(v)[:80])], frozenset(ip.covered)
    calls = list(jobs.SEEN)
    if len(calls) != 1:
        return ([('calls', 'convert is called %d times' % len(calls))] if calls or True else []), frozenset(ip.covered)
    c = calls[0]
    v = A.to_astr(v) if isinstance(v, A.OneOf) else v
    if not (isinstance(v, A.AStr) and 'converted' in v.must):
        bad.append(('result', 'the result is not what convert returns'))
    x = c.get('txt')
    if isinstance(x, A.AStr) and not (x.cs == C.ALL and 'the text' in x.must):
        bad.append(('text', 'the text handed on is not the text given'))
    if c.get('nativize') is not nat and isinstance(c.get('nativize'), bool):
        bad.append(('nativize', 'nativize=%s becomes %s' % (nat, c.get('nativize'))))
    for side, have, want in (('pre', c.get('preoptions'), pre), ('post', c.get('postoptions'), post)):
        if side == 'pre' and s == 'autodetect':
            continue
        if isinstance(have, A.L) and all(isinstance(o, str) for o in have):
            if list(have) != want:
                bad.append(('options', 'the %s-options %s become %s' % (side, want, list(have))))
    for k, want in (('src', src), ('tgt', tgt)):
        if want is not None and isinstance(c.get(k), str) and c[k] != want:
            bad.append(('name', '%s %s becomes %s' % (k, want, c[k])))
    return bad, frozenset(ip.covered)


def run(R):
    global HOOKS
    ip = lib.interp()
    jobs.anchors(ip)
    HOOKS = hooks(ip)
    d = json.load(open(DATA, encoding='utf8'))
    js = job_list(ip, R.tier)
    sj = special_jobs(ip, R.tier)
    special = {str(j) for j in sj}
    n = und = gaps = 0
    cov = set()
    for j, r, err in lib.parallel(one, js + sj):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        if r is None:
            und += 1
            continue
        bad, route, c = r
        cov |= c
        k = key(j)
        sp = str(j) in special
        ok = set(d['except'].get('%s>%s' % j[1:3], ()))
        if sp:
            for o in set(j[4] + j[5]):
                ok |= set(d['option'].get(o, ()))
        for kind, q, what in bad:
            if '%s|%s' % (kind, cls(q, j)) in ok:
                continue
            R.hit('%s|%s|%s' % (kind, cls(q, j), ' '.join(j[4] + j[5]) if sp else '>'.join(j[1:3])), '%s: %s: %s' % (jobs.show(j), q, what))
        if sp or '?' in ''.join(route) or not route:
            continue
        want = d['route'].get(k, ['>'.join(j[1:3])])
        if set(route) != set(want):
            R.hit('route|%s' % k, '%s: converts %s, expected %s' % (jobs.show(j), ', '.join(route), ', '.join(want)))
    if gaps + und > 0.3 * n:
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps + und, n))
    ej = entry_jobs(ip, R.tier)
    for j, r, err in lib.parallel(entry, ej):
        if err:
            gaps += 1
            lib.gap(err)
            continue
        cov |= r[1]
        for kind, what in r[0]:
            R.hit('entry|%s|%s|%s' % (kind, j[0], j[1] if j[2] != 'autodetect' else j[1] + ' autodetect'),
                  '%s %s -> %s (%s): %s' % (j[0], j[2], j[3], j[1], what))
    R.cov.update(explanation='every step of a conversion is replaced by one that marks the text: a token for having certainly gone through it, a '
                             'private character for possibly having; the marks on the way and at the end give the order and number of '
                             'the steps for all texts. The entry points are interpreted with names in other cases, and what they hand to convert is compared',
                 conversions=n, entry_calls=len(ej), undecided=und, functions_reached=len(cov), engine_gaps=gaps)


def key(j):
    return '%s>%s' % j[1:3] + ('' if j[3] else ' plain')


def cls(q, j):
    """the kind of step"""
    if q in ['PreProcess.' + o for o in j[4]]:
        return 'pre-option'
    if q in ['PostProcess.' + o for o in j[5]]:
        return 'post-option'
    return q
