"""C01: every supported pair converts any text to a text, without raising."""
from engine import absint as A, lib, sweep


def one(p):
    ip = lib.IP
    s, t, nat = p
    f = ip.func('aksharamukha.transliterate', 'convert')
    ip.covered = set()
    st, v = sweep.run(ip, f, [s, t, A.AStr(), nat, A.L(), A.L()])
    reps, und = sweep.raise_reports(ip)
    if st == 'raise':
        how = ('raise', v.exc, v.msg, getattr(v, 'fn', None), getattr(v.node, 'lineno', None))
    elif sweep.is_text(v):
        how = ('text',)
    elif sweep.maybe_text(v):
        how = ('unknown',)
    else:
        how = ('notext', repr(v)[:80])
    return how, sorted(set(reps)), und, frozenset(ip.covered)


def run(R):
    ip = lib.interp()
    lib.need(ip, 'transliterate', 'convert')
    full = sweep.full_pairs(ip)
    star = sweep.star_pairs(ip)
    items = [(a, b, True) for a, b in full]
    items += [(a, b, False) for a, b in (full if R.tier == 'thorough' else star)]
    res = lib.parallel(one, items)
    und = crash = text = 0
    cov = set()
    bad = {}
    npairs = {}
    for (s, t, nat), r, err in res:
        if err:
            crash += 1
            lib.gap(err)
            R.cov.setdefault('engine_errors', []).append([s, t, err[-200:]]) if crash < 5 else None
            continue
        how, reps, u, c = r
        cov |= c
        und += u
        npairs[s] = npairs.get(s, 0) + 1
        for k, m in reps:
            R.hit(k, '%s -> %s: %s' % (s, t, m))
        if how[0] == 'text':
            text += 1
        elif how[0] in ('raise', 'notext'):
            bad.setdefault(s, []).append((t, nat, how))
    for s, l in bad.items():
        if len(l) >= npairs[s]:
            R.hit('always|source %s' % s, 'every conversion from %s fails, e.g. to %s: %s' % (s, l[0][0], l[0][2]))
        else:
            for t, nat, how in l:
                R.hit('always|%s -> %s' % (s, t), '%s -> %s (nativize=%s) on every text: %s' % (s, t, nat, how))
    la, nf = sweep.lookaheads(ip, cov)
    for k, m in la:
        R.hit(k, m)
    if crash > len(items) * 0.2:
        raise lib.Broken('the interpreter could not follow %d of %d pairs' % (crash, len(items)))
    R.cov.update(explanation='abstract interpretation of convert() for every pair of supported scripts over the set of all '
                             'texts: definite and unguarded text-dependent exceptions, malformed regular expressions, '
                             'reads of unset names, results that are no text; plus a look-ahead rule over every function reached',
                 pairs_nativized=len(full), pairs_plain=len(items) - len(full), conversions_decided_text=text,
                 functions_reached=len(cov), functions_lookahead_rule=nf, undecided_failure_sites=und, engine_gaps=crash)
    if len(cov) < 150:
        raise lib.Broken('only %d functions were reached' % len(cov))
