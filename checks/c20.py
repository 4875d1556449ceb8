"""C20: where nothing is asked for, the text comes back as it was."""
from engine import absint as A, charset as C, jobs, lib, rx as R, sweep
from checks import c09

T = 'aksharamukha.transliterate'
SIGNS = '\u212b\u2126\u0344\uff41\ufb01A\xc9a1 .,-\'"()[]{}|/\\#%&*+=<>@^_`~!?:;$\n\t\r\u200c\u200d\u0964\u0965中\u25cf'


def chars_of(s):
    d = c09.letters().get(s)
    return SIGNS + (''.join(sorted(set(d['own'] + d['block']) - set(SIGNS))) if d else '')


def one(job):
    fn, s, t, nat, kw = job
    ip = lib.IP
    ip.covered = set()
    cs = chars_of(s)
    R.FOREIGN = tuple(cs)
    ip.memo.clear()
    ip.track = True
    txt = A.AStr(C.ALL, frozenset(cs))
    if fn == 'convert':
        st, v = sweep.run(ip, ip.func(T, 'convert'), [s, t, txt, nat, A.L([]), A.L([])])
    else:
        st, v = sweep.run(ip, ip.func(T, fn), [s, t, txt], dict(kw))
    if st != 'ok':
        return ('raises', str(v)[:80]), frozenset(ip.covered)
    if v is txt:
        return None, frozenset(ip.covered)
    if isinstance(v, A.OneOf):
        v = A.to_astr(v)
    if not isinstance(v, A.AStr):
        return ('other', 'the result is %s' % type(v).__name__), frozenset(ip.covered)
    lost = [c for c in cs if c not in v.must]
    if lost or v.cs != C.ALL:
        why = sorted({'%s in %s' % (sweep.short(e['node']), e['fn']) for e in ip.events if e['kind'] == 'token-lost' and e['lost'] & set(lost)})
        return ('changed', 'the text goes through a conversion: %s' % ('; '.join(why[:3]) or 'it is put together anew')), frozenset(ip.covered)
    return None, frozenset(ip.covered)


def job_list(ip, tier):
    names = lib.all_scripts(ip)
    out = []
    for s in names:
        out.append(('convert', s, s, False, ()))
        out.append(('process', s, s, None, (('nativize', False), ('post_options', A.L([])), ('pre_options', A.L([])))))
        for t in ('', 'Ignore'):
            out += [('convert', s, t, n, ()) for n in (True, False)]
            out.append(('process', s, t, None, ()))
    return out


def run(R_):
    ip = lib.interp()
    jobs.anchors(ip)
    n = gaps = 0
    cov = set()
    for j, r, err in lib.parallel(one, job_list(ip, R_.tier)):
        n += 1
        if err:
            gaps += 1
            lib.gap(err)
            continue
        f, c = r
        cov |= c
        if f:
            R_.hit('%s|%s>%s|%s' % (f[0], j[1], j[2], 'nativize' if j[3] else 'plain'), '%s %s -> %s: %s' % (j[0], j[1], j[2] or "''", f[1]))
    R_.cov.update(explanation='', calls=n, functions_reached=len(cov), engine_gaps=gaps)
