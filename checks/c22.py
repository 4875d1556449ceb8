"""C22: each script's own rules are applied, to their end, on its side of every conversion; no error in them is hidden."""
import ast
import json
import os

from engine import absint as A, guards, jobs, lib, sweep

DATA = os.path.join(lib.HERE, 'data', 'rules.json')
RULES = 'aksharamukha.ConvertFix'


def rule_name(script):
    return 'Fix' + script.replace('-', '_')


def rules(ip):
    m = ip.load(RULES)
    return {f.qual: k for k, f in m.vars.items() if isinstance(f, A.Func) and f.mod is m and k.startswith('Fix')}


def truth(v):
    """of the flag that says which way the rules are used: True, False or None"""
    if v is None or isinstance(v, (bool, str, int)):
        return bool(v)
    return None


def reached(calls, own):
    """{(rule name, on the source side?)}"""
    out = set()
    for q, vals, node, st in calls:
        if q not in own:
            continue
        flag = [v for k, v in vals.items() if k.lower() in ('reverse', 'rev', 'backward', 'backwards')]
        t = truth(flag[0]) if flag else None
        out |= {(own[q], x) for x in (True, False) if t is None or t == x}
    return out


def hidden(ip):
    """[(key, text)]: failures inside the rules that a handler further out swallows"""
    out = []
    for e in ip.events:
        if e['kind'] == 'caught':
            lk = e.get('lookup')
            if e.get('origin') == 'raise' or e['exc'] in ('StopIteration', 'BOTTOM'):
                continue
            if lk and isinstance(lk[1], str) and lk[1].startswith('Fix'):
                continue                       # no rules of that name: the lookup itself is what is guarded
            text = e['exc'] == 'AttributeError' and lk is not None
            if not (e.get('nested') or text):
                continue
            r = e.get('rnode')
            out.append(('hidden|%s|%s' % (e.get('rfn') or e['fn'], sweep.short(r) if r is not None else e['exc']),
                        '%s in %s, at "%s", ends the rules there on every text and is silently dropped in %s' % (
                            e['msg'], e.get('rfn') or '?', sweep.short(r) if r is not None else '?', e['fn'])))
        elif e['kind'] == 'may-raise-caught':
            fn = e.get('rfn') or e['fn']
            if e.get('tryfn') is None or fn == e['tryfn'] or e.get('where') == 'raise':
                continue
            node, f = e.get('node'), e.get('fnode')
            if node is None or f is None or guards.guarded(f, node, ip.undec, e.get('weak', ())):
                continue
            out.append(('hidden|%s|%s' % (fn, sweep.short(node)),
                        '%s in %s, at "%s", ends the rules there depending on the text, and is silently dropped in %s' % (
                            e['msg'], fn, sweep.short(node), e['tryfn'])))
    return out


def one(arg):
    job, want = arg
    ip = lib.IP
    ip.covered = set()
    ip.calls = [] if want else None
    try:
        st, v = jobs.run(ip, job)
        got = reached(ip.calls, rules(ip)) if want else None
    finally:
        ip.calls = None
    return st, got, hidden(ip), frozenset(ip.covered)


def pair_jobs(ip, tier):
    ps = sweep.full_pairs(ip) if tier == 'thorough' else sweep.star_pairs(ip)
    return [(('conv', s, t, n), True) for s, t in ps for n in ((True, False) if tier == 'thorough' else (True,))]


def run(R):
    ip = lib.interp()
    jobs.anchors(ip)
    ip.memo_on = False
    table = json.load(open(DATA))
    have = set(rules(ip).values())
    if len(have) < 40:
        raise lib.Broken('only %d rule functions are in %s' % (len(have), RULES))
    work = pair_jobs(ip, R.tier)
    work += [(j, False) for j in jobs.all_jobs(ip, R.tier) if j[0] in ('opt', 'copt')]
    cov, gaps, need = set(), 0, 0
    miss = {}
    tried = {}
    for (j, want), r, err in lib.parallel(one, work):
        if err:
            gaps += 1
            lib.gap(err)
            continue
        st, got, hid, c = r
        cov |= c
        for k, m in hid:
            R.hit(k, '%s (%s)' % (m, ' '.join(str(x) for x in j[:3])))
        if not want or st != 'ok':
            continue
        s, t = j[1], j[2]
        for name, side, other in ((rule_name(t), False, s), (rule_name(s), True, t)):
            d = table.get(name)
            if name not in have or d is None:
                continue
            d = d['source' if side else 'target']
            if d is None or other in d:
                continue
            need += 1
            tried.setdefault((name, side), []).append(other)
            if (name, side) not in got:
                miss.setdefault((name, side), []).append(other)
    for (name, side), l in sorted(miss.items()):
        where = 'source' if side else 'target'
        if len(l) == len(tried[name, side]):
            R.hit('unused|%s|%s' % (name, where), 'the rules %s are no longer applied to texts %s the script' % (name, 'from' if side else 'to'))
        else:
            for o in l:
                R.hit('unused|%s|%s|%s' % (name, where, o), 'the rules %s are not applied in the conversion %s %s' % (name, 'to' if side else 'from', o))
    if gaps > 0.2 * len(work):
        raise lib.Broken('the interpreter could not follow %d of %d calls' % (gaps, len(work)))
    if need < 500:
        raise lib.Broken('only %d uses of the rules could be looked at' % need)
    R.cov.update(explanation='abstract interpretation of conversions for all texts: (a) which of the rule functions are called, and which way, per pair of '
                             'scripts; (b) every exception raised in a called function that a handler further out swallows',
                 calls=len(work), uses_of_rules_required=need, rule_functions=len(have), functions_reached=len(cov), engine_gaps=gaps,
                 rule='(a) as in data/rules.json; (b) none, save for the lookup of rules that do not exist')
