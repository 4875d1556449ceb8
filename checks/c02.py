"""C02: every option turns any text into a text, alone and as part of a conversion."""
import json
import os

from engine import absint as A, jobs, lib, sweep
from checks import common

KIND = sweep.HARD + ('bad-regex', 'maybe-unbound')


def pick(ip, job, st, v, evs):
    reps, und = sweep.raise_reports(ip)
    if st == 'raise':
        how = ('raise', '%s: %s' % (v.exc, v.msg[:100]), getattr(v, 'fn', None) or '?')
    elif sweep.maybe_text(v):
        how = ('text',)
    else:
        how = ('notext', repr(v)[:60], '?')
    return how, sorted(set(reps)), und


def run(R):
    ip = lib.interp()
    want = json.load(open(os.path.join(lib.HERE, 'data', 'options.json')))
    jl = [j for j in jobs.all_jobs(ip, R.tier) if j[0] == 'copt']
    sp = jobs.special_options(ip)
    names = lib.all_scripts(ip)
    quick = R.tier == 'quick'
    for side, mod in (('pre', 'PreProcess'), ('post', 'PostProcess')):
        have = ip.load('aksharamukha.' + mod).vars
        for o in want[side]:
            f = have.get(o)
            if not isinstance(f, A.Func):
                R.hit('gone|%s.%s' % (mod, o), 'the %s-option %s no longer exists: asking for it is silently ignored' % (side, o))
                continue
            jl.append(('opt', mod, o))
        for o in sorted(sp[side] & set(want[side])):
            args = ([o], []) if side == 'pre' else ([], [o])
            for s in names:
                for h in ('Devanagari', 'Hebr') if quick else ('Devanagari', 'IAST', 'Tamil', 'Hebr', 'Arab', 'Hiragana'):
                    jl += [('copt', h, s, True) + args, ('copt', s, h, True) + args]
                jl += [('copt', 'Devanagari', s, False) + args]
    jl = list({repr(j): j for j in jl}.values())
    res = common.sweep_jobs(R, KIND, pick, jl)
    und = 0
    always = {}
    for j, (how, reps, u) in res:
        und += u
        for k, m in reps:
            R.hit(k, '%s: %s' % (jobs.show(j), m))
        if how[0] != 'text':
            if j[0] == 'opt':
                R.hit('always|%s.%s' % j[1:], '%s on every text: %s' % (jobs.show(j), how))
            else:
                always.setdefault((j[4] + j[5])[0], []).append((j, how))
    for o, l in always.items():
        j, how = l[0]
        R.hit('always|convert with %s|%s' % (o, how[2]), '%s on every text (%d pairs like this): %s' % (jobs.show(j), len(l), how))
    R.cov.update(explanation='abstract interpretation, over all texts, of every option function alone and of conversions with the '
                             'option set; options the code asks for by name are tried with every script as source and as target',
                 options=sum(map(len, want.values())), special_options={k: sorted(v) for k, v in sp.items()},
                 undecided_failure_sites=und, rule='each returns a text; no definite or unguarded text-dependent exception')
