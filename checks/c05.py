"""C05: converting a text has no effect besides its result."""
from engine import jobs, lib
from engine.sweep import short
from checks import common

KIND = ('effect', 'ext-write', 'ext-setattr', 'ext-mutate', 'file-read')


def pick(ip, job, st, v, evs):
    out = []
    for e in evs:
        out += judge(ip, e)
    return out


def judge(ip, e):
    k = e['kind']
    if k == 'file-read':
        p = e.get('path')
        if isinstance(p, str) and (p == ip.repo or p.startswith(ip.repo.rstrip('/') + '/')):
            return []
        return [('reads|%s|%s' % (e['fn'], short(e['node'])), 'reads a file that is not the package\'s own data, at %s' % lib.where(e))]
    if k == 'effect' and e['msg'] == 'requests.get' and 'Tamil' in tests_text(e) and 'IPA' in tests_text(e):
        return []                 # the documented web service for Tamil to IPA
    what = e.get('effect') or k
    return [('%s|%s|%s' % (what, e['fn'], short(e['node'])), '%s at %s' % (e['msg'], lib.where(e)))]


def tests_text(e):
    """the constants that the conditions before this place speak about"""
    import ast
    from engine import guards
    if e.get('fnode') is None or e.get('node') is None:
        return set()
    return {x.value for t in guards.tests_on_path(e['fnode'], e['node']) if isinstance(t, ast.expr)
            for x in ast.walk(t) if isinstance(x, ast.Constant)}


def run(R):
    ip = lib.interp()
    for e in ip.load_events:
        if e['kind'] in KIND:
            for k, m in judge(ip, e):
                R.hit('on import|' + k, 'on import: ' + m)
    res = common.sweep_jobs(R, KIND, pick)
    for job, l in res:
        for k, m in l:
            R.hit(k, '%s: %s' % (jobs.show(job), m))
    R.cov.update(explanation='abstract interpretation of every public entry point over all texts; every call that can print, write, '
                             'delete, read foreign files, start processes, use the network or change interpreter or library state '
                             'is an event, on whichever branch it stands', rule='no such event is reachable, also not on import',
                 files_read_allowed='package data only')
