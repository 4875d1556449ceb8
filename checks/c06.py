"""C06: the result is a function of the arguments: no source of nondeterminism reaches it."""
import ast

from engine import guards, jobs, lib
from engine.sweep import short
from checks import common

KIND = ('set-iter', 'nondet', 'locale')
ORDERLESS = ('any', 'all', 'set', 'frozenset', 'len', 'sum', 'min', 'max', 'sorted')
PASS = ('list', 'tuple', 'iter', 'map', 'filter')


def orderless_call(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ORDERLESS and \
        not any(k.arg == 'key' for k in n.keywords)


def order_matters(fnode, node, items):
    """Can the order in which the set is gone through at `node` show in the result?"""
    par = guards.parents(fnode)
    n = node
    if isinstance(n, (ast.For, ast.AsyncFor)):
        return not orderless_body(n.body, n.target, items)
    if isinstance(n, ast.Call):
        if orderless_call(n):
            return False
        if not (isinstance(n.func, ast.Name) and n.func.id in PASS):
            return True
    else:
        # the iterable of a comprehension
        while id(n) in par and not isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            n = par[id(n)]
        if isinstance(n, ast.SetComp):
            return False
        if not isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return True
    while id(n) in par:
        p = par[id(n)]
        if orderless_call(p):
            return False
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in PASS:
            n = p
            continue
        return True
    return True


def orderless_body(body, target, items):
    """Loops that only look for something, or only take single characters away."""
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Constant):
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'replace' and len(v.args) == 2 \
                    and isinstance(v.func.value, ast.Name) and v.func.value.id == s.targets[0].id \
                    and isinstance(target, ast.Name) and isinstance(v.args[0], ast.Name) and v.args[0].id == target.id \
                    and isinstance(v.args[1], ast.Constant) and isinstance(v.args[1].value, str) and items is not None \
                    and all(isinstance(x, str) and len(x) == 1 and x not in v.args[1].value for x in items):
                continue
            return False
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            continue
        if isinstance(s, ast.If):
            if orderless_body(s.body, target, items) and orderless_body(s.orelse, target, items):
                continue
            return False
        if isinstance(s, (ast.Break, ast.Continue, ast.Pass)):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr in ('add', 'discard'):
            continue
        return False
    return True


def judge(ip, e, tree=None):
    if e['kind'] == 'set-iter':
        root = e.get('fnode') or tree
        if root is not None and e['node'] is not None and not order_matters(root, e['node'], e.get('items')):
            return []
        return [('set order|%s|%s' % (e['fn'], short(e['node'].iter if isinstance(e['node'], ast.For) else e['node'])),
                 'goes through a set of texts, whose order changes from process to process, at %s' % lib.where(e))]
    if e['kind'] == 'locale':
        return [('locale|%s|%s' % (e['fn'], short(e['node'])), '%s: the bytes are read as the locale says, at %s' % (e['msg'], lib.where(e)))]
    return [('%s|%s|%s' % (e['kind'], e['fn'], short(e['node'])), '%s at %s' % (e['msg'], lib.where(e)))]


def pick(ip, job, st, v, evs):
    return [x for e in evs for x in judge(ip, e)]


def run(R):
    ip = lib.interp()
    for e in ip.load_events:
        if e['kind'] in KIND:
            m = ip.modules.get(e['fn'])
            for k, t in judge(ip, e, getattr(m, 'tree', None)):
                R.hit('on import|' + k, 'on import: ' + t)
    for job, l in common.sweep_jobs(R, KIND, pick):
        for k, m in l:
            R.hit(k, '%s: %s' % (jobs.show(job), m))
    R.cov.update(explanation='abstract interpretation of every public entry point over all texts, watching for sources of '
                             'nondeterminism: going through a set of texts where order can show, hash() and id(), random, time, '
                             'environment, threads, directory listings, and text files opened in the locale\'s encoding',
                 rule='none of them is reachable')
