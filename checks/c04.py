"""C04: the result does not depend on earlier calls, and the caller's arguments are left alone."""
import ast

from engine import absint as A, guards, jobs, lib
from engine.sweep import short
from checks import common

KIND = ('mutate-shared', 'global-write', 'iter-reuse')


def params(fnode):
    a = fnode.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | \
        ({a.kwarg.arg} if a.kwarg else set())


def local_defs(fnode):
    d = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            d.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.For)) and isinstance(n.target, ast.Name):
            d.setdefault(n.target.id, []).append(None)
    return d


def key_params(e, fnode, defs, depth=0):
    """the parameters the key contains whole"""
    ps = params(fnode)
    if isinstance(e, ast.Name):
        l = defs.get(e.id)
        if e.id in ps:
            return {e.id} if not l else set()
        if l and len(l) == 1 and l[0] is not None and depth < 4:
            return key_params(l[0], fnode, defs, depth + 1)
        return set()
    if isinstance(e, ast.Tuple):
        return set().union(*[key_params(x, fnode, defs, depth + 1) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'repr', 'str') and len(e.args) == 1:
        return key_params(e.args[0], fnode, defs, depth + 1)
    return set()


def cache_store(e):
    """A store into a dictionary that serves as a cache: None if the key covers every parameter the function reads,
    else the parameters it lacks; False if this is no such store."""
    node, fnode = e.get('node'), e.get('fnode')
    if not isinstance(e.get('obj'), (A.D, A.ADict)) or fnode is None or isinstance(fnode, ast.Lambda):
        return False
    if isinstance(node, ast.Subscript):
        key = node.slice
        c = ast.dump(node.value)
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'setdefault':
        key = node.args[0]
        c = ast.dump(node.func.value)
    else:
        return False
    # it must be looked up with the same key
    looked = False
    for n in ast.walk(fnode):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.dump(n.value) == c or \
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault') and \
                ast.dump(n.func.value) == c or \
                isinstance(n, ast.Compare) and any(ast.dump(x) == c for x in n.comparators):
            looked = True
    if not looked:
        return False
    defs = local_defs(fnode)
    have = key_params(key, fnode, defs)
    read = {n.id for n in ast.walk(fnode) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & params(fnode)
    lack = read - have - {'self', 'cls'}
    return sorted(lack) if lack else None


def lazy_init(e):
    """the first use fills an empty table with something that does not depend on the arguments"""
    b = e.get('before')
    empty = b is None or b is A.UNBOUND or (isinstance(b, (list, dict, tuple)) and len(b) == 0)
    fnode, node = e.get('fnode'), e.get('node')
    if not empty or fnode is None:
        return False
    ps = params(fnode) if not isinstance(fnode, ast.Lambda) else set()
    par = guards.parents(fnode)
    n = node
    while id(n) in par and not isinstance(n, ast.stmt):
        n = par[id(n)]
    used = guards._closure(fnode, guards.names(n))
    for t in guards.tests_on_path(fnode, node):
        if isinstance(t, ast.expr):
            used |= guards.names(t)
    return not (used & ps)


def judge(e):
    k = e['kind']
    at = lib.where(e)
    if k == 'iter-reuse':
        return [('used-up iterator|%s|%s' % (e['fn'], short(e['node'])), '%s, at %s' % (e['msg'], at))]
    own = str(e.get('owner'))
    if k == 'mutate-shared' and not own.startswith(('the list the caller', 'default argument')):
        c = cache_store(e)
        if c is None:
            return []
        if c is not False:
            return [('cache key|%s|%s' % (e['fn'], short(e['node'])),
                     'the cache %s is filled under a key that leaves out %s, at %s' % (own, ', '.join(c), at))]
    if not own.startswith(('the list the caller', 'default argument', 'cached result')) and lazy_init(e):
        return []
    return [('%s|%s|%s|%s' % (k, own, e['fn'], e.get('how') or ''), 'changes %s (%s), at %s' % (own, e.get('how') or 'assignment', at))]


def pick(ip, job, st, v, evs):
    return [x for e in evs for x in judge(e)]


def run(R):
    ip = lib.interp()
    for job, l in common.sweep_jobs(R, KIND, pick):
        for k, m in l:
            R.hit(k, '%s: %s' % (jobs.show(job), m))
    R.cov.update(explanation='abstract interpretation of every public entry point over all texts with ownership marks on every '
                             'module-level object, default argument, cached result and argument of the caller',
                 rule='no marked object is changed, no global is assigned, no shared one-shot iterator is used up; allowed are '
                      'caches whose key contains every parameter read, and first-use initialisation independent of the arguments')
