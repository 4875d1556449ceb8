"""C21: every conversion comes to an end.

Three things can keep a conversion from ending: a regular expression that backtracks exponentially, a loop that makes no
progress, a list that grows while it is gone through.
"""
import ast
import os
import warnings

from engine import ambig, jobs, lib
from engine import absint as A
from checks import common

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'discard', 'update', 'popitem', 'setdefault', 'sort',
       'reverse', 'popleft', 'appendleft', 'send', 'read', 'readline', '__next__', 'write', 'seek'}


# ------------------------------------------------------------------ patterns
def one(job):
    ip = lib.IP
    before = set(ip.patterns)
    common.jobs.run(ip, job)
    return [(k, ip.patterns[k]) for k in ip.patterns if k not in before], frozenset(ip.covered)


# ------------------------------------------------------------------ loops
def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | \
        {ast.unparse(x) for x in ast.walk(n) if isinstance(x, ast.Attribute)}


def impure(n):
    """a call that may hand out something else each time"""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in ('len', 'isinstance', 'any', 'all', 'sorted', 'str', 'int', 'ord', 'chr', 'min',
                                                    'max', 'sum', 'list', 'set', 'tuple', 'dict', 'bool', 'range', 'enumerate', 'zip'):
                continue
            if isinstance(f, ast.Attribute) and f.attr in ('search', 'match', 'fullmatch', 'findall', 'sub', 'startswith', 'endswith', 'find',
                                                           'index', 'count', 'replace', 'split', 'join', 'strip', 'lower', 'upper',
                                                           'isdigit', 'isalpha', 'isspace', 'get', 'keys', 'values', 'items', 'group',
                                                           'rstrip', 'lstrip', 'title', 'category', 'compile', 'escape', 'rfind'):
                continue
            return True
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


class TooMany(Exception):
    pass


def effects(s):
    """(names a statement may set or change, certainly without effect on anything else?)"""
    out = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out |= names(x.value)
        elif isinstance(x, ast.Call):
            for a in list(x.args) + [k.value for k in x.keywords]:
                out |= {'*' + n for n in names(a)}
            if isinstance(x.func, ast.Attribute):
                out |= names(x.func.value) if x.func.attr in MUT else {'*' + n for n in names(x.func.value)}
    return out


def paths(body, done=None):
    """the ways through a block: (kind, names set, names read in conditions, impure?); kind 'next', 'continue', 'out'"""
    acc = [('next', frozenset(), frozenset(), False)]
    for s in body:
        new = []
        for k, w, r, i in acc:
            if k != 'next':
                new.append((k, w, r, i))
                continue
            if isinstance(s, ast.If):
                t = frozenset(names(s.test))
                ti = impure(s.test)
                for br in (s.body, s.orelse):
                    for k2, w2, r2, i2 in paths(br):
                        new.append((k2, w | w2, r | r2 | t, i or i2 or ti))
            elif isinstance(s, ast.Continue):
                new.append(('continue', w, r, i))
            elif isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                new.append(('out', w, r, i))
            elif isinstance(s, (ast.For, ast.While, ast.Try, ast.With, ast.Match)):
                # any way through it: everything it may set is set; if it may leave the loop, assume that it does
                if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(s)) or isinstance(s, ast.Try):
                    new.append(('out', w, r, True))
                else:
                    new.append(('next', w | effects(s), r | names(s), i or impure(s)))
            else:
                new.append(('next', w | effects(s), r, i or (impure(s) and not quiet(s))))
        acc = new
        if len(acc) > 512:
            raise TooMany
    return acc


def quiet(s):
    """a statement whose calls cannot change what the loop's condition reads"""
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print'


def stuck(loop):
    """a way through the loop's body that leaves everything it depends on as it was"""
    if impure(loop.test):
        return None
    t = names(loop.test)
    try:
        ps = paths(loop.body)
    except TooMany:
        return None
    for k, w, r, i in ps:
        if k == 'out' or i:
            continue
        need = t | r
        if not any(n in w or '*' + n in w for n in need) and not any(n.split('.')[0] in w for n in need):
            return 'a way through the loop changes nothing its condition depends on (%s)' % ', '.join(sorted(t)[:4])
    return None


def chain(e, var):
    """[(old, new)] when e is a chain of replacements of constants applied to the variable"""
    out = []
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'replace' and len(e.args) == 2 and not e.keywords:
        a, b = e.args
        if not (isinstance(a, ast.Constant) and isinstance(a.value, str) and isinstance(b, ast.Constant) and isinstance(b.value, str)):
            return None
        out.append((a.value, b.value))
        e = e.func.value
    if isinstance(e, ast.Name) and e.id == var:
        return out[::-1]
    return None


def idle(loop):
    """`while K in s: s = s.replace(..)..` whose replacements never take K away"""
    t = loop.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and isinstance(t.left, ast.Constant)
            and isinstance(t.left.value, str) and t.left.value and isinstance(t.comparators[0], ast.Name)):
        return None
    var, k = t.comparators[0].id, t.left.value
    ops = []
    for s in loop.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            if s.targets[0].id != var:
                if var in names(s.targets[0]):
                    return None
                continue
            c = chain(s.value, var)
            if c is None:
                return None
            ops += c
        else:
            return None
    if not any(a and a in k for a, b in ops):
        return 'none of the replacements in the loop applies to %s, for which it goes on' % ascii(k)
    # the replacements of the loop, folded on the constant of its condition
    for w in (k, k * 2, k * 3):
        for i in range(40):
            for a, b in ops:
                w = w.replace(a, b)
            if k not in w or len(w) > 20000:
                break
        if k in w:
            return 'the loop goes on while %s is in the text, and its replacements put it in again' % ascii(k)
    return None


def growing(loop):
    """`for x in l:` that adds to l every time"""
    if not isinstance(loop.iter, ast.Name):
        return None
    l = loop.iter.id
    if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for s in loop.body for x in ast.walk(s)):
        return None
    sure = False
    for s in loop.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == l and s.value.func.attr in ('append', 'insert'):
            sure = True
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == l and isinstance(s.op, ast.Add) and \
                isinstance(s.value, (ast.List, ast.Tuple)) and s.value.elts:
            sure = True
        elif any(isinstance(x, ast.Continue) for x in ast.walk(s)) and not isinstance(s, (ast.For, ast.While)):
            return None
        elif any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'remove', 'clear')
                 or isinstance(x, ast.Name) and x.id == l and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(s)):
            return None
    return 'the list %s grows by each of its elements' % l if sure else None


def loops_of(path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(open(path, encoding='utf8').read(), path)
    todo = [(tree, '<module>')]
    while todo:
        n, fn = todo.pop()
        for c in ast.iter_child_nodes(n):
            f = c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else fn
            if isinstance(c, (ast.While, ast.For)):
                yield f, c
            todo.append((c, f))


def self_test():
    bad = ["while '  ' in s:\n s = s.replace('   ', ' ')", "while i < len(s):\n if s[i] == 'a':\n  continue\n i += 1",
           "for x in l:\n l.append(x + 'a')", "while 'a' in s:\n s = s.replace('a', 'ba')"]
    good = ["while '  ' in s:\n s = s.replace('  ', ' ')", "while i < len(s):\n if s[i] == 'a':\n  i += 2\n  continue\n i += 1",
            "for x in list(l):\n l.append(x)", "while True:\n x = next(it, None)\n if x is None:\n  break\n out.append(x)",
            "while l:\n x = l.pop()\n out.append(x)", "while i < n:\n x = seq[i]\n i = i + 1\n f(x)"]
    f = lambda s: [r for n in ast.walk(ast.parse(s)) if isinstance(n, (ast.While, ast.For)) for r in judge(n)]
    if not all(f(s) for s in bad) or any(f(s) for s in good):
        raise lib.Broken('the loop rules do not tell the examples apart')
    if not ambig.verdict('(a+)+!')[0].startswith('yes') or ambig.verdict('(a+b)+!')[0] != 'no':
        raise lib.Broken('the pattern rule does not tell the examples apart')


def judge(n):
    rs = [stuck(n), idle(n)] if isinstance(n, ast.While) else [growing(n)]
    return [r for r in rs if r]


def run(R):
    self_test()
    ip = lib.interp()
    jl = jobs.all_jobs(ip, R.tier)
    pats = dict(ip.patterns)
    cov = set()
    for j, r, err in lib.parallel(one, jl):
        if err:
            lib.gap(err)
            continue
        for k, v in r[0]:
            pats.setdefault(k, v)
        cov |= r[1]
    if len(cov) < 300 or len(pats) < 200:
        raise lib.Broken('only %d functions and %d patterns were reached' % (len(cov), len(pats)))
    n = unk = 0
    for k, (fn, line) in pats.items():
        v, m = ambig.verdict(*k)
        n += m
        if v.startswith('yes'):
            R.hit('pattern|%s|%s' % (fn, ascii(k[0])[:120]), 'the pattern %s at %s:%s can take exponential time: %s' % (ascii(k[0])[:200], fn, line, v[5:]))
        elif v.startswith('unknown'):
            unk += 1
    nl = 0
    pk = os.path.join(lib.REPO, 'aksharamukha')
    for dp, dn, fs in os.walk(pk):
        dn[:] = [d for d in dn if d not in ('tests', '__pycache__')]
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            for fn, c in loops_of(os.path.join(dp, f)):
                nl += 1
                for r in judge(c):
                    q = '%s.%s' % (os.path.splitext(f)[0], fn)
                    R.hit('loop|%s|%s' % (q, ast.unparse(c).split('\n')[0][:100]), '%s at %s:%s' % (r, q, c.lineno))
    if nl < 100:
        raise lib.Broken('only %d loops were found' % nl)
    R.cov.update(explanation='every regular expression that the interpretation of the entry points reaches is turned into its position '
                             'automaton and searched for a word that can be read in exponentially many ways before a failure; every loop of '
                             'the package is searched for a way through that changes nothing its condition depends on, for replacements that '
                             'never take away what the loop goes on for, and for a list that grows while it is gone through',
                 entry_calls=len(jl), functions_reached=len(cov), patterns=len(pats), unbounded_repeats=n, patterns_undecided=unk, loops=nl)
