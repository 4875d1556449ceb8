"""Abstract interpreter for the Python subset the library is written in.

It never imports or runs the code under analysis.  Every statement of /repo's current source is
interpreted over abstract values:

* constants, lists, dicts, functions and modules are tracked exactly (constant propagation);
* a text whose content is not known is an `AStr`: a finite/co-finite set of the characters it may
  contain plus a set of `must` tokens (which inputs are certainly still inside it);
* any other unknown is `Top`.

A condition on an unknown forks the state, both sides are interpreted, and the results are joined;
loops over unknown collections run to a fixpoint.  So one run covers every text.
"""
import ast
import builtins
import functools as _ft
import itertools
import json
import math
import operator
import os
import string as _string
import unicodedata
import warnings

from . import charset as C
from . import rx as R

sys_setrec = __import__('sys').setrecursionlimit
sys_setrec(20000)


# ----------------------------------------------------------------------------- values
class AStr:
    __slots__ = ('cs', 'must', 'ne')

    def __init__(self, cs=C.ALL, must=frozenset(), ne=False):
        self.cs = cs
        self.must = must
        self.ne = ne

    def __repr__(self):
        return 'AStr(%r%s)' % (self.cs, ',must=%s' % sorted(map(str, self.must)) if self.must else '')

    def __eq__(self, o):
        return isinstance(o, AStr) and self.cs == o.cs and self.must == o.must and self.ne == o.ne

    def __hash__(self):
        return hash((self.cs, self.must, self.ne))


class TmplStr(AStr):
    """what Match.expand gives for a template"""
    __slots__ = ('tmpl',)

    def __init__(self, cs, must, ne, tmpl):
        AStr.__init__(self, cs, must, ne)
        self.tmpl = tmpl


class NodeStr(AStr):
    """a text that is also an object with attributes of its own (a text node of a document)"""
    __slots__ = ('node',)

    def __init__(self, cs, must, node):
        AStr.__init__(self, cs, must, True)
        self.node = node


class LitStr(AStr):
    """an unknown one of a known, possibly large, set of texts"""
    __slots__ = ('lits',)

    def __init__(self, lits, must=frozenset()):
        AStr.__init__(self, C.of(''.join(sorted(lits))), must, all(lits))
        self.lits = lits

    def __eq__(self, o):
        return isinstance(o, LitStr) and self.lits == o.lits and self.must == o.must

    def __hash__(self):
        return hash((self.lits, self.must))


class Top:
    __slots__ = ('kind',)

    def __init__(self, kind='any'):
        self.kind = kind

    def __repr__(self):
        return 'Top(%s)' % self.kind

    def __eq__(self, o):
        return isinstance(o, Top) and o.kind == self.kind

    def __hash__(self):
        return hash(('Top', self.kind))


TOP = Top()
TBOOL = Top('bool')
TINT = Top('int')
TPOS, TNAT = Top('pos'), Top('nat')      # at least one, at least nought


class OneOf:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'OneOf%r' % (self.vals,)

    def __eq__(self, o):
        return isinstance(o, OneOf) and _vkeys(self.vals) == _vkeys(o.vals)

    def __hash__(self):
        return hash(_vkeys(self.vals))


def _vkeys(vals):
    return frozenset((type(v).__name__, v) if _hashable(v) else id(v) for v in vals)


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


class Unbound:
    def __repr__(self):
        return 'Unbound'


UNBOUND = Unbound()


class MaybeUnbound:
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val

    def __eq__(self, o):
        return isinstance(o, MaybeUnbound) and same(self.val, o.val)

    __hash__ = None


class L(list):
    """A list whose elements are abstract values."""
    __slots__ = ('owner',)

    def __init__(self, it=(), owner=None):
        list.__init__(self, it)
        self.owner = owner

    __hash__ = None


class D(dict):
    __slots__ = ('owner', 'default')

    def __init__(self, it=(), owner=None, default=None):
        dict.__init__(self, it)
        self.owner = owner
        self.default = default

    __hash__ = None


class SetV:
    __slots__ = ('items', 'owner')

    def __init__(self, it=(), owner=None):
        self.items = []
        for x in it:
            if not any(same(x, y) for y in self.items):
                self.items.append(x)
        self.owner = owner

    __hash__ = None

    def __repr__(self):
        return 'SetV(%r)' % self.items


class AList:
    """A sequence of unknown length; `must`: tokens certainly contained in the concatenation."""
    __slots__ = ('elem', 'must', 'owner', 'kind', 'minlen')

    def __init__(self, elem, must=frozenset(), owner=None, kind='list', minlen=0):
        self.elem = elem
        self.must = must
        self.owner = owner
        self.kind = kind
        self.minlen = minlen

    def __repr__(self):
        return 'AList(%r)' % (self.elem,)

    def __eq__(self, o):
        return isinstance(o, AList) and same(self.elem, o.elem) and self.must == o.must and self.kind == o.kind \
            and self.minlen == o.minlen

    __hash__ = None


class ADict:
    """A mapping whose keys are not known exactly."""
    __slots__ = ('key', 'val', 'owner', 'ne')

    def __init__(self, key=None, val=None, owner=None, ne=False):
        self.ne = ne              # certainly not empty
        self.key = key if key is not None else TOP
        self.val = val if val is not None else TOP
        self.owner = owner

    def __eq__(self, o):
        return isinstance(o, ADict) and same(self.key, o.key) and same(self.val, o.val)

    __hash__ = None


class Func:
    def __init__(self, node, mod, env, name, defaults, kwdefaults, qual, decorators=()):
        self.node = node
        self.mod = mod
        self.env = env
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.decorators = decorators
        self.attrs = {}
        self.cache = None
        self.amemo = [0, 0]       # hits and misses of remembering results for unknown texts

    def __repr__(self):
        return '<Func %s>' % self.qual


class Bound:
    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return '<Bound %r.%s>' % (type(self.recv).__name__, self.name)


class BoundFunc:
    def __init__(self, func, inst):
        self.func = func
        self.inst = inst


class Cls:
    def __init__(self, name, attrs, mod, bases):
        self.name = name
        self.attrs = attrs
        self.mod = mod
        self.bases = bases

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                v = b.find(n)
                if v is not None:
                    return v
        return None


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.owner = None


class Ext:
    """Something from a library outside the repository (or an opaque value it returned)."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<Ext %s>' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class PyFn:
    """A modelled builtin or library function."""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<PyFn %s>' % self.name


class RxVal:
    def __init__(self, pat, flags, flavour='re'):
        self.pat = pat
        self.flags = flags
        self.flavour = flavour


class MatchVal:
    def __init__(self, s, rx=None):
        self.s = s
        self.rx = rx


class FileVal:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode


class PathVal:
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, PathVal) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Mod:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.vars = {}
        self.is_pkg = False

    def __repr__(self):
        return '<Mod %s>' % self.name


class AbsRaise(Exception):
    def __init__(self, exc, msg, node=None, env=None, where=None):
        Exception.__init__(self, '%s: %s' % (exc, msg))
        self.exc = exc
        self.msg = msg
        self.node = node
        self.where = where


class Unsupported(Exception):
    pass


CONST = (str, int, float, bool, type(None), bytes, complex)


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta in (L, list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is D:
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if ta is SetV:
        return len(a.items) == len(b.items) and all(any(same(x, y) for y in b.items) for x in a.items)
    if ta in (Func, Bound, BoundFunc, Inst, Cls, Mod, PyFn, RxVal, MatchVal, FileVal):
        if ta is Bound:
            return a.name == b.name and same(a.recv, b.recv)
        if ta is RxVal:
            return a.pat == b.pat and a.flags == b.flags
        return False
    return a == b


MAX_ALT = 96


def alts(v):
    return v.vals if isinstance(v, OneOf) else (v,)


def to_astr(v):
    if isinstance(v, AStr):
        return v
    if isinstance(v, str):
        return AStr(C.of(v), frozenset(), bool(v))
    return None


def join_astr(a, b):
    return AStr(a.cs.union(b.cs), a.must & b.must, a.ne and b.ne)


def mk_oneof(vals):
    """Normalise a bag of alternatives."""
    out = []
    astr = None
    strs = 0
    seen = set()
    for v in vals:
        if type(v) is str:
            if v not in seen:
                seen.add(v)
                out.append(v)
                strs += 1
            continue
        if isinstance(v, OneOf):
            return mk_oneof([w for x in vals for w in alts(x)])
        if isinstance(v, Top) and v.kind == 'any':
            return TOP
        if isinstance(v, AStr):
            astr = v if astr is None else join_astr(astr, v)
            continue
        dup = False
        for o in out:
            if same(o, v):
                dup = True
                break
        if not dup:
            out.append(v)
            if isinstance(v, str):
                strs += 1
    if strs > MAX_ALT or (strs and astr is not None) or any(isinstance(v, str) and len(v) > 4000 for v in out) and len(out) > 1:
        ss = [v for v in out if isinstance(v, str)]
        out = [v for v in out if not isinstance(v, str)]
        a = to_astr(ss[0])
        for s in ss[1:]:
            a = join_astr(a, to_astr(s))
        astr = a if astr is None else join_astr(astr, a)
    if astr is not None:
        out.append(astr)
    nums = [v for v in out if isinstance(v, (int, float)) and not isinstance(v, bool)]
    tops = [v for v in out if isinstance(v, Top) and v.kind in ('int', 'pos', 'nat')]
    if len(nums) > 8 or tops and len(nums) + len(tops) > 1:
        k = TPOS if all(t.kind == 'pos' for t in tops) and all(n >= 1 for n in nums) else \
            TNAT if not any(t.kind == 'int' for t in tops) and all(n >= 0 for n in nums) else TINT
        out = [v for v in out if not (isinstance(v, (int, float)) and not isinstance(v, bool)) and not any(v is t for t in tops)]
        out.append(k)
    if len(out) == 1:
        return out[0]
    if len(out) > MAX_ALT * 2:
        return TOP
    # containers: merge lists of different content
    conts = [v for v in out if isinstance(v, (L, AList, tuple))]
    if len(conts) > 1:
        rest = [v for v in out if not isinstance(v, (L, AList, tuple))]
        m = conts[0]
        for c in conts[1:]:
            m = join(m, c)
        out = rest + [m]
        if len(out) == 1:
            return out[0]
    return OneOf(tuple(out))


def join(a, b):
    if a is b:
        return a
    if isinstance(a, MaybeUnbound) or isinstance(b, MaybeUnbound):
        x = a.val if isinstance(a, MaybeUnbound) else a
        y = b.val if isinstance(b, MaybeUnbound) else b
        if x is UNBOUND:
            return MaybeUnbound(y) if y is not UNBOUND else UNBOUND
        if y is UNBOUND:
            return MaybeUnbound(x)
        return MaybeUnbound(join(x, y))
    if a is UNBOUND or b is UNBOUND:
        v = b if a is UNBOUND else a
        return UNBOUND if v is UNBOUND else MaybeUnbound(v)
    if isinstance(a, AStr) and isinstance(b, AStr):
        return join_astr(a, b)
    if type(a) is type(b) and same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(a, L) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    if isinstance(a, (L, AList, tuple)) and isinstance(b, (L, AList, tuple)):
        if isinstance(a, L) and isinstance(b, L) and len(a) == len(b) and len(a) < 200 and not any(type(x) is Vague for x in a) \
                and not any(type(x) is Vague for x in b):
            r = L([join(x, y) for x, y in zip(a, b)])
            r.owner = a.owner or b.owner
            return r
        e = join_all(list(_elems(a)) + list(_elems(b)))
        ma = a.must if isinstance(a, AList) else None
        mb = b.must if isinstance(b, AList) else None
        must = (ma & mb) if ma is not None and mb is not None else frozenset()
        n = min(_minlen(a), _minlen(b))
        return AList(e if e is not None else TOP, must, getattr(a, 'owner', None) or getattr(b, 'owner', None),
                     minlen=n)
    if isinstance(a, D) and isinstance(b, D):
        if a.keys() == b.keys():
            return D({k: join(a[k], b[k]) for k in a}, a.owner or b.owner)
        ks = join_all(list(a.keys()) + list(b.keys()))
        vs = join_all(list(a.values()) + list(b.values()))
        return ADict(ks, vs, a.owner or b.owner)
    if isinstance(a, (D, ADict)) and isinstance(b, (D, ADict)):
        ks = join_all((list(a.keys()) if isinstance(a, D) else [a.key]) + (list(b.keys()) if isinstance(b, D) else [b.key]))
        vs = join_all((list(a.values()) if isinstance(a, D) else [a.val]) + (list(b.values()) if isinstance(b, D) else [b.val]))
        return ADict(ks, vs, a.owner or b.owner)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return AList(join_all(a.items + b.items) or TOP, kind='set', owner=a.owner or b.owner)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
        r = Inst(a.cls)
        for k in set(a.attrs) | set(b.attrs):
            r.attrs[k] = join(a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
        return r
    if isinstance(a, (bool, Top)) and isinstance(b, (bool, Top)) and 'bool' in (getattr(a, 'kind', 'bool'), getattr(b, 'kind', 'bool')) \
            and getattr(a, 'kind', 'bool') == getattr(b, 'kind', 'bool'):
        return TBOOL
    return mk_oneof([a, b])


def _minlen(v):
    return v.minlen if isinstance(v, AList) else minlen(v)


def minlen(l):
    return sum(x.n if type(x) is Vague else 1 for x in l)


def plain(l):
    """the elements of a list, each placeholder by what it stands for"""
    out = []
    for x in l:
        while type(x) is Vague:
            x = x.elem
        if isinstance(x, OneOf) and any(type(y) is Vague for y in x.vals):
            out.extend(plain(x.vals))
        else:
            out.append(x)
    return out


def join_all(vs):
    r = None
    vs = list(vs)
    if not vs:
        return None
    if all(isinstance(v, str) for v in vs):
        u = list(dict.fromkeys(vs))
        if len(u) == 1:
            return u[0]
        return mk_oneof(u)
    for v in vs:
        r = v if r is None else join(r, v)
    return r


def some_of(must):
    for t in must:
        if type(t) is tuple and t[0] == 'any':
            return sorted(t[1])
    return None


def certain(it):
    """certainly not empty?"""
    if isinstance(it, AList):
        return it.minlen > 0
    if isinstance(it, (AStr, ADict)):
        return it.ne
    if isinstance(it, L):
        return minlen(it) > 0
    return False


def _elems(v):
    if isinstance(v, AList):
        return (v.elem,)
    return tuple(plain(v))


def fully_concrete(v, depth=0):
    if isinstance(v, CONST):
        return True
    if isinstance(v, (L, tuple, list)):
        return all(fully_concrete(x, depth + 1) for x in v)
    if isinstance(v, D):
        return all(fully_concrete(x, depth + 1) for x in v.values())
    if isinstance(v, SetV):
        return all(fully_concrete(x) for x in v.items)
    return False


def unwrap(v):
    """abstract container of constants -> plain python"""
    if isinstance(v, (L, list)):
        return [unwrap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, D):
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, SetV):
        return set(unwrap(x) for x in v.items)
    return v


def wrap(v):
    if isinstance(v, (str, L, D, SetV, AList, AStr)):
        return v
    if isinstance(v, list):
        return L([wrap(x) for x in v])
    if isinstance(v, tuple):
        return tuple(wrap(x) for x in v)
    if isinstance(v, dict):
        return D({k: wrap(x) for k, x in v.items()})
    if isinstance(v, (set, frozenset)):
        return SetV([wrap(x) for x in sorted(v, key=repr)])
    return v


class Env:
    __slots__ = ('vars', 'mod', 'parent', 'func', 'ret', 'has_ret', 'loops', 'locals', 'globals', 'nonlocals',
                 'yields', 'is_gen', 'is_comp', 'raises', 'is_class', 'vague', 'exits', 'out')

    def __init__(self, mod, parent=None, func=None, locals_=None):
        self.vars = {}
        self.mod = mod
        self.parent = parent
        self.func = func
        self.ret = None
        self.has_ret = False
        self.loops = []
        self.locals = locals_
        self.globals = ()
        self.nonlocals = ()
        self.yields = None
        self.is_gen = False
        self.is_comp = False
        self.is_class = False
        self.vague = False        # some condition or loop in here was not decided
        self.raises = []
        self.exits = []           # where the continue, break and return statements met so far lead
        self.out = []             # heap states of the paths that returned


def _scope_info(node):
    """(locals, globals, nonlocals, is_generator) of a function node, cached on the node."""
    r = getattr(node, '_scope', None)
    if r is not None:
        return r
    loc, glo, nonl, gen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    loc.add(w.target.id)
            stack.extend(g.iter for g in n.generators[:1])
            continue
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    loc -= glo
    loc -= nonl
    r = (frozenset(loc), frozenset(glo), frozenset(nonl), gen)
    node._scope = r
    return r


BOTTOM = '__bottom__'


class _Nothing:
    pass


NOTHING = _Nothing()
STRATTRS = frozenset(dir(str))


class Interp:
    def __init__(self, repo='/repo', package='aksharamukha', trace=False):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.events = []          # list of dicts
        self.ops = [] if trace else None
        self.calls = None         # when a list: every call of a repository function, in order
        self.lib = {}             # models of library functions a check puts in place of the general ones
        self.hooks = {}           # qualified name -> fn(interp, func, args, kwargs, node)
        self.stack = []           # call stack of (Func, node)
        self.mutlog = []
        self.token_keys = False   # texts with different tokens are different, with the same the same
        self.pend = []            # heap states of paths that left by continue, break or return
        self.tries = []
        self.memo = {}
        self.memo_on = False
        self.enum = False         # go through the characters of a text one case each
        self.track = False        # note where foreign characters get lost
        self.loading = 0
        self.tokens = itertools.count()
        self.steps = 0
        self.filestack = []
        self.covered = set()
        self.recs = []
        self.undec = set()        # conditions (by node) that were ever found to depend on the text
        self._edisp = {}
        self._sdisp = {}
        self.recursive = set()
        self.patterns = {}
        self.same = None            # tracked character -> what it stands for
        self._json = {}
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)

    # ------------------------------------------------------------------ events
    def event(self, kind, msg, node=None, env=None, **kw):
        fn = self.stack[-1][0].qual if self.stack else (self.filestack[-1] if self.filestack else '?')
        e = {'kind': kind, 'msg': msg, 'fn': fn, 'line': getattr(node, 'lineno', None), 'node': node}
        e.update(kw)
        e['stack'] = tuple(f.qual for f, _ in self.stack)
        if self.stack:
            g = self.stack[-1][0]
            while g.env is not None and g.env.func is not None:
                g = g.env.func
            e['fnode'] = g.node
        self.events.append(e)
        return e

    def possible(self, exc, msg, node, **kw):
        """A raise that depends on the text."""
        caught = self.note_raise(exc, definite=False)
        self.event('may-raise-caught' if caught else 'may-raise', '%s: %s' % (exc, msg), node, exc=exc,
                   tryfn=self.catcher(exc) if caught else None, **kw)

    def path_event(self, ex):
        caught = getattr(ex, 'caught', False) or self.note_raise(ex.exc, True)
        self.event('may-raise-caught' if caught else 'may-raise-path', '%s: %s' % (ex.exc, ex.msg), ex.node,
                   exc=ex.exc, where=ex.where, rfn=getattr(ex, 'fn', None),
                   tryfn=self.catcher(ex.exc) if caught else None)

    def catcher(self, exc):
        for t in reversed(self.tries):
            if t.matches(exc):
                return t.fn
        return None

    def note_raise(self, exc, definite):
        """Tell the innermost enclosing try whose handler matches that control may arrive there."""
        for t in reversed(self.tries):
            if t.matches(exc):
                t.arrive(self)
                return True
        return False

    def op(self, kind, s, a, b, node):
        self.ops.append((kind, s, a, b, node, self.stack[-1][0].qual if self.stack else '?'))

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parts = name.split('.')
        if parts[0] != self.package:
            return None
        base = os.path.join(self.repo, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            path = os.path.join(base, '__init__.py')
            pkg = True
        elif os.path.exists(base + '.py'):
            path, pkg = base + '.py', False
        elif os.path.isdir(base):
            path, pkg = None, True
        else:
            raise AbsRaise('ModuleNotFoundError', 'No module named %r' % name)
        if len(parts) > 1:
            self.load('.'.join(parts[:-1]))
        m = Mod(name, path)
        m.is_pkg = pkg
        m.vars['__name__'] = name
        m.vars['__file__'] = path
        self.modules[name] = m
        if path:
            with open(path, encoding='utf8') as f:
                src = f.read()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
            except SyntaxError as e:
                del self.modules[name]
                raise AbsRaise('SyntaxError', '%s: %s' % (path, e))
            m.tree = tree
            env = Env(m)
            env.vars = m.vars
            self.loading += 1
            self.filestack.append(name)
            saved = self.stack, self.tries, self.mutlog
            self.stack, self.tries, self.mutlog = [], [], []
            try:
                self.block(tree.body, env)
            except AbsRaise:
                del self.modules[name]
                raise
            finally:
                self.stack, self.tries, self.mutlog = saved
                self.filestack.pop()
                self.loading -= 1
            if env.vars is None:
                del self.modules[name]
                r = env.raises[0] if env.raises else AbsRaise('ImportError', 'module %s does not complete' % name)
                raise r
            m.vars = env.vars
            for k, v in list(m.vars.items()):
                self.own(v, '%s.%s' % (name, k))
        if len(parts) > 1:
            pm = self.modules['.'.join(parts[:-1])]
            pm.vars.setdefault(parts[-1], m)
        return m

    def own(self, v, owner, seen=None):
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (L, D, SetV, AList, ADict)):
            if v.owner is None:
                v.owner = owner
            if isinstance(v, L):
                for x in v:
                    if not isinstance(x, str):
                        self.own(x, owner, seen)
            elif isinstance(v, D):
                for k, x in v.items():
                    self.own(x, owner, seen)
        elif isinstance(v, tuple):
            for x in v:
                self.own(x, owner, seen)
        elif isinstance(v, Iter):
            if v.owner is None:
                v.owner = owner
        elif isinstance(v, Inst):
            if v.owner is None:
                v.owner = owner
            for k, x in v.attrs.items():
                self.own(x, owner + '.' + k, seen)
        elif isinstance(v, Func):
            for d in list(v.defaults) + list(v.kwdefaults.values()):
                self.own(d, 'default argument of %s' % v.qual, seen)
        elif isinstance(v, Cls):
            for k, x in v.attrs.items():
                self.own(x, '%s.%s' % (v.name, k), seen)

    def func(self, modname, fname):
        m = self.load(modname)
        f = m.vars.get(fname)
        if not isinstance(f, Func):
            raise KeyError('%s.%s is not a function' % (modname, fname))
        return f

    # ------------------------------------------------------------------ mutation
    def snapshot(self, o):
        if isinstance(o, L):
            return list(o)
        if isinstance(o, D):
            return dict(o)
        if isinstance(o, SetV):
            return list(o.items)
        if isinstance(o, AList):
            return (o.elem, o.must, o.minlen)
        if isinstance(o, ADict):
            return (o.key, o.val)
        if isinstance(o, (Inst,)):
            return dict(o.attrs)
        if isinstance(o, Mod):
            return dict(o.vars)
        return None

    def restore(self, o, s):
        if isinstance(o, L):
            o[:] = s
        elif isinstance(o, D):
            o.clear()
            o.update(s)
        elif isinstance(o, SetV):
            o.items = list(s)
        elif isinstance(o, AList):
            o.elem, o.must, o.minlen = s
        elif isinstance(o, ADict):
            o.key, o.val = s
        elif isinstance(o, Inst):
            o.attrs = dict(s)
        elif isinstance(o, Mod):
            o.vars.clear()
            o.vars.update(s)

    def mutate(self, o, node, how):
        owner = getattr(o, 'owner', None)
        if isinstance(o, Mod):
            owner = 'module ' + o.name
        if owner is not None:
            self.event('mutate-shared', '%s on %s' % (how, owner), node, owner=owner, how=how, obj=o,
                       before=self.snapshot(o))
        for log in self.mutlog:
            if id(o) not in log:
                log[id(o)] = (o, self.snapshot(o))
        for log in self.pend:
            if id(o) not in log:
                log[id(o)] = (o, self.snapshot(o))

    def leave(self, env, n0, states):
        """A branch has ended; if by continue, break or return, its heap joins in where those lead."""
        for to in {id(x): x for x in env.exits[n0:]}.values():
            rec = dict(states)
            to.append(rec)
            self.pend.append(rec)

    def settle(self, to):
        for rec in to:
            self.pend = [x for x in self.pend if x is not rec]
            for i, (o, st) in rec.items():
                now = self.snapshot(o)
                for lg in self.mutlog:
                    lg.setdefault(i, (o, now))
                self.join_obj(o, st, now)
        del to[:]

    def join_obj(self, o, sa, sb):
        """o := join of two snapshots of o"""
        if isinstance(o, L):
            if len(sa) == len(sb) and all(same(x, y) for x, y in zip(sa, sb)):
                self.restore(o, sa)
                return
            if len(sa) == len(sb) and not any(type(x) is Vague for x in sa) and not any(type(x) is Vague for x in sb):
                self.restore(o, [join(x, y) for x, y in zip(sa, sb)])
                return
            # lengths differ: the list loses its exact shape in place
            e = join_all(plain(sa) + plain(sb))
            o[:] = [Vague(e if e is not None else TOP, min(minlen(sa), minlen(sb)))]
            return
        if isinstance(o, D):
            ks = list(dict.fromkeys(list(sa) + list(sb)))
            o.clear()
            for k in ks:
                o[k] = join(sa.get(k, UNBOUND), sb.get(k, UNBOUND))
            return
        if isinstance(o, SetV):
            o.items = list(sa) + [x for x in sb if not any(same(x, y) for y in sa)]
            return
        if isinstance(o, AList):
            o.elem, o.must, o.minlen = join(sa[0], sb[0]), sa[1] & sb[1], min(sa[2], sb[2])
            return
        if isinstance(o, ADict):
            o.key, o.val = join(sa[0], sb[0]), join(sa[1], sb[1])
            return
        if isinstance(o, Inst):
            ks = set(sa) | set(sb)
            o.attrs = {k: join(sa.get(k, UNBOUND), sb.get(k, UNBOUND)) for k in ks}
            return
        if isinstance(o, Mod):
            for k in set(sa) | set(sb):
                o.vars[k] = join(sa.get(k, UNBOUND), sb.get(k, UNBOUND))

    def fork(self, env, va, fa, vb, fb):
        """Run fa from vars va and fb from vars vb (either vars may be None = impossible)."""
        if va is None and vb is None:
            env.vars = None
            return
        if vb is None:
            env.vars = va
            fa()
            return
        if va is None:
            env.vars = vb
            fb()
            return
        env.vague = True
        log1 = {}
        self.mutlog.append(log1)
        env.vars = va
        n0 = len(env.exits)
        try:
            self.guard(env, fa)
        finally:
            self.mutlog.pop()
        ra = env.vars
        posta = {i: self.snapshot(o) for i, (o, s) in log1.items()}
        for o, s in log1.values():
            self.restore(o, s)
        if ra is None and len(env.exits) > n0:
            self.leave(env, n0, {i: (o, posta[i]) for i, (o, s) in log1.items()})
        n0 = len(env.exits)
        log2 = {}
        self.mutlog.append(log2)
        env.vars = vb
        try:
            self.guard(env, fb)
        finally:
            self.mutlog.pop()
        rb = env.vars
        if rb is None and len(env.exits) > n0:
            self.leave(env, n0, {i: (o, self.snapshot(o)) for i, (o, s) in {**log1, **log2}.items()})
        for i in list(log1) + [j for j in log2 if j not in log1]:
            o, pre = log1[i] if i in log1 else log2[i]
            sa = posta.get(i, pre)
            sb = self.snapshot(o)
            if ra is None and rb is not None:
                pass
            elif rb is None and ra is not None:
                self.restore(o, sa)
            else:
                self.join_obj(o, sa, sb)
            for log in self.mutlog:
                log.setdefault(i, (o, pre))
        env.vars = join_vars(ra, rb)

    def guard(self, env, f):
        """Run f; a definite raise inside kills this path only."""
        try:
            f()
        except AbsRaise as e:
            self.path_raise(env, e)

    def path_raise(self, env, e):
        """One path of a forked execution ends in exception e."""
        env.vars = None
        env.raises.append(e)
        if self.note_raise(e.exc, True):
            e.caught = True

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            if env.vars is None:
                return
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        m = self._sdisp.get(type(s))
        if m is None:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s at %s:%s' % (type(s).__name__, env.mod.name, s.lineno))
            self._sdisp[type(s)] = m
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value, env)
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr in ('replace', 'sub', 'strip', 'lower', 'upper', 'translate') and \
                isinstance(v, (AStr, str)):
            self.event('dropped-result', ast.unparse(s.value)[:80], s)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            cur = self.attr(base, t.attr, t, env)
        else:
            base = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            cur = self.index(base, idx, t)
        r = self.ev(s.value, env)
        if isinstance(s.op, ast.Add) and isinstance(cur, (L, AList)):
            # in-place extension: the same object is mutated
            self.mutate(cur, s, '+=')
            self.extend(cur, r, s)
            v = cur
        elif isinstance(s.op, ast.BitOr) and isinstance(cur, (SetV, D)):
            self.mutate(cur, s, '|=')
            if isinstance(cur, SetV):
                for x in self.iterate(r, s)[0]:
                    if not any(same(x, y) for y in cur.items):
                        cur.items.append(x)
            elif isinstance(r, D):
                cur.update(r)
            v = cur
        else:
            v = self.binop(s.op, cur, r, s)
        if isinstance(t, ast.Name):
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, v, s)
        else:
            self.setitem(base, idx, v, s)

    def extend(self, lst, r, node):
        items, exact, must = self.iterate(r, node)
        if isinstance(lst, L):
            if exact:
                list.extend(lst, items)
            else:
                e = join_all(plain(lst) + list(items))
                n = minlen(lst)
                lst[:] = [Vague(e if e is not None else TOP, n)]
        else:
            for x in items:
                lst.elem = join(lst.elem, x)
            lst.must = frozenset()

    def assign(self, t, v, env):
        if type(t) is ast.Name:
            if env.globals or env.nonlocals or env.is_comp:
                self.bind(t.id, v, env, t)
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, env)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            self.setitem(base, idx, v, t)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assign to %s' % type(t).__name__)

    def bind(self, name, v, env, node=None):
        e = env
        while e.is_comp and node is not None and getattr(node, '_walrus', False):
            e = e.parent
        if name in e.globals:
            if not self.loading:
                self.event('global-write', '%s.%s' % (e.mod.name, name), node, owner='%s.%s' % (e.mod.name, name),
                           before=e.mod.vars.get(name), value=v)
                self.own(v, '%s.%s' % (e.mod.name, name))
            for log in self.mutlog:
                if id(e.mod) not in log:
                    log[id(e.mod)] = (e.mod, self.snapshot(e.mod))
            e.mod.vars[name] = v
            return
        if name in e.nonlocals:
            p = e.parent
            while p is not None:
                if p.vars is not None and name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        e.vars[name] = v

    def unpack(self, t, v, env):
        n = len(t.elts)
        if type(v) is tuple and len(v) == n and type(t.elts[0]) is ast.Name and type(t.elts[-1]) is ast.Name \
                and n == 2 and not (env.globals or env.nonlocals):
            env.vars[t.elts[0].id] = v[0]
            env.vars[t.elts[1].id] = v[1]
            return
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if isinstance(v, OneOf):
            ok = [x for x in v.vals if isinstance(x, (tuple, L)) and len(x) == n]
            if len(ok) == len(v.vals):
                v = tuple(join_all([x[i] for x in ok]) for i in range(n))
            else:
                v = TOP
        if isinstance(v, (tuple, L)) and not (isinstance(v, L) and any(isinstance(x, Vague) for x in v)):
            if star:
                i = star[0]
                after = n - i - 1
                if len(v) < n - 1:
                    raise AbsRaise('ValueError', 'not enough values to unpack', t)
                for x, y in zip(t.elts[:i], v[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, L(v[i:len(v) - after]), env)
                for x, y in zip(t.elts[i + 1:], v[len(v) - after:]):
                    self.assign(x, y, env)
                return
            if len(v) != n:
                raise AbsRaise('ValueError', 'cannot unpack %d values into %d names' % (len(v), n), t)
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
            return
        if isinstance(v, str):
            if len(v) != n:
                raise AbsRaise('ValueError', 'cannot unpack', t)
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
            return
        if isinstance(v, AList):
            e = v.elem
            if v.minlen < n:
                self.possible('ValueError', 'unpack of a list of unknown length', t)
        elif isinstance(v, AStr):
            e = AStr(v.cs, ne=True)
        elif isinstance(v, (D,)):
            return self.unpack(t, L(v.keys()), env)
        elif isinstance(v, CONST):
            raise AbsRaise('TypeError', 'cannot unpack non-iterable %s' % type(v).__name__, t)
        else:
            e = TOP
        for x in t.elts:
            self.assign(x.value if isinstance(x, ast.Starred) else x,
                        AList(e) if isinstance(x, ast.Starred) else e, env)

    def setitem(self, base, idx, v, node):
        for b in alts(base):
            self._setitem(b, idx, v, node, len(alts(base)) > 1)

    def _setitem(self, base, idx, v, node, weak):
        if getattr(base, 'owner', None) is not None:
            self.own(v, base.owner)
        if isinstance(base, L):
            self.mutate(base, node, 'item assignment')
            if isinstance(idx, bool):
                idx = int(idx)
            if isinstance(idx, int) and not any(isinstance(x, Vague) for x in base):
                if not -len(base) <= idx < len(base):
                    raise AbsRaise('IndexError', 'list assignment index out of range', node)
                base[idx] = join(base[idx], v) if weak else v
            elif isinstance(idx, slice) and isinstance(v, (L, tuple)) and not weak:
                base[idx] = list(v)
            else:
                for i in range(len(base)):
                    base[i] = join(base[i], v)
        elif isinstance(base, D):
            self.mutate(base, node, 'item assignment')
            idx = self.tokkey(idx)
            if isinstance(idx, CONST + (tuple,)) and fully_concrete(idx):
                base[idx] = join(base[idx], v) if weak and idx in base else v
            else:
                base['\0any'] = join(base.get('\0any', v), v)
        elif isinstance(base, ADict):
            self.mutate(base, node, 'item assignment')
            base.key = join(base.key, idx)
            base.val = join(base.val, v)
        elif isinstance(base, AList):
            self.mutate(base, node, 'item assignment')
            base.elem = join(base.elem, v)
            base.must = frozenset()
        elif isinstance(base, GlobalsView):
            self.event('global-write', 'globals()[%r] of %s' % (idx, base.mod.name), node, owner=base.mod.name)
            if isinstance(idx, str):
                base.mod.vars[idx] = v
        elif isinstance(base, (str, AStr, tuple)):
            raise AbsRaise('TypeError', 'object does not support item assignment', node)
        elif isinstance(base, Ext):
            self.event('ext-mutate', base.path, node)

    def setattr(self, base, name, v, node):
        if isinstance(base, Inst):
            self.mutate(base, node, 'attribute assignment')
            base.attrs[name] = v
        elif isinstance(base, (Func, Cls)):
            self.event('mutate-shared', 'attribute %s of %r assigned' % (name, base), node, owner=repr(base), how='attribute assignment')
            base.attrs[name] = v
        elif isinstance(base, Mod):
            if not self.loading:
                self.event('global-write', '%s.%s' % (base.name, name), node, owner='%s.%s' % (base.name, name))
            for log in self.mutlog:
                if id(base) not in log:
                    log[id(base)] = (base, self.snapshot(base))
            base.vars[name] = v
        elif isinstance(base, Ext):
            self.event('ext-setattr', '%s.%s' % (base.path, name), node, value=v)
        elif isinstance(base, (str, AStr, L, D)):
            raise AbsRaise('AttributeError', 'cannot set attribute %s' % name, node)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env)
                i = self.ev(t.slice, env)
                if isinstance(b, (L, D, AList, ADict)):
                    self.mutate(b, s, 'del')
                    if isinstance(b, L) and isinstance(i, (int, slice)):
                        try:
                            del b[i]
                        except IndexError:
                            raise AbsRaise('IndexError', 'del index', s)
                    elif isinstance(b, D) and isinstance(i, CONST):
                        if i not in b:
                            raise AbsRaise('KeyError', repr(i), s)
                        del b[i]

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else None
        env.ret = v if not env.has_ret else join(env.ret, v)
        env.has_ret = True
        env.vars = None
        env.exits.append(env.out)

    def s_Raise(self, s, env):
        exc, msg = 'Exception', ''
        if s.exc is not None:
            v = self.ev(s.exc, env)
            if isinstance(v, Ext):
                exc = v.path.split('.')[-1].split('(')[0]
            elif isinstance(v, Inst):
                exc = v.cls.name
            elif isinstance(v, Cls):
                exc = v.name
            elif isinstance(v, ExcVal):
                exc, msg = v.name, v.msg
        raise AbsRaise(exc, msg, s, where='raise')

    def s_Assert(self, s, env):
        tv, fv = self.cond(s.test, env)
        if tv is None:
            raise AbsRaise('AssertionError', ast.unparse(s.test), s)
        if fv is not None:
            self.possible('AssertionError', ast.unparse(s.test), s)
        env.vars = tv

    def s_If(self, s, env):
        tv, fv = self.cond(s.test, env)
        self.fork(env, tv, lambda: self.block(s.body, env), fv, lambda: self.block(s.orelse, env))

    def s_Break(self, s, env):
        lp = env.loops[-1]
        lp[0] = join_vars(lp[0], env.vars)
        lp[2] = True
        env.vars = None
        env.exits.append(lp[4])

    def s_Continue(self, s, env):
        lp = env.loops[-1]
        lp[1] = join_vars(lp[1], env.vars)
        env.vars = None
        env.exits.append(lp[3])

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        items, exact, must = self.iterate(it, s)
        lp = [None, None, False, [], []]
        env.loops.append(lp)
        try:
            some = some_of(must) if self.enum and not exact else None
            if some:
                # one of these characters certainly has its round, after any others
                self.loop_fix(env, s, items, must, lp)
                if env.vars is not None:
                    self.first_round(env, s, some, lp)
            elif self.enum and not exact and certain(it):
                # not empty: the first round is certain
                self.first_round(env, s, items, lp)
            if env.vars is None:
                pass
            elif exact:
                for x in items:
                    if env.vars is None:
                        break
                    self.assign(s.target, x, env)
                    self.block(s.body, env)
                    env.vars = join_vars(env.vars, lp[1])
                    lp[1] = None
                    self.settle(lp[3])
            else:
                self.loop_fix(env, s, items, must, lp)
        finally:
            env.loops.pop()
        if s.orelse and env.vars is not None:
            self.block(s.orelse, env)
        env.vars = join_vars(env.vars, lp[0])
        self.settle(lp[4])

    def first_round(self, env, s, items, lp):
        def go(its):
            def body():
                self.assign(s.target, its[0], env)
                self.block(s.body, env)
                env.vars = join_vars(env.vars, lp[1])
                lp[1] = None
                self.settle(lp[3])
            if len(its) == 1:
                self.guard(env, body)
            else:
                self.fork(env, dict(env.vars), body, dict(env.vars), lambda: go(its[1:]))
        e = join_all(items)
        if e is not None:
            go(items if len(items) > 1 and all(type(x) is str for x in items) else [e])

    def loop_fix(self, env, s, items, must, lp):
        """Loop over a collection of unknown length: iterate the body to a fixpoint."""
        env.vague = True
        lid = next(self.tokens)
        EL = ('el', lid)
        elem = join_all(items)
        if elem is None:
            return
        v0 = env.vars
        acc = {}
        start = {}
        track = must or True
        for k, v in v0.items():
            a = to_astr(v) if isinstance(v, (AStr, str)) else None
            if a is not None and isinstance(s, ast.For):
                start[k] = v
        cur = dict(v0)
        mark_ok = None
        for rnd in range(12):
            vs = dict(cur)
            for k in start:
                a = to_astr(vs.get(k)) if isinstance(vs.get(k), (AStr, str)) else None
                if isinstance(vs.get(k), AStr) or (rnd == 0 and isinstance(vs.get(k), str) and len(start) and self._acc_like(s, k)):
                    vs[k] = AStr(a.cs, a.must | {('acc', lid, k)}, a.ne)
            env.vars = vs
            lp[1] = None
            el = elem
            if isinstance(el, (AStr,)):
                el = AStr(el.cs, el.must | {EL}, el.ne)
            elif isinstance(el, tuple):
                el = tuple(AStr(x.cs, x.must | {EL}, x.ne) if isinstance(x, AStr) else x for x in el)
            log = {}
            self.mutlog.append(log)
            try:
                if self.enum and len(items) > 1 and all(type(x) is str for x in items):
                    end = None
                    for x in items:
                        env.vars = dict(vs)
                        self.guard(env, lambda: (self.assign(s.target, x, env), self.block(s.body, env)))
                        end = join_vars(end, env.vars)
                    env.vars = end
                else:
                    self.guard(env, lambda: (self.assign(s.target, el, env), self.block(s.body, env)))
            finally:
                self.mutlog.pop()
            end = join_vars(env.vars, lp[1])
            self.settle(lp[3])
            for i, (o, pre) in log.items():
                self.join_obj(o, pre, self.snapshot(o))
                for lg in self.mutlog:
                    lg.setdefault(i, (o, pre))
            if end is None:
                break
            # which accumulators certainly swallow every element?
            ok = {}
            for k in start:
                v = end.get(k)
                if isinstance(v, AStr):
                    if ('acc', lid, k) in v.must:
                        ok[k] = EL in v.must
            mark_ok = ok if mark_ok is None else {k: ok[k] and mark_ok[k] for k in ok if k in mark_ok}
            end = {k: strip_tokens(v, lid) for k, v in end.items()}
            nxt = join_vars(cur, end)
            if rnd >= 6:
                nxt = {k: (v if k in cur and same(v, cur[k]) else widen(v)) for k, v in nxt.items()}
            if vars_same(nxt, cur):
                cur = nxt
                break
            cur = nxt
        env.vars = cur
        if mark_ok and env.vars is not None:
            for k, sw in mark_ok.items():
                v = env.vars.get(k)
                if isinstance(v, AStr):
                    base = start[k].must if isinstance(start[k], AStr) else frozenset()
                    env.vars[k] = AStr(v.cs, base | (must if sw and not lp[2] else frozenset()), v.ne)
        lp[1] = None
        if lp[0] is not None:
            lp[0] = {k: strip_tokens(v, lid) for k, v in lp[0].items()}

    def _acc_like(self, s, k):
        c = getattr(s, '_accs', None)
        if c is None:
            c = set()
            for n in ast.walk(s):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    c.add(n.target.id)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            c.add(t.id)
            s._accs = c
        return k in c

    def s_While(self, s, env):
        lp = [None, None, False, [], []]
        env.loops.append(lp)
        out = None
        try:
            cur = dict(env.vars)
            n = 0
            while True:
                n += 1
                env.vars = dict(cur)
                tv, fv = self.cond(s.test, env)
                if tv is None:
                    out = join_vars(out, fv)
                    break
                if fv is not None:
                    env.vague = True
                    out = join_vars(out, fv)
                    env.vars = tv
                    log = {}
                    self.mutlog.append(log)
                    try:
                        self.guard(env, lambda: self.block(s.body, env))
                    finally:
                        self.mutlog.pop()
                    self.settle(lp[3])
                    for i, (o, pre) in log.items():
                        self.join_obj(o, pre, self.snapshot(o))
                        for lg in self.mutlog:
                            lg.setdefault(i, (o, pre))
                    end = join_vars(env.vars, lp[1])
                    lp[1] = None
                    nxt = join_vars(cur, end) if end is not None else cur
                    if n > 6:
                        nxt = {k: (v if k in cur and same(v, cur[k]) else widen(v)) for k, v in nxt.items()}
                    if vars_same(nxt, cur):
                        break
                    cur = nxt
                else:
                    # condition certainly true: exact step
                    env.vars = tv
                    self.block(s.body, env)
                    end = join_vars(env.vars, lp[1])
                    lp[1] = None
                    self.settle(lp[3])
                    if end is None:
                        break
                    cur = end
                if n > 3000:
                    raise Unsupported('loop bound')
        finally:
            env.loops.pop()
        env.vars = out
        if s.orelse and env.vars is not None:
            self.block(s.orelse, env)
        env.vars = join_vars(env.vars, lp[0])
        self.settle(lp[4])

    def s_With(self, s, env):
        ctx = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            ctx.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)
        for v in reversed(ctx):
            if isinstance(v, Inst) and isinstance(v.attrs.get('__exit__'), PyFn):
                v.attrs['__exit__'].fn(self, [], {}, s)

    def s_Try(self, s, env):
        t = TryFrame(s, env, self)
        self.tries.append(t)
        depth = len(self.stack)
        raised = None
        pre = dict(env.vars)
        try:
            try:
                self.block(s.body, env)
            except AbsRaise as e:
                raised = e
        finally:
            self.tries.pop()
        normal = env.vars if raised is None else None
        if raised is not None:
            h = t.handler_for(raised.exc)
            if h is None:
                if s.finalbody:
                    self.block(s.finalbody, env)
                raise raised
            t.hits.setdefault(id(h), [h, None])
            t.hits[id(h)][1] = join_vars(t.hits[id(h)][1], dict(env.vars) if env.vars is not None else pre)
            self.event('caught', '%s: %s' % (raised.exc, raised.msg), s, exc=raised.exc,
                       origin=getattr(raised, 'where', None), depth=getattr(raised, 'depth', 0),
                       rnode=raised.node, rfn=getattr(raised, 'fn', None), nested=getattr(raised, 'nested', False),
                       lookup=getattr(raised, 'lookup', None))
        env.vars = normal
        if s.orelse and env.vars is not None:
            self.block(s.orelse, env)
        outs = env.vars
        for h, hv in t.hits.values():
            env.vars = dict(hv)
            if h.name:
                env.vars[h.name] = ExcVal('Exception', '')
            saved = env.raises
            self.guard(env, lambda: self.block(h.body, env))
            outs = join_vars(outs, env.vars)
        env.vars = outs
        if outs is None and not env.has_ret and env.raises and not any(True for _ in ()):
            pass
        if s.finalbody:
            if env.vars is None:
                env.vars = dict(pre)
                self.block(s.finalbody, env)
                env.vars = None
            else:
                self.block(s.finalbody, env)

    def s_FunctionDef(self, s, env):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        q = (env.func.qual + '.' if env.func is not None else env.mod.name.replace(self.package + '.', '') + '.') + s.name
        if env.is_class:
            q = env.mod.name.replace(self.package + '.', '') + '.' + env.vars.get('__qualname__', '?') + '.' + s.name
        f = Func(s, env.mod, env if env.func is not None else None, s.name, defaults, kwd, q)
        f.line = s.lineno
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if isinstance(dv, Ext) and ('lru_cache' in dv.path or dv.path.endswith('functools.cache')):
                f.decorators = f.decorators + ('lru_cache',)
            elif isinstance(dv, (Func, PyFn)):
                if isinstance(dv, PyFn) and dv.name in ('staticmethod', 'classmethod', 'property', 'wraps'):
                    f.decorators = f.decorators + (dv.name,)
                else:
                    r = self.call(dv, [f], {}, s)
                    if isinstance(r, Func):
                        f = r
            else:
                f.decorators = f.decorators + (repr(dv),)
        self.bind(s.name, f, env, s)

    def s_ClassDef(self, s, env):
        ce = Env(env.mod, env, None)
        ce.is_class = True
        ce.vars['__qualname__'] = s.name
        self.block(s.body, ce)
        bases = [self.ev(b, env) for b in s.bases]
        self.bind(s.name, Cls(s.name, ce.vars, env.mod, bases), env, s)

    def s_Import(self, s, env):
        for al in s.names:
            if al.name.split('.')[0] == self.package:
                m = self.load(al.name)
                if al.asname:
                    env.vars[al.asname] = m
                else:
                    env.vars[al.name.split('.')[0]] = self.load(al.name.split('.')[0])
            else:
                v = self.models.import_ext(self, al.name, s)
                env.vars[al.asname or al.name.split('.')[0]] = v if al.asname or '.' not in al.name else \
                    self.models.import_ext(self, al.name.split('.')[0], s)

    def s_ImportFrom(self, s, env):
        if s.level:
            base = env.mod.name.split('.')
            if not env.mod.is_pkg:
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == '__future__':
            return
        if name.split('.')[0] == self.package:
            m = self.load(name)
            for al in s.names:
                if al.name == '*':
                    for k, v in m.vars.items():
                        if not k.startswith('_'):
                            env.vars[k] = v
                    continue
                if al.name in m.vars:
                    v = m.vars[al.name]
                else:
                    try:
                        v = self.load(name + '.' + al.name)
                    except AbsRaise as e:
                        if e.exc == 'ModuleNotFoundError':
                            raise AbsRaise('ImportError', 'cannot import name %r from %r' % (al.name, name), s)
                        raise
                self.bind(al.asname or al.name, v, env, s)
        else:
            for al in s.names:
                self.bind(al.asname or al.name, self.models.import_ext(self, name + '.' + al.name, s), env, s)

    def s_Match(self, s, env):
        subj = self.ev(s.subject, env)
        self._match_cases(s.cases, 0, subj, env, s)

    def _match_cases(self, cases, i, subj, env, node):
        if i == len(cases):
            return
        case = cases[i]
        ok = self._pat(case.pattern, subj, env)
        body = case.body
        if case.guard is not None:
            ok = None if ok is not False else False
        if ok is True:
            self.block(body, env)
        elif ok is False:
            self._match_cases(cases, i + 1, subj, env, node)
        else:
            va, vb = dict(env.vars), dict(env.vars)
            self.fork(env, va, lambda: self.block(body, env), vb, lambda: self._match_cases(cases, i + 1, subj, env, node))

    def _pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare1(ast.Eq(), v, self.ev(p.value, env), p))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare1(ast.Is(), v, p.value, p))
        if isinstance(p, ast.MatchOr):
            rs = [self._pat(x, v, env) for x in p.patterns]
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self._pat(p.pattern, v, env)
            if p.name and r is not False:
                env.vars[p.name] = v
            return r
        raise Unsupported('match pattern')

    # ------------------------------------------------------------------ conditions
    def cond(self, test, env):
        """(vars if true, vars if false); None = that side is impossible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, env)
            return f, t
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            acc = None
            v = env.vars
            for x in test.values:
                env.vars = v
                t, f = self.cond(x, env)
                if is_and:
                    acc = join_vars(acc, f)
                    v = t
                else:
                    acc = join_vars(acc, t)
                    v = f
                if v is None:
                    break
            if is_and:
                return v, acc
            return acc, v
        val = self.ev(test, env)
        tr = self.truth(val)
        v = env.vars
        if tr is True:
            return v, None
        if tr is False:
            return None, v
        self.undec.add(id(test))
        tv, fv = dict(v), dict(v)
        tv = self.refine(test, tv, True, env)
        fv = self.refine(test, fv, False, env)
        return tv, fv

    def refine(self, test, vs, side, env):
        if isinstance(test, ast.Name):
            v = vs.get(test.id)
            if isinstance(v, OneOf):
                keep = [x for x in v.vals if self.truth(x) is not (not side)]
                if not keep:
                    return None
                vs[test.id] = mk_oneof(keep)
            elif isinstance(v, AStr) and side:
                vs[test.id] = AStr(v.cs, v.must, True)
            elif isinstance(v, AStr) and not side:
                vs[test.id] = ''
            return vs
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            l, r = test.left, test.comparators[0]
            if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
                side = not side
                op = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(op)]()
            if isinstance(op, ast.Eq) and not isinstance(l, ast.Name) and isinstance(r, ast.Name):
                l, r = r, l
            if isinstance(op, (ast.Eq, ast.Is)) and isinstance(l, ast.Name) and l.id in vs:
                save = env.vars
                env.vars = vs
                try:
                    c = self.ev(r, env)
                finally:
                    env.vars = save
                v = vs[l.id]
                if isinstance(c, CONST):
                    if side:
                        if isinstance(v, (AStr,)) and isinstance(c, str):
                            if not v.cs.has_all(c):
                                return None
                            vs[l.id] = c
                        elif isinstance(v, OneOf):
                            vs[l.id] = c
                        elif isinstance(v, Top):
                            vs[l.id] = c
                    elif isinstance(v, OneOf):
                        keep = [x for x in v.vals if not (isinstance(x, CONST) and x == c and isinstance(x, str) == isinstance(c, str))]
                        if not keep:
                            return None
                        vs[l.id] = mk_oneof(keep)
                    elif isinstance(v, AStr) and c == '' and not side:
                        vs[l.id] = AStr(v.cs, v.must, True)
                return vs
            if isinstance(op, ast.In):
                save = env.vars
                env.vars = vs
                try:
                    lv = self.ev(l, env)
                    cv = self.ev(r, env)
                finally:
                    env.vars = save
                if isinstance(r, ast.Name) and isinstance(lv, str) and isinstance(cv, AStr):
                    if not side and len(lv) == 1:
                        vs[r.id] = AStr(cv.cs.del_mask(C.bit(lv)), cv.must, cv.ne)
                    elif side:
                        vs[r.id] = AStr(cv.cs, cv.must, True)
                    return vs
                if isinstance(l, ast.Name) and isinstance(cv, (L, tuple, D, SetV)) :
                    els = list(cv.items) if isinstance(cv, SetV) else list(cv)
                    if all(isinstance(x, CONST) for x in els):
                        v = vs.get(l.id)
                        if isinstance(v, OneOf):
                            keep = []
                            for x in v.vals:
                                if isinstance(x, CONST):
                                    if (x in els) == side:
                                        keep.append(x)
                                elif side and isinstance(x, AStr):
                                    keep.extend(e for e in els if isinstance(e, str) and x.cs.has_all(e))
                                else:
                                    keep.append(x)
                            if not keep:
                                return None
                            vs[l.id] = mk_oneof(keep)
                        elif isinstance(v, AStr) and side:
                            ks = [e for e in els if isinstance(e, str) and v.cs.has_all(e)]
                            if not ks:
                                return None
                            vs[l.id] = mk_oneof(ks)
                return vs
        return vs

    def truth(self, v):
        if isinstance(v, CONST):
            return bool(v)
        if isinstance(v, (L,)):
            if any(isinstance(x, Vague) for x in v):
                return True if sum(x.n if isinstance(x, Vague) else 1 for x in v) > 0 else None
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, D):
            if any(isinstance(x, (MaybeUnbound, Unbound)) for x in v.values()) or '\0any' in v:
                return None
            return len(v) > 0
        if isinstance(v, SetV):
            return bool(v.items)
        if isinstance(v, AStr):
            return True if v.ne else (False if v.cs.empty() else None)
        if isinstance(v, AList):
            return True if v.minlen > 0 else None
        if isinstance(v, ADict):
            return True if v.ne else None
        if v == TPOS:
            return True
        if isinstance(v, OneOf):
            rs = {self.truth(x) for x in v.vals}
            if rs == {True}:
                return True
            if rs == {False}:
                return False
            return None
        if isinstance(v, (Func, Bound, Cls, Inst, Mod, PyFn, RxVal, PathVal, FileVal, BoundFunc, MatchVal, Iter)):
            return True
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return e.value
        m = self._edisp.get(t)
        if m is None:
            m = getattr(self, 'e_' + t.__name__, None)
            if m is None:
                raise Unsupported('expression %s at %s:%s' % (t.__name__, env.mod.name, e.lineno))
            self._edisp[t] = m
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        n = e.id
        x = env
        while x is not None:
            vs = x.vars
            if vs is not None and n in vs and not (x.is_class and x is not env):
                v = vs[n]
                if v is UNBOUND:
                    raise AbsRaise('UnboundLocalError', 'local variable %r referenced before assignment' % n, e)
                if isinstance(v, MaybeUnbound):
                    self.event('maybe-unbound', n, e)
                    self.note_raise('UnboundLocalError', False)
                    v = v.val
                    vs[n] = v
                return v
            if x.locals is not None and n in x.locals and not x.is_comp:
                raise AbsRaise('UnboundLocalError', 'local variable %r referenced before assignment' % n, e)
            x = x.parent
        m = env.mod.vars
        if n in m:
            v = m[n]
            if isinstance(v, MaybeUnbound):
                v = v.val
            return v
        b = self.builtins.get(n)
        if b is not None:
            return b
        if n in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[n]
        if hasattr(builtins, n):
            bv = getattr(builtins, n)
            if isinstance(bv, type) and issubclass(bv, BaseException):
                return Ext('exc.' + n)
            return Ext('builtins.' + n)
        raise AbsRaise('NameError', 'name %r is not defined' % n, e)

    def e_List(self, e, env):
        return L(self._elts(e.elts, env))

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return SetV(self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items, exact, must = self.iterate(self.ev(x.value, env), x)
                if exact:
                    out.extend(items)
                else:
                    out.append(Vague(join_all(items) or TOP, 0))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = D()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                if isinstance(src, D):
                    d.update(src)
                continue
            kv = self.ev(k, env)
            vv = self.ev(v, env)
            if _hashable(kv) and not isinstance(kv, (AStr, Top, OneOf)):
                d[kv] = vv
            elif isinstance(kv, (L, D, SetV)):
                raise AbsRaise('TypeError', 'unhashable dict key', e)
            else:
                d['\0any'] = join(d.get('\0any', vv), vv)
        return d

    def e_JoinedStr(self, e, env):
        acc = ''
        for p in e.values:
            v = self.ev(p, env)
            acc = self.binop(ast.Add(), acc, v, e)
        return acc

    def e_FormattedValue(self, e, env):
        v = self.ev(e.value, env)
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, env)
            if isinstance(v, CONST) and isinstance(spec, str):
                try:
                    return format(v, spec)
                except Exception as x:
                    raise AbsRaise(type(x).__name__, str(x), e)
            return AStr()
        return self.models.to_str(self, v, e)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return TBOOL if t is None else (not t)
        if isinstance(v, (int, float)):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        return TINT

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        res = None
        have = False
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            if not last:
                # evaluate the operand, fork if unknown
                v = self.ev(x, env)
                t = self.truth(v)
                if t is None:
                    self.undec.add(id(x))
                    pre = env.vars
                    tv = self.refine(x, dict(pre), True, env)
                    fv = self.refine(x, dict(pre), False, env)
                    go = tv if is_and else fv
                    stop = fv if is_and else tv
                    part = v
                    if isinstance(v, Top) and v.kind == 'bool':
                        part = (not is_and)
                    elif isinstance(v, AStr) and is_and:
                        part = ''
                    res = part if not have else join(res, part)
                    have = True
                    if go is None:
                        return res
                    env.vars = go
                    try:
                        rest = self.e_BoolOp(ast.copy_location(ast.BoolOp(e.op, e.values[i + 1:]), e), env) \
                            if len(e.values) - i - 1 > 1 else self.ev(e.values[-1], env)
                        nv = env.vars
                    except AbsRaise as ex:
                        # raises on this side only
                        self.event('may-raise', '%s: %s' % (ex.exc, ex.msg), ex.node or e, exc=ex.exc)
                        self.note_raise(ex.exc, False)
                        rest, nv = None, None
                        env.vars = stop if stop is not None else pre
                        return res
                    env.vars = join_vars(nv, stop) if stop is not None else nv
                    if env.vars is None:
                        env.vars = pre
                    return join(res, rest)
                if t is (not is_and):
                    return v if not have else join(res, v)
            else:
                v = self.ev(x, env)
                return v if not have else join(res, v)
        return res

    def e_IfExp(self, e, env):
        tv, fv = self.cond(e.test, env)
        box = []

        def run(x):
            box.append(self.ev(x, env))
        self.fork(env, tv, lambda: run(e.body), fv, lambda: run(e.orelse))
        if not box:
            raise AbsRaise(env.raises[-1].exc if env.raises else 'Exception', 'conditional expression', e)
        r = box[0]
        for b in box[1:]:
            r = join(r, b)
        return r

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        e.target._walrus = True
        self.bind(e.target.id, v, env, e.target)
        return v

    def e_Lambda(self, e, env):
        defaults = [self.ev(d, env) for d in e.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        f = Func(e, env.mod, env, '<lambda>', defaults, kwd,
                 (env.func.qual if env.func else env.mod.name.replace(self.package + '.', '')) + '.<lambda>')
        return f

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        x = env
        while x.is_comp:
            x = x.parent
        x.yields.append(v)
        return TOP

    def e_YieldFrom(self, e, env):
        items, exact, must = self.iterate(self.ev(e.value, env), e)
        if exact:
            env.yields.extend(items)
        else:
            env.yields.append(Vague(join_all(items) or TOP, 0))
        return None

    def e_Slice(self, e, env):
        g = lambda x: self.ev(x, env) if x is not None else None
        a, b, c = g(e.lower), g(e.upper), g(e.step)
        return slice(a, b, c)

    def e_Subscript(self, e, env):
        base = self.ev(e.value, env)
        idx = self.ev(e.slice, env)
        return self.index(base, idx, e)

    def index(self, base, idx, e):
        if isinstance(base, OneOf) or isinstance(idx, OneOf):
            outs = []
            err = None
            for b in alts(base):
                for i in alts(idx):
                    try:
                        outs.append(self.index1(b, i, e))
                    except AbsRaise as x:
                        err = x
            if not outs:
                raise err
            if err is not None:
                self.possible(err.exc, err.msg, e)
            return join_all(outs)
        return self.index1(base, idx, e)

    def index1(self, base, idx, e):
        if isinstance(base, (L, tuple, str)):
            vague = isinstance(base, L) and any(isinstance(x, Vague) for x in base)
            if isinstance(idx, bool):
                idx = int(idx)
            if vague:
                if idx == -1 and type(base[-1]) is not Vague:
                    return base[-1]
                if idx == 0 and type(base[0]) is not Vague:
                    return base[0]
                v = join_all(plain(base))
                if isinstance(idx, slice):
                    return AList(v)
                if not (isinstance(idx, int) and 0 <= idx < minlen(base)):
                    self.possible('IndexError', 'index into a list of unknown length', e)
                return v
            if isinstance(idx, int):
                if not -len(base) <= idx < len(base):
                    raise AbsRaise('IndexError', 'index %d out of range (length %d)' % (idx, len(base)), e)
                return base[idx]
            if isinstance(idx, slice):
                if all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                    r = base[idx]
                    return L(r) if isinstance(base, L) else r
                if isinstance(base, str):
                    return AStr(C.of(base))
                return AList(join_all(base) or TOP)
            if isinstance(idx, Top):
                if isinstance(base, str):
                    return AStr(C.of(base), ne=True)
                self.possible('IndexError', 'unknown index', e)
                return join_all(base) if len(base) else TOP
            raise AbsRaise('TypeError', 'indices must be integers, not %s' % type(idx).__name__, e)
        if isinstance(base, D):
            idx = self.tokkey(idx)
            if isinstance(idx, CONST + (tuple, PathVal)) and _hashable(idx):
                if idx in base:
                    v = base[idx]
                    if isinstance(v, MaybeUnbound):
                        self.possible('KeyError', repr(idx), e)
                        return v.val
                    return v
                if '\0any' in base:
                    self.possible('KeyError', repr(idx), e)
                    v = base['\0any']
                    return v.val if isinstance(v, MaybeUnbound) else v
                if base.default is not None:
                    v = self.call(base.default, [], {}, e)
                    self.mutate(base, e, 'defaultdict insertion')
                    base[idx] = v
                    return v
                raise AbsRaise('KeyError', repr(idx), e)
            if type(idx) is LitStr and all(x in base and not isinstance(base[x], (MaybeUnbound, Unbound)) for x in idx.lits):
                return join_all([base[x] for x in idx.lits])
            self.possible('KeyError', 'unknown key', e)
            if base:
                return join_all([v.val if isinstance(v, MaybeUnbound) else v for v in base.values()])
            return TOP
        if isinstance(base, ADict):
            self.possible('KeyError', 'unknown key', e)
            return base.val
        if isinstance(base, AStr):
            if isinstance(idx, slice):
                full = (idx.start in (None, 0)) and idx.stop is None and (idx.step in (None, -1, 1))
                if not full and base.must and self.track:
                    self.event('token-lost', 'slice', e, lost=frozenset(x for x in base.must if type(x) is str))
                return AStr(base.cs, base.must if full else frozenset())
            if not (base.ne and idx in (0, -1)):
                self.possible('IndexError', 'string index on a text of unknown length', e)
            return AStr(base.cs, ne=True)
        if isinstance(base, AList):
            if isinstance(idx, slice):
                return AList(base.elem, kind=base.kind)
            if not (isinstance(idx, int) and (0 <= idx < base.minlen or -base.minlen <= idx < 0)):
                self.possible('IndexError', 'index into a list of unknown length', e)
            return strip_must(base.elem)
        if isinstance(base, MatchVal):
            return self.models.match_group(self, base, idx)
        if isinstance(base, GlobalsView):
            if isinstance(idx, str):
                if idx in base.mod.vars:
                    v = base.mod.vars[idx]
                    return v.val if isinstance(v, MaybeUnbound) else v
                x = AbsRaise('KeyError', repr(idx), e, where='globals')
                x.lookup = (base.mod.name, idx)
                raise x
            self.possible('KeyError', 'unknown name in globals()', e)
            return TOP
        if isinstance(base, Iter):
            raise AbsRaise('TypeError', '%s object is not subscriptable' % base.what, e)
        if isinstance(base, Inst):
            f = base.cls.find('__getitem__')
            if f is not None:
                return self.call(BoundFunc(f, base), [idx], {}, e)
        if isinstance(base, type(None)):
            raise AbsRaise('TypeError', "'NoneType' object is not subscriptable", e)
        if isinstance(base, (int, float, Func, Mod)):
            raise AbsRaise('TypeError', 'object is not subscriptable', e)
        return TOP

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr, e, env)

    def attr(self, base, name, e, env=None):
        if type(base) is AStr and name in STRATTRS:
            return Bound(base, name)
        if isinstance(base, NodeStr):
            if name in base.node.attrs:
                return base.node.attrs[name]
            if not hasattr(str, name):
                self.event('ext-attr', '%s.%s' % (base.node.cls.name, name), e)
                return TOP
        if isinstance(base, Mod):
            if name in base.vars:
                v = base.vars[name]
                return v.val if isinstance(v, MaybeUnbound) else v
            if name == '__dict__':
                return D(base.vars)
            raise_ = AbsRaise('AttributeError', 'module %s has no attribute %r' % (base.name, name), e)
            raise_.lookup = (base.name, name)
            raise raise_
        if isinstance(base, Inst):
            if name in base.attrs:
                v = base.attrs[name]
                if isinstance(v, MaybeUnbound):
                    self.possible('AttributeError', name, e)
                    return v.val
                return v
            v = base.cls.find(name)
            if isinstance(v, Func):
                if 'staticmethod' in v.decorators:
                    return v
                if 'property' in v.decorators:
                    return self.call(v, [base], {}, e)
                return BoundFunc(v, base)
            if v is not None:
                return v
            if any(isinstance(b, (Ext,)) for b in base.cls.bases):
                self.event('ext-attr', '%s.%s' % (base.cls.name, name), e)
                return TOP
            raise AbsRaise('AttributeError', '%s object has no attribute %r' % (base.cls.name, name), e)
        if isinstance(base, Cls):
            v = base.find(name)
            if v is None:
                raise AbsRaise('AttributeError', 'class %s has no attribute %r' % (base.name, name), e)
            return v
        if isinstance(base, Ext):
            return self.models.ext_attr(self, base, name, e)
        if isinstance(base, (Func,)):
            if name == '__name__':
                return base.name
            if name in base.attrs:
                return base.attrs[name]
            if name in ('cache_clear', 'cache_info', '__wrapped__'):
                return PyFn(name, lambda ip, a, k, n: None)
            if name == '__doc__':
                return ast.get_docstring(base.node)
            if name == '__code__':
                return TOP
            raise AbsRaise('AttributeError', 'function has no attribute %r' % name, e)
        if isinstance(base, (str, AStr)):
            if not hasattr(str, name):
                raise AbsRaise('AttributeError', "'str' object has no attribute %r" % name, e)
            return Bound(base, name)
        if isinstance(base, (L, AList)):
            if not hasattr(list, name) and not (isinstance(base, AList) and base.kind != 'list'):
                raise AbsRaise('AttributeError', "'list' object has no attribute %r" % name, e)
            return Bound(base, name)
        if isinstance(base, tuple):
            if not hasattr(tuple, name):
                raise AbsRaise('AttributeError', "'tuple' object has no attribute %r" % name, e)
            return Bound(base, name)
        if isinstance(base, (D, ADict)):
            if not hasattr(dict, name) and name not in ('most_common', 'elements', 'move_to_end', 'subtract'):
                raise AbsRaise('AttributeError', "'dict' object has no attribute %r" % name, e)
            return Bound(base, name)
        if isinstance(base, SetV):
            if not hasattr(set, name):
                raise AbsRaise('AttributeError', "'set' object has no attribute %r" % name, e)
            return Bound(base, name)
        if base is None:
            raise AbsRaise('AttributeError', "'NoneType' object has no attribute %r" % name, e)
        if isinstance(base, (bool, int, float)):
            if not hasattr(type(base), name):
                raise AbsRaise('AttributeError', "%r object has no attribute %r" % (type(base).__name__, name), e)
            return Bound(base, name)
        if isinstance(base, OneOf):
            outs = []
            err = None
            for b in base.vals:
                try:
                    outs.append(self.attr(b, name, e, env))
                except AbsRaise as x:
                    err = x
            if not outs:
                raise err
            if err is not None:
                self.possible(err.exc, err.msg, e)
            if all(isinstance(o, Bound) for o in outs):
                return Bound(base if err is None else mk_oneof([o.recv for o in outs]), name)
            return mk_oneof(outs)
        if isinstance(base, RxVal):
            if name == 'pattern':
                return base.pat
            if name == 'groups':
                r = R.get(base.pat, base.flags, base.flavour) if isinstance(base.pat, str) else None
                return r.groups if isinstance(r, R.Rx) else TINT
            return Bound(base, name)
        if isinstance(base, PathVal):
            if name == 'parent':
                return PathVal(os.path.dirname(base.path) if isinstance(base.path, str) else base.path)
            if name in ('name', 'stem', 'suffix') and isinstance(base.path, str):
                b = os.path.basename(base.path)
                return {'name': b, 'stem': os.path.splitext(b)[0], 'suffix': os.path.splitext(b)[1]}[name]
            return Bound(base, name)
        if isinstance(base, (MatchVal, FileVal, PyFn, RxVal, GlobalsView, Iter)):
            return Bound(base, name)
        if isinstance(base, Bound) or isinstance(base, BoundFunc):
            return TOP
        if isinstance(base, Vague):
            return self.attr(base.elem, name, e, env)
        if isinstance(base, Top):
            return Bound(base, name)
        return TOP

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.compare1(op, left, right, e)
            t = self.truth(v)
            if t is False:
                return False
            if t is None:
                res = TBOOL
            left = right
        return res

    def compare1(self, op, a, b, e):
        if type(a) is str and type(b) is str:
            top = type(op)
            if top is ast.Eq:
                return a == b
            if top is ast.NotEq:
                return a != b
            if top is ast.In:
                return a in b
            if top is ast.NotIn:
                return a not in b
        if isinstance(a, OneOf) or isinstance(b, OneOf):
            rs = set()
            for x in alts(a):
                for y in alts(b):
                    t = self.truth(self.compare1(op, x, y, e))
                    rs.add(t)
                    if len(rs) > 1 or None in rs:
                        return TBOOL
            return rs.pop()
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, Top) or isinstance(b, Top):
                    return TBOOL
                if isinstance(a, Ext) or isinstance(b, Ext):
                    return TBOOL
                r = a is b or (isinstance(a, MatchVal) and False)
                if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
                    return TBOOL
                return r if isinstance(op, ast.Is) else not r
            if a is b:
                return isinstance(op, ast.Is)
            if isinstance(a, CONST) and isinstance(b, CONST) and a == b:
                return isinstance(op, ast.Is)
            if isinstance(a, Ext) and isinstance(b, Ext) and a.path.startswith('bs4.element.') and b.path.startswith('bs4.element.'):
                return (a == b) == isinstance(op, ast.Is)
            return TBOOL
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self._eq(a, b)
            if r is None:
                return TBOOL
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self._in(a, b, e)
            if r is None:
                return TBOOL
            return r if isinstance(op, ast.In) else not r
        # ordering
        if fully_concrete(a) and fully_concrete(b):
            try:
                a, b = unwrap(a), unwrap(b)
                return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](a, b)
            except TypeError as x:
                raise AbsRaise('TypeError', str(x), e)
        if isinstance(b, (int, float)) and self.models.bounds(a):
            lo, hi = self.models.bounds(a)
            if type(op) is ast.Gt and lo > b or type(op) is ast.GtE and lo >= b or type(op) is ast.Lt and hi < b or \
                    type(op) is ast.LtE and hi <= b:
                return True
            if type(op) is ast.Gt and hi <= b or type(op) is ast.GtE and hi < b or type(op) is ast.Lt and lo >= b or \
                    type(op) is ast.LtE and lo > b:
                return False
        if a == TPOS and isinstance(b, (int, float)):
            if type(op) is ast.Gt and b < 1 or type(op) is ast.GtE and b <= 1:
                return True
            if type(op) is ast.Lt and b <= 1 or type(op) is ast.LtE and b < 1:
                return False
        return TBOOL

    def _eq(self, a, b):
        if isinstance(a, CONST) and isinstance(b, CONST):
            return a == b
        if isinstance(a, AStr) or isinstance(b, AStr):
            if isinstance(b, AStr):
                a, b = b, a
            if isinstance(b, str):
                if not a.cs.has_all(b):
                    return False
                if a.ne and b == '':
                    return False
                return None
            if isinstance(b, AStr):
                if self.token_keys:
                    x, y = self.tokkey(a), self.tokkey(b)
                    if type(x) is str and type(y) is str:
                        return x == y
                return None
            if isinstance(b, (Top,)):
                return None
            return False
        if isinstance(a, (Top, Ext)) or isinstance(b, (Top, Ext)):
            if a == TPOS and isinstance(b, (int, float)) and b < 1 or b == TPOS and isinstance(a, (int, float)) and a < 1:
                return False
            if {type(a), type(b)} == {Ext, str} and 'lxml.etree.Comment' in (getattr(a, 'path', ''), getattr(b, 'path', '')):
                return False
            if isinstance(a, Ext) and isinstance(b, Ext):
                if a == b:
                    return True
                if a.path.startswith('bs4.element.') and b.path.startswith('bs4.element.'):
                    return False
            return None
        if isinstance(a, L) and isinstance(b, L):
            if any(isinstance(x, Vague) for x in a) or any(isinstance(x, Vague) for x in b):
                n = lambda l: sum(x.n if isinstance(x, Vague) else 1 for x in l)
                if not a and n(b) > 0 or not b and n(a) > 0:
                    return False
                return None
            if len(a) != len(b):
                return False
            rs = [self._eq(x, y) for x, y in zip(a, b)]
            if False in rs:
                return False
            return None if None in rs else True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self._eq(x, y) for x, y in zip(a, b)]
            if False in rs:
                return False
            return None if None in rs else True
        if isinstance(a, AList) or isinstance(b, AList):
            x, y = (a, b) if isinstance(a, AList) else (b, a)
            if isinstance(y, L) and len(y) == 0 and x.minlen > 0:
                return False
            return None
        if isinstance(a, D) and isinstance(b, D):
            return True if same(a, b) else (None if not (fully_concrete(a) and fully_concrete(b)) else False)
        if isinstance(a, PathVal) and isinstance(b, PathVal):
            return a == b if isinstance(a.path, str) and isinstance(b.path, str) else None
        if isinstance(a, (Func, Mod, Cls, PyFn)) or isinstance(b, (Func, Mod, Cls, PyFn)):
            return a is b
        if type(a) is not type(b):
            return False if isinstance(a, CONST + (L, tuple, D)) and isinstance(b, CONST + (L, tuple, D)) else None
        return None

    def tokkey(self, k):
        """Where texts are told apart by their tokens, a key that stands for the text."""
        if self.token_keys:
            if isinstance(k, AStr):
                t = sorted(x for x in k.must if type(x) is str and len(x) == 1 and ord(x) >= 0xF0000)
                if t:
                    return '\0tok' + ''.join(t)
            elif type(k) is tuple:
                return tuple(map(self.tokkey, k))
            elif isinstance(k, L) and False:
                return k
        return k

    def _in(self, a, b, e):
        if self.token_keys and isinstance(b, D):
            a = self.tokkey(a)
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            if isinstance(a, AStr):
                if b == '' and a.ne:
                    return False
                return None
            if isinstance(a, Top):
                return None
            raise AbsRaise('TypeError', "'in <string>' requires string as left operand, not %s" % type(a).__name__, e)
        if isinstance(b, AStr):
            if isinstance(a, str):
                if a == '' or a in b.must:
                    return True
                return None if b.cs.has_all(a) else False
            if isinstance(a, (AStr, Top)):
                return None
            raise AbsRaise('TypeError', "'in <string>' requires string as left operand, not %s" % type(a).__name__, e)
        if isinstance(b, (L, tuple, SetV)):
            els = b.items if isinstance(b, SetV) else b
            if isinstance(a, str):
                res = False
                for x in els:
                    if type(x) is str:
                        if x == a:
                            return True
                    else:
                        r = self._eq(a, x.elem if isinstance(x, Vague) else x)
                        if r is True and not isinstance(x, Vague):
                            return True
                        if r is not False:
                            res = None
                return res
            res = False
            for x in els:
                r = self._eq(a, x.elem if isinstance(x, Vague) else x)
                if r is True and not isinstance(x, Vague):
                    return True
                if r is not False:
                    res = None
            return res
        if isinstance(b, D):
            if isinstance(a, CONST + (tuple,)) and _hashable(a):
                if a in b:
                    return None if isinstance(b[a], (MaybeUnbound, Unbound)) else True
                return None if '\0any' in b else False
            if isinstance(a, AStr):
                return None if any(isinstance(k, str) and (k == '\0any' or a.cs.has_all(k)) for k in b) else False
            return None
        if isinstance(b, AList):
            if isinstance(a, CONST):
                rs = [self._eq(a, x) for x in alts(b.elem)]
                if all(r is False for r in rs):
                    return False
            return None
        if isinstance(b, GlobalsView):
            return (a in b.mod.vars) if isinstance(a, str) else None
        if isinstance(b, Iter):
            if b.used:
                self.event('iter-reuse', 'a %s iterator is searched after it was consumed' % b.what, e)
            r = self._in(a, b.src, e)
            b.used = True
            return r
        if b is None or isinstance(b, (bool, int, float)):
            raise AbsRaise('TypeError', 'argument of type %r is not iterable' % type(b).__name__, e)
        return None

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, e):
        ta, tb = type(a), type(b)
        if ta is str and tb is str and type(op) is ast.Add:
            return a + b
        if isinstance(a, OneOf) or isinstance(b, OneOf):
            A, B = alts(a), alts(b)
            if len(A) * len(B) > 256 and type(op) is ast.Add:
                a = join_strs(a)
                b = join_strs(b)
                if not isinstance(a, OneOf) and not isinstance(b, OneOf):
                    return self.binop(op, a, b, e)
                return TOP
            outs, err = [], None
            for x in A:
                for y in B:
                    try:
                        outs.append(self.binop(op, x, y, e))
                    except AbsRaise as ex:
                        err = ex
            if not outs:
                raise err
            if err is not None:
                self.possible(err.exc, err.msg, e)
            return join_all(outs)
        if type(op) is ast.Add:
            if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
                x, y = to_astr(a), to_astr(b)
                return AStr(x.cs.union(y.cs), x.must | y.must, x.ne or y.ne)
            if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
                o = b if isinstance(a, (str, AStr)) else a
                if isinstance(o, (Top, Ext)):
                    s = to_astr(a if o is b else b)
                    return AStr(C.ALL, s.must, s.ne)
                raise AbsRaise('TypeError', 'can only concatenate str (not %r) to str' % self.tname(o), e)
            if isinstance(a, L) and isinstance(b, L):
                return L(list(a) + list(b))
            if isinstance(a, (L, AList)) and isinstance(b, (L, AList)):
                els = [x.elem if isinstance(x, Vague) else x for x in list(_elems(a)) + list(_elems(b))]
                r = join_all(els)
                return AList(r if r is not None else TOP, minlen=_minlen(a) + _minlen(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (L, AList, D, SetV, tuple, type(None), Func, Mod)) and not isinstance(b, (Top, Ext)):
                raise AbsRaise('TypeError', 'unsupported operand types for +: %s and %s' % (self.tname(a), self.tname(b)), e)
            if isinstance(b, (L, AList, D, SetV, tuple, type(None), Func, Mod)) and not isinstance(a, (Top, Ext)):
                raise AbsRaise('TypeError', 'unsupported operand types for +: %s and %s' % (self.tname(a), self.tname(b)), e)
        if type(op) is ast.Mult:
            if isinstance(a, str) and isinstance(b, int) or isinstance(a, int) and isinstance(b, str):
                return a * b
            for s, n in ((a, b), (b, a)):
                if isinstance(s, L) and isinstance(n, int):
                    return L(list(s) * n)
                if isinstance(s, (AStr, str)) and isinstance(n, (Top, int)):
                    s = to_astr(s)
                    return AStr(s.cs, s.must if isinstance(n, int) and n > 0 else frozenset())
                if isinstance(s, (L, AList)):
                    return AList(join_all(_elems(s)) or TOP)
        if type(op) is ast.Mod and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, CONST) for x in args):
                try:
                    return a % (b if not isinstance(b, tuple) else tuple(b))
                except Exception as x:
                    raise AbsRaise(type(x).__name__, str(x), e)
            r = AStr(C.of(a.replace('%s', '').replace('%d', '')))
            for x in args:
                s = self.models.to_str(self, x, e)
                s = to_astr(s)
                r = AStr(r.cs.union(s.cs), r.must | s.must)
            return r
        if type(op) is ast.Sub and isinstance(a, SetV) and isinstance(b, SetV):
            return SetV([x for x in a.items if not any(same(x, y) for y in b.items)])
        if type(op) is ast.BitOr and isinstance(a, SetV) and isinstance(b, SetV):
            return SetV(a.items + b.items)
        if type(op) is ast.BitAnd and isinstance(a, SetV) and isinstance(b, SetV):
            return SetV([x for x in a.items if any(same(x, y) for y in b.items)])
        if type(op) is ast.BitOr and isinstance(a, D) and isinstance(b, D):
            d = D(a)
            d.update(b)
            return d
        if type(op) is ast.Div and isinstance(a, PathVal):
            bp = b.path if isinstance(b, PathVal) else b
            if isinstance(a.path, str) and isinstance(bp, str):
                return PathVal(os.path.join(a.path, bp))
            return PathVal(None)
        if isinstance(a, (int, float, bytes)) and isinstance(b, (int, float, bytes)):
            try:
                f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
                     ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
                     ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
                     ast.RShift: operator.rshift}[type(op)]
                return f(a, b)
            except Exception as x:
                raise AbsRaise(type(x).__name__, str(x), e)
        if type(op) in (ast.Div, ast.FloorDiv, ast.Mod) and isinstance(b, Top) and b != TPOS and not isinstance(a, (str, AStr)) and \
                isinstance(e, ast.BinOp) and isinstance(e.right, ast.Call) and isinstance(e.right.func, ast.Name) and \
                e.right.func.id == 'len':
            self.possible('ZeroDivisionError', 'division by the length of a possibly empty value', e)
        if isinstance(a, (str, AStr, L, D, type(None))) and isinstance(b, CONST + (L, D)) and type(op) in (ast.Sub, ast.Div):
            raise AbsRaise('TypeError', 'unsupported operand types', e)
        na, nb = self.models.bounds(a), self.models.bounds(b)
        if na and nb and type(op) is ast.Add and na[0] >= 0 and nb[0] >= 0:
            return TPOS if na[0] + nb[0] >= 1 else TNAT
        if isinstance(a, Top) and isinstance(b, Top) and a.kind == b.kind and a.kind not in ('pos', 'nat'):
            return a
        if isinstance(a, (Top, int, float)) and isinstance(b, (Top, int, float)) and \
                'any' not in (getattr(a, 'kind', ''), getattr(b, 'kind', '')):
            return TINT
        return TOP

    def tname(self, v):
        if isinstance(v, AStr):
            return 'str'
        if isinstance(v, (L, AList)):
            return 'list'
        if isinstance(v, D):
            return 'dict'
        return type(v).__name__

    # -- comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda ce: self.ev(e.elt, ce))

    def e_GeneratorExp(self, e, env):
        return Iter(self.comp(e, env, lambda ce: self.ev(e.elt, ce)), 'generator')

    def e_SetComp(self, e, env):
        v = self.comp(e, env, lambda ce: self.ev(e.elt, ce))
        return SetV(v) if isinstance(v, L) else AList(v.elem, kind='set')

    def e_DictComp(self, e, env):
        v = self.comp(e, env, lambda ce: (self.ev(e.key, ce), self.ev(e.value, ce)))
        if isinstance(v, L) and not any(isinstance(x, Vague) for x in v):
            d = D()
            for k, x in v:
                if _hashable(k) and not isinstance(k, (AStr, Top, OneOf)):
                    d[k] = x
                else:
                    d['\0any'] = join(d.get('\0any', x), x)
            return d
        return ADict()

    def comp(self, e, env, elt):
        ce = Env(env.mod, env, env.func)
        ce.is_comp = True
        out = L()
        state = {'exact': True, 'must': None, 'filtered': False}
        self._comp(e.generators, 0, ce, elt, out, state)
        if not state['exact']:
            els = [x.elem if isinstance(x, Vague) else x for x in out]
            r = join_all(els)
            if r is None:
                return L()
            must = frozenset()
            lid = state.get('lid')
            if lid is not None:
                if isinstance(r, AStr) and ('el', lid) in r.must and not state['filtered'] and len(e.generators) == 1:
                    must = state['must']
                r = strip_tokens(r, lid)
            return AList(r, must, minlen=1 if self.enum and state.get('ne') else 0)
        return out

    def _comp(self, gens, i, ce, elt, out, state):
        if i == len(gens):
            out.append(elt(ce))
            return
        g = gens[i]
        it = self.ev(g.iter, ce.parent if i == 0 else ce)
        items, exact, must = self.iterate(it, g.iter)
        state['ne'] = certain(it) and len(gens) == 1 and not g.ifs
        if exact:
            for x in items:
                self.assign(g.target, x, ce)
                self._comp_if(g, 0, gens, i, ce, elt, out, state)
        else:
            state['exact'] = False
            x = join_all(items)
            if x is None:
                return
            if self.enum and len(items) > 1 and all(type(y) is str for y in items):
                state['filtered'] = True
                some, ok = some_of(must), set()
                for y in items:
                    n, state['split'] = len(out), False
                    self.assign(g.target, y, ce)
                    self._comp_if(g, 0, gens, i, ce, elt, out, state)
                    if len(out) > n and not state['split']:
                        ok.add(y)
                if len(gens) == 1 and (some and ok >= set(some) or certain(it) and ok >= set(items)):
                    state['ne'] = True
                return
            lid = next(self.tokens)
            if isinstance(x, AStr):
                x = AStr(x.cs, x.must | {('el', lid)}, x.ne)
            state['lid'] = lid
            state['must'] = must
            state['chars'] = isinstance(it, AStr)
            self.assign(g.target, x, ce)
            self._comp_if(g, 0, gens, i, ce, elt, out, state)

    def _comp_if(self, g, j, gens, i, ce, elt, out, state):
        if j == len(g.ifs):
            self._comp(gens, i + 1, ce, elt, out, state)
            return
        tv, fv = self.cond(g.ifs[j], ce)
        if tv is None:
            ce.vars = fv
            return
        if fv is not None:
            state['exact'] = False
            state['split'] = True
            self._filtered(g, j, ce, tv, fv, state)
        ce.vars = tv
        self._comp_if(g, j + 1, gens, i, ce, elt, out, state)
        if ce.vars is None:
            ce.vars = {}

    def _filtered(self, g, j, ce, tv, fv, state):
        """Which foreign characters of the text that is gone through may the filter drop?"""
        must = state['must']
        if not state.get('chars') or not must or not isinstance(g.target, ast.Name) or state.get('filtered'):
            state['filtered'] = True
            return
        keep = set()
        save, ev = ce.vars, self.events
        self.events = []
        try:
            for x in must:
                if type(x) is str and len(x) == 1:
                    ce.vars = {**tv, g.target.id: x}
                    try:
                        if self.cond(g.ifs[j], ce)[1] is None:
                            keep.add(x)
                    except AbsRaise:
                        pass
        finally:
            self.events, ce.vars = ev, save
        gone = frozenset(x for x in must if type(x) is str and len(x) == 1) - keep
        if gone and self.track:
            self.event('token-lost', 'a filter', g.ifs[j], lost=gone)
        state['must'] = frozenset(keep)

    # -- iteration
    def iterate(self, v, node):
        """-> (items, exact?, must tokens)"""
        t = type(v)
        if t is L:
            if Vague in set(map(type, v)):
                return plain(v), False, frozenset()
            return list(v), True, frozenset()
        if isinstance(v, (L, tuple)):
            if isinstance(v, L) and any(isinstance(x, Vague) for x in v):
                return plain(v), False, frozenset()
            return list(v), True, frozenset()
        if isinstance(v, str):
            return list(v), True, frozenset()
        if isinstance(v, D):
            ks = [k for k in v if k != '\0any']
            if '\0any' in v or any(isinstance(x, MaybeUnbound) for x in v.values()):
                return ks + [AStr()], False, frozenset()
            return ks, True, frozenset()
        if isinstance(v, SetV):
            if len(v.items) > 1 and not all(isinstance(x, (int, float)) for x in v.items):
                self.event('set-iter', 'iteration over a set', node, items=v.items)
            return list(v.items), True, frozenset()
        if isinstance(v, AStr):
            if self.enum and not v.cs.neg:
                # one case per character the text can hold
                cs = list(v.cs.chars())
                if 0 < len(cs) <= 1000:
                    return cs, False, v.must
            return [AStr(v.cs, frozenset(), True)], False, v.must
        if isinstance(v, AList):
            if v.kind == 'set':
                self.event('set-iter', 'iteration over a set', node)
            if self.enum and isinstance(v.elem, OneOf) and all(type(x) is str for x in v.elem.vals):
                return list(v.elem.vals), False, v.must
            return [v.elem], False, v.must
        if isinstance(v, ADict):
            return [v.key], False, frozenset()
        if isinstance(v, range):
            return list(v), True, frozenset()
        if isinstance(v, OneOf):
            its, must = [], None
            for x in v.vals:
                a, ex, m = self.iterate(x, node)
                its.extend(a)
            return its, False, frozenset()
        if v is None or isinstance(v, (bool, int, float, Func, Mod)):
            raise AbsRaise('TypeError', '%r object is not iterable' % type(v).__name__, node)
        if isinstance(v, Inst) and isinstance(v.attrs.get('__iter__'), PyFn):
            return self.iterate(v.attrs['__iter__'].fn(self, [], {}, node), node)
        if isinstance(v, Iter):
            # a one-shot iterator: consumed by this iteration
            items, exact, must = self.iterate(v.src, node)
            self.consume(v, node)
            return items, exact, must
        return [TOP], False, frozenset()

    def consume(self, it, node):
        if isinstance(it.src, L) and len(it.src) == 0:
            return
        if it.used:
            self.event('iter-reuse', 'a %s iterator is read after it was consumed' % it.what, node)
        if it.owner is not None:
            self.event('mutate-shared', 'a one-shot %s iterator is used up' % it.what, node, owner=it.owner, how='consume',
                       obj=it)
        it.used = True

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items, exact, _ = self.iterate(self.ev(a.value, env), a)
                if exact:
                    args.extend(items)
                else:
                    args.append(Vague(join_all(items) or TOP, 0))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, D):
                    kw.update({x: y for x, y in v.items()})
            else:
                kw[k.arg] = v
        if isinstance(f, PyFn) and f.name in ('globals', 'locals', 'vars', 'dir') and not args:
            if f.name == 'globals':
                return GlobalsView(env.mod)
            return D({k: v for k, v in env.vars.items()})
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, BoundFunc):
            return self.call_func(f.func, [f.inst] + list(args), kw, node)
        if isinstance(f, Bound):
            if f.name == 'replace' and len(args) == 2 and args[0] is f.recv and isinstance(f.recv, NodeStr):
                return args[1]
            if f.name == 'replace' and len(args) == 2 and not kw and type(f.recv) is AStr and \
                    type(args[0]) is str and type(args[1]) is str:
                # the commonest step of all
                s, a, b = f.recv, args[0], args[1]
                if self.ops is not None:
                    self.op('replace', s, a, b, node)
                if a and not s.cs.has_all(a):
                    return s
            return self.models.call_method(self, f.recv, f.name, args, kw, node)
        if isinstance(f, PyFn):
            return f.fn(self, args, kw, node)
        if isinstance(f, Cls):
            inst = Inst(f)
            init = f.find('__init__')
            if isinstance(init, Func):
                self.call_func(init, [inst] + list(args), kw, node)
            return inst
        if isinstance(f, Ext):
            return self.models.call_ext(self, f, args, kw, node)
        if isinstance(f, OneOf):
            outs, err = [], None
            box = []
            env = Env(None)
            for x in f.vals:
                try:
                    outs.append(self.call(x, args, kw, node))
                except AbsRaise as ex:
                    err = ex
            if not outs:
                raise err
            if err is not None:
                self.possible(err.exc, err.msg, node)
            return join_all(outs)
        if isinstance(f, Inst):
            c = f.cls.find('__call__')
            if isinstance(c, Func):
                return self.call_func(c, [f] + list(args), kw, node)
            raise AbsRaise('TypeError', '%s object is not callable' % f.cls.name, node)
        if f is None or isinstance(f, CONST + (L, D, AStr, AList, Mod, tuple, SetV)):
            raise AbsRaise('TypeError', '%r object is not callable' % self.tname(f), node)
        self.event('unknown-call', repr(f), node)
        return TOP

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vals = {}
        name = f.name
        if len(args) > len(pos) and not a.vararg:
            raise AbsRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)), node)
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        extra = D()
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    raise AbsRaise('TypeError', '%s() got multiple values for argument %r' % (name, k), node)
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise AbsRaise('TypeError', '%s() got an unexpected keyword argument %r' % (name, k), node)
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p.arg] = f.defaults[j]
                else:
                    raise AbsRaise('TypeError', '%s() missing required argument %r' % (name, p.arg), node)
        for p in a.kwonlyargs:
            if p.arg not in vals:
                if p.arg in f.kwdefaults:
                    vals[p.arg] = f.kwdefaults[p.arg]
                else:
                    raise AbsRaise('TypeError', '%s() missing keyword argument %r' % (name, p.arg), node)
        return vals

    def call_func(self, f, args, kw, node):
        if len(self.stack) > 60:
            raise AbsRaise('RecursionError', 'recursion through %s' % f.qual, node)
        h = self.hooks.get(f.qual)
        if h is not None:
            return h(self, f, args, kw, node)
        key = None
        if self.memo_on and not self.loading and f.env is None:
            key = memo_key(f, args, kw)
            if key is not None:
                hit = self.memo.get(key)
                if hit is not None:
                    v, evs, cov = hit
                    return fresh_copy(v)
            elif f.amemo is not None and self.ops is None and self.calls is None:
                key = amemo_key(f, args, kw)
                if key is not None:
                    hit = self.memo.get(key)
                    st = f.amemo
                    if hit is not None:
                        st[0] += 1
                        return fresh_copy(hit[0])
                    st[1] += 1
                    if st[1] > 400 and st[0] * 5 < st[1]:
                        f.amemo = None
                        key = None
        vals = self.bind_args(f, args, kw, node)
        if self.calls is not None:
            self.calls.append((f.qual, vals, node, tuple(x.qual for x, _ in self.stack)))
        if 'lru_cache' in f.decorators:
            ck = memo_key(f, args, kw)
            if ck is not None and f.cache is not None and ck in f.cache:
                return f.cache[ck]
        self.covered.add(f.qual)
        depth = sum(1 for g, _ in self.stack if g is f)
        if depth:
            for rec in self.recs:
                if rec['f'] is f and rec['vals'].keys() == vals.keys() and all(same(rec['vals'][k], v) for k, v in vals.items()):
                    rec['used'] = True
                    if rec['val'] is NOTHING:
                        raise AbsRaise(BOTTOM, '', node)
                    return rec['val']
        if depth or f in self.recursive:
            if f not in self.recursive:
                self.recursive.add(f)
            return self.call_rec(f, vals, node)
        try:
            return self.run_body(f, vals, args, kw, node, key)
        except AbsRaise as ex:
            if ex.exc == BOTTOM and not self.recs:
                raise AbsRaise('RecursionError', 'unbounded recursion in %s' % f.qual, node)
            raise

    def call_rec(self, f, vals, node):
        rec = {'f': f, 'vals': vals, 'val': NOTHING, 'used': False}
        self.recs.append(rec)
        try:
            for i in range(10):
                rec['used'] = False
                n = len(self.events)
                try:
                    r = self.run_body(f, dict(vals), None, None, node, None)
                except AbsRaise as ex:
                    if ex.exc == BOTTOM:
                        raise AbsRaise('RecursionError', 'unbounded recursion in %s' % f.qual, node)
                    raise
                if not rec['used']:
                    return r
                nv = r if rec['val'] is NOTHING else join(rec['val'], r)
                if i >= 5:
                    nv = widen(nv)
                if rec['val'] is not NOTHING and same(nv, rec['val']):
                    return nv
                rec['val'] = nv
                del self.events[n:]
            return TOP
        finally:
            self.recs.pop()

    def run_body(self, f, vals, args, kw, node, key):
        loc, glo, nonl, gen = _scope_info(f.node)
        ck = memo_key(f, args, kw) if 'lru_cache' in f.decorators and args is not None else None
        env = Env(f.mod, f.env, f, loc)
        env.globals, env.nonlocals = glo, nonl
        env.vars = vals
        if gen:
            env.yields = L()
        nev = len(self.events)
        nops = len(self.ops) if self.ops is not None else 0
        ncalls = len(self.calls) if self.calls is not None else 0
        self.stack.append((f, node))
        mutlog, npend = self.mutlog, len(self.pend)
        if ck is not None:
            self.mutlog = []          # a cached result is not undone with the branch it was computed in
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env)
                return r
            try:
                self.block(f.node.body, env)
            except AbsRaise as ex:
                if not env.has_ret:
                    if not hasattr(ex, 'fn'):
                        ex.fn = f.qual
                    ex.nested = getattr(ex, 'nested', 0) + 1
                    raise
                self.path_event(ex)
                env.vars = None
            self.settle(env.out)
            env.raises = [x for x in env.raises if x.exc != BOTTOM] or (env.raises[:1] if not env.has_ret else [])
            for ex in env.raises:
                self.path_event(ex)
            if env.vars is not None and not gen:
                # falls off the end: returns None
                if env.has_ret:
                    self.event('implicit-none', 'may fall off the end of %s' % f.qual, f.node)
                env.ret = None if not env.has_ret else join(env.ret, None)
                env.has_ret = True
            if gen:
                y = env.yields
                if not env.vague and not env.raises and not any(isinstance(x, Vague) for x in y):
                    return Iter(L(y), 'generator')
                if any(isinstance(x, Vague) for x in y) or True:
                    r = join_all([x.elem if isinstance(x, Vague) else x for x in y])
                    return AList(r if r is not None else TOP)
            if not env.has_ret:
                ex = env.raises[-1] if env.raises else AbsRaise('Exception', 'no normal exit from %s' % f.qual, node)
                if not hasattr(ex, 'fn'):
                    ex.fn = f.qual
                ex.nested = getattr(ex, 'nested', 0) + 1
                raise ex
            r = env.ret
        finally:
            self.stack.pop()
            self.mutlog = mutlog
            del self.pend[npend:]
        if 'lru_cache' in f.decorators:
            self.own(r, 'cached result of %s' % f.qual)
            if ck is not None:
                if f.cache is None:
                    f.cache = {}
                f.cache[ck] = r
        if key is not None and len(self.events) == nev and (self.ops is None or len(self.ops) == nops) \
                and memo_ok(r):
            self.memo[key] = (fresh_copy(r), None, None)
        return r


class Vague:
    """Placeholder inside an L: zero or more elements (at least n) each like `elem`."""
    __slots__ = ('elem', 'n')

    def __init__(self, elem, n):
        self.elem = elem
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Vague) and same(self.elem, o.elem) and self.n == o.n

    __hash__ = None


class MaybeNone:
    pass


class Iter:
    """A one-shot iterator (map, filter, zip, generator) over `src`."""
    __slots__ = ('src', 'what', 'used', 'owner')

    def __init__(self, src, what):
        self.src = src
        self.owner = None
        self.what = what
        self.used = False

    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, Iter) and same(self.src, o.src)


class GlobalsView:
    def __init__(self, mod):
        self.mod = mod


class ExcVal:
    def __init__(self, name, msg):
        self.name = name
        self.msg = msg


def join_strs(v):
    if not isinstance(v, OneOf):
        return v
    if all(isinstance(x, (str, AStr)) for x in v.vals):
        r = to_astr(v.vals[0])
        for x in v.vals[1:]:
            r = join_astr(r, to_astr(x))
        return r
    return v


def strip_must(v):
    if isinstance(v, AStr):
        return AStr(v.cs, frozenset(), v.ne)
    if isinstance(v, tuple):
        return tuple(strip_must(x) for x in v)
    return v


def strip_tokens(v, lid):
    if isinstance(v, AStr):
        if any(isinstance(t, tuple) and t[1] == lid for t in v.must):
            return AStr(v.cs, frozenset(t for t in v.must if not (isinstance(t, tuple) and t[1] == lid)), v.ne)
        return v
    if isinstance(v, tuple):
        return tuple(strip_tokens(x, lid) for x in v)
    if isinstance(v, MaybeUnbound):
        return MaybeUnbound(strip_tokens(v.val, lid))
    if isinstance(v, OneOf):
        return mk_oneof([strip_tokens(x, lid) for x in v.vals])
    if isinstance(v, AList):
        if isinstance(v.elem, AStr):
            v.elem = strip_tokens(v.elem, lid)
        return v
    if isinstance(v, L):
        for i, x in enumerate(v):
            if isinstance(x, (AStr, tuple)):
                v[i] = strip_tokens(x, lid)
            elif isinstance(x, Vague):
                v[i] = Vague(strip_tokens(x.elem, lid), x.n)
    return v


def widen(v):
    if isinstance(v, (str,)):
        return to_astr(v)
    if isinstance(v, bool):
        return TBOOL
    if isinstance(v, (int, float)):
        return TPOS if v >= 1 else TNAT if v >= 0 else TINT
    if isinstance(v, OneOf):
        if all(isinstance(x, (str, AStr)) for x in v.vals):
            return join_strs(v)
        if all(isinstance(x, (int, float)) or isinstance(x, Top) and x.kind in ('int', 'pos', 'nat') for x in v.vals):
            b = [(x, x) if isinstance(x, (int, float)) else {'pos': (1, 1), 'nat': (0, 0)}.get(x.kind, (-1, 0)) for x in v.vals]
            return TPOS if all(x[0] >= 1 for x in b) else TNAT if all(x[0] >= 0 for x in b) else TINT
        return TOP
    if isinstance(v, MaybeUnbound):
        return MaybeUnbound(widen(v.val))
    return v


def join_vars(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = {}
    for k, v in a.items():
        w = b.get(k, UNBOUND)
        out[k] = v if v is w else join(v, w)
    for k, w in b.items():
        if k not in a:
            out[k] = join(UNBOUND, w)
    return out


def vars_same(a, b):
    if a.keys() != b.keys():
        return False
    for k, v in a.items():
        w = b[k]
        if v is not w and not same(v, w):
            return False
    return True


def memo_key(f, args, kw):
    parts = [id(f)]
    for a in args:
        k = _mk(a)
        if k is None:
            return None
        parts.append(k)
    if kw:
        for n in sorted(kw):
            k = _mk(kw[n])
            if k is None:
                return None
            parts.append((n, k))
    return tuple(parts)


def amemo_key(f, args, kw):
    parts = ['A', id(f)]
    for a in list(args) + [kw[k] for k in sorted(kw)]:
        if type(a) is AStr:
            parts.append((a.cs.neg, a.cs.mask, a.must, a.ne))
            continue
        k = _mk(a)
        if k is None:
            return None
        parts.append(k)
    parts.append(tuple(sorted(kw)))
    return tuple(parts)


def _mk(a):
    if isinstance(a, str):
        return ('s', a)
    if a is None or isinstance(a, (bool, int, float)):
        return ('c', type(a).__name__, a)
    if isinstance(a, L) and len(a) < 400 and all(type(x) is str for x in a):
        return ('l', tuple(a))
    if isinstance(a, tuple) and len(a) < 8:
        ks = tuple(_mk(x) for x in a)
        return None if None in ks else ('t', ks)
    return None


def memo_ok(v):
    return isinstance(v, CONST) or type(v) is AStr or isinstance(v, (L, D, tuple)) and fully_concrete(v)


def fresh_copy(v):
    """A container that nobody owns yet is copied on every memo hit, so that a caller which
    (legitimately) changes its own fresh list does not change the remembered one."""
    if isinstance(v, L) and v.owner is None:
        return L([fresh_copy(x) if isinstance(x, (L, D)) else x for x in v])
    if isinstance(v, D) and v.owner is None:
        return D({k: fresh_copy(x) for k, x in v.items()})
    return v


class TryFrame:
    def __init__(self, node, env, ip):
        self.node = node
        self.env = env
        self.ip = ip
        self.hits = {}
        self.fn = ip.stack[-1][0].qual if ip.stack else '?'
        self.names = []
        for h in node.handlers:
            ns = []
            if h.type is None:
                ns = ['BaseException']
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    ns.append(t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', 'Exception'))
            self.names.append((h, ns))

    def handler_for(self, exc):
        if exc == BOTTOM:
            return None
        cls = getattr(builtins, exc, None)
        for h, ns in self.names:
            for n in ns:
                if n == exc:
                    return h
                hc = getattr(builtins, n, None)
                if isinstance(cls, type) and isinstance(hc, type) and issubclass(cls, hc):
                    return h
                if cls is None and n in ('Exception', 'BaseException'):
                    return h
        return None

    def matches(self, exc):
        return self.handler_for(exc) is not None

    def arrive(self, ip):
        pass

    def arrive_exc(self, exc):
        h = self.handler_for(exc)
        vs = dict(self.env.vars) if self.env.vars is not None else None
        if vs is None:
            return
        ent = self.hits.setdefault(id(h), [h, None])
        ent[1] = join_vars(ent[1], vs)


def _note_raise(self, exc, definite):
    for t in reversed(self.tries):
        if t.matches(exc):
            t.arrive_exc(exc)
            return True
    return False


Interp.note_raise = _note_raise
