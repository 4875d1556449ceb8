"""Models of the builtins and library functions the analysed code calls.

Operations on constants are folded; operations on an unknown text transform its character set.
"""
import functools
import inspect as _inspect
import json
import os
import re
import string as _string
import unicodedata

from . import charset as C
from . import rx as R
from . import absint as A
from .absint import (AStr, Top, OneOf, L, D, SetV, AList, ADict, Func, Bound, BoundFunc, Cls, Inst, Ext, PyFn, RxVal,
                     MatchVal, FileVal, PathVal, Mod, AbsRaise, Iter, Vague, GlobalsView, ExcVal, CONST, TOP, TBOOL,
                     TINT, alts, to_astr, join, join_all, mk_oneof, fully_concrete, unwrap, wrap, same, join_strs)

NOMUST = frozenset()

def foreign_in(s, back=''):
    """the foreign characters of which s has more than `back`"""
    return [f for f in R.FOREIGN if f in s and s.count(f) > back.count(f)]


def lose(ip, must, chars, node, what):
    """The tokens left when an operation can take the foreign characters `chars` away. A token is a foreign character, or
    stands for all of them."""
    if not chars or not must:
        return must
    keep = frozenset(m for m in must if type(m) is str and len(m) == 1 and m not in chars)
    if ip.track and what:
        ip.event('token-lost', what, node, lost=frozenset(chars))
    return keep




def S(ip, v, node, what='expected str'):
    """v as a text; a definite TypeError when it cannot be one."""
    if isinstance(v, AStr):
        return v
    if isinstance(v, str):
        return to_astr(v)
    if isinstance(v, OneOf):
        parts, bad = [], None
        for x in v.vals:
            try:
                parts.append(S(ip, x, node, what))
            except AbsRaise as e:
                bad = e
        if not parts:
            raise bad
        if bad is not None:
            ip.possible(bad.exc, bad.msg, node)
        r = parts[0]
        for p in parts[1:]:
            r = A.join_astr(r, p)
        return r
    if isinstance(v, (Top, Ext)):
        return AStr(C.ALL)
    if isinstance(v, Vague):
        return S(ip, v.elem, node, what)
    raise AbsRaise('TypeError', '%s, got %s' % (what, ip.tname(v)), node)


def fold(ip, node, fn, *args, **kw):
    try:
        return wrap(fn(*args, **kw))
    except Exception as e:
        raise AbsRaise(type(e).__name__, str(e), node)


def dist(ip, node, fn, *vals):
    """Apply fn over every combination of alternatives."""
    if not any(isinstance(v, OneOf) for v in vals):
        return fn(*vals)
    combos = [()]
    for v in vals:
        combos = [c + (x,) for c in combos for x in alts(v)]
        if len(combos) > 400:
            return fn(*[join_strs(v) for v in vals]) if not any(isinstance(join_strs(v), OneOf) for v in vals) else TOP
    outs, err = [], None
    for c in combos:
        try:
            outs.append(fn(*c))
        except AbsRaise as e:
            err = e
    if not outs:
        raise err
    if err is not None:
        ip.possible(err.exc, err.msg, node)
    return join_all(outs)


# ----------------------------------------------------------------------------- text operations
def str_replace(ip, s, a, b, node, count=None):
    if isinstance(a, OneOf) or isinstance(b, OneOf) or isinstance(s, OneOf):
        return dist(ip, node, lambda s, a, b: str_replace(ip, s, a, b, node, count), s, a, b)
    for x in (a, b):
        if not isinstance(x, (str, AStr, Top, Ext)):
            raise AbsRaise('TypeError', 'replace() argument must be str, not %s' % ip.tname(x), node)
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str) and (count is None or isinstance(count, int)):
        return s.replace(a, b, -1 if count is None else count)
    if type(s) is not AStr or type(a) is not str or type(b) is not str:
        s = to_astr(s)
        if ip.ops is not None:
            ip.op('replace', s, a, b, node)
    if isinstance(a, str):
        bb = S(ip, b, node)
        if a == '':
            return AStr(s.cs.union(bb.cs), s.must)
        if not s.cs.has_all(a):
            return s
        if len(a) == 1 and a in s.must and type(b) is str and count is None and any(c in R.FOREIGN for c in b):
            # a tracked character gives way to another one
            must = s.must - {a} | frozenset(c for c in b if c in R.FOREIGN)
        else:
            must = lose(ip, s.must, foreign_in(a, b if isinstance(b, str) else ''), node, 'replace')
        cs = s.cs
        if len(a) == 1 and count is None:
            cs = cs.del_mask(C.bit(a))
        ne = s.ne and bb.ne
        if isinstance(b, str):
            return AStr(cs.add_mask(C.mask_of(b)) if b else cs, must, ne)
        return AStr(cs.union(bb.cs), must, ne)
    aa, bb = S(ip, a, node), S(ip, b, node)
    must = lose(ip, s.must, [f for f in R.FOREIGN if aa.cs.has(f)], node, None)
    return AStr(s.cs.union(bb.cs), must, s.ne and bb.ne)


def rx_of(ip, p, flags, node, flavour='re'):
    if isinstance(p, RxVal):
        return p
    if not isinstance(flags, int):
        flags = 0
    if isinstance(p, (str, AStr, Top, Ext)):
        rv = RxVal(p, flags, flavour)
        if isinstance(p, str):
            r = R.get(p, flags, flavour)
            if (p, flags, flavour) not in ip.patterns:
                ip.patterns[p, flags, flavour] = (ip.stack[-1][0].qual if ip.stack else '<module>', getattr(node, 'lineno', None))
            if isinstance(r, R.RxError):
                ip.event('bad-regex', '%r: %s' % (p, r), node, pattern=p)
                raise AbsRaise('error', 'bad regular expression %r: %s' % (p[:80], r), node)
        return rv
    if isinstance(p, (bytes,)):
        return RxVal(TOP, flags, flavour)
    raise AbsRaise('TypeError', 'first argument must be string or compiled pattern, not %s' % ip.tname(p), node)


def real(rv):
    """The real compiled pattern, for folding on constants; None when not available."""
    if rv.flavour != 're' or not isinstance(rv.pat, str):
        return None
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return re.compile(rv.pat, rv.flags)
    except Exception:
        return None


def re_sub(ip, p, r, s, node, count=None, flags=0, flavour='re', n=False):
    if isinstance(p, OneOf) or isinstance(r, OneOf) or isinstance(s, OneOf):
        return dist(ip, node, lambda p, r, s: re_sub(ip, p, r, s, node, count, flags, flavour), p, r, s)
    rv = rx_of(ip, p, flags, node, flavour)
    if not isinstance(s, (str, AStr, Top, Ext)):
        raise AbsRaise('TypeError', 'expected string or bytes-like object, got %r' % ip.tname(s), node)
    tmpl = None
    if isinstance(r, str) and isinstance(rv.pat, str):
        tmpl = R.template(r, rv.pat, rv.flags, rv.flavour)
        if isinstance(tmpl, R.RxError):
            ip.event('bad-regex', 'replacement %r for %r: %s' % (r, rv.pat, tmpl), node, pattern=rv.pat)
            raise AbsRaise('error', 'bad replacement %r for %r: %s' % (r[:60], rv.pat[:60], tmpl), node)
    elif not isinstance(r, (str, AStr, Top, Ext, Func, BoundFunc, PyFn, Bound)):
        raise AbsRaise('TypeError', 'replacement must be str or callable, not %s' % ip.tname(r), node)
    if isinstance(s, str) and isinstance(r, str) and (count is None or isinstance(count, int)):
        c = real(rv)
        if c is not None:
            return fold(ip, node, c.sub, r, s, count or 0)
    if isinstance(s, str) and isinstance(r, (Func, BoundFunc, PyFn, Bound)) and not count and len(s) < 200:
        v = sub_const(ip, rv, r, s, node)
        if v is not None:
            return v
    s = S(ip, s, node)
    if ip.ops is not None:
        ip.op('sub', s, rv.pat, r, node)
    if not isinstance(rv.pat, str):
        rr = S(ip, r, node) if isinstance(r, (str, AStr, Top, Ext)) else _cb(ip, r, s, rv, node)[0]
        return AStr(s.cs.union(rr.cs))
    rx = R.get(rv.pat, rv.flags, rv.flavour)
    if not rx.possible(s.cs):
        return s
    if isinstance(r, (Func, BoundFunc, PyFn, Bound)):
        rr, keeps, raw = _cb(ip, r, s, rv, node)
        if type(raw) is A.TmplStr:
            # the function only fills in a template: as if that were given
            return re_sub(ip, rv, raw.tmpl, s, node, count, flags, flavour, n)
        must = s.must
        if not keeps and must:
            bad = rx.consumed_foreign()
            certain = [f for f in bad if not _cb(ip, r, AStr(C.of(f)), rv, node)[0].cs.has(f)] if ip.track else []
            must = lose(ip, lose(ip, must, certain, node, 'sub'), bad, node, None)
        cs = s.cs
        if count is None:
            cs = cs.minus(rx.kill(cs))
        return AStr(cs.union(rr.cs), must)
    if tmpl is None:
        rr = S(ip, r, node)
        # an unknown replacement text: its own backslashes may not be valid
        return AStr(s.cs.union(rr.cs), lose(ip, s.must, rx.consumed_foreign(), node, 'sub'))
    lits, groups = tmpl
    cs = s.cs
    if count in (None, 0):
        k = rx.kill(cs)
        if not groups:
            cs = cs.minus(k)
    gone, also = rx.consumed_foreign(groups, lits), ()
    if ip.same and lits:
        # what is put in stands for the same (where the pattern applies)
        kin = {f: [c for c in lits if f in ip.same and ip.same.get(c) == ip.same[f]] for f in gone}
        also = [c for f, l in kin.items() if f in s.must for c in l]
        gone = [f for f in gone if not kin[f]]
    must = lose(ip, s.must, gone, node, 'sub')
    if also:
        must = must | frozenset(also)
    # the match may be of zero width at one end; characters named by the pattern itself
    return AStr(cs.add_mask(C.mask_of(lits)) if lits else cs, must)


def sub_const(ip, rv, f, s, node):
    """re.sub with a function, on a constant text"""
    c = real(rv)
    if c is None:
        return None
    out, at = '', 0
    for m in c.finditer(s):
        mv = MatchVal(AStr(C.of(m.group())), rv)
        mv.real = m
        try:
            r = ip.call(f, [mv], {}, node)
        except AbsRaise:
            return None
        if not isinstance(r, str):
            return None
        out += s[at:m.start()] + r
        at = m.end()
    return out + s[at:]


def _cb(ip, f, s, rv, node):
    tok = ('m', next(ip.tokens))
    mcs = consumed(rv, s.cs)
    m = MatchVal(AStr(mcs, frozenset([tok])), rv)
    box = []
    try:
        r = ip.call(f, [m], {}, node)
    except AbsRaise as e:
        ip.possible(e.exc, e.msg, e.node or node)
        r = ''
    raw = r
    r = S(ip, r, node)
    return AStr(r.cs), tok in r.must, raw


def consumed(rv, cs):
    """characters a match of rv inside a text over cs can contain"""
    if not isinstance(rv.pat, str):
        return cs
    rx = R.get(rv.pat, rv.flags, rv.flavour)
    if isinstance(rx, R.RxError):
        return cs
    return rx.consumable(cs)


def group_cs(rv, cs, g):
    if not isinstance(rv.pat, str):
        return cs
    rx = R.get(rv.pat, rv.flags, rv.flavour)
    if isinstance(rx, R.RxError):
        return cs
    if isinstance(g, str):
        g = rx.groupindex.get(g)
    if not isinstance(g, int) or g == 0:
        return rx.consumable(cs)
    return rx.group_consumable(g, cs)


def match_group(ip, m, idx, node=None):
    if getattr(m, 'real', None) is not None and isinstance(idx, (int, str)):
        return fold(ip, node, m.real.group, idx)
    rv = m.rx
    if rv is not None and isinstance(rv.pat, str) and isinstance(idx, (int, str)) and not isinstance(idx, bool):
        rx = R.get(rv.pat, rv.flags, rv.flavour)
        if isinstance(rx, R.Rx):
            if isinstance(idx, int) and not 0 <= idx <= rx.groups or isinstance(idx, str) and idx not in rx.groupindex:
                raise AbsRaise('IndexError', 'no such group', node)
            g = idx if isinstance(idx, int) else rx.groupindex[idx]
            v = AStr(group_cs(rv, m.s.cs, idx), m.s.must if g == 0 else NOMUST)
            lits = rx.literals(g)
            if lits and (len(lits) > 1 or v.must):
                some = frozenset(x for x in lits if v.cs.has_all(x))
                if some:
                    v = A.LitStr(some, v.must)
            if g and rx.group_optional(g):
                return OneOf((None, v))
            return v
    return AStr(m.s.cs, m.s.must if idx == 0 else NOMUST)


def re_search(ip, how, p, s, node, flags=0, flavour='re'):
    if isinstance(p, OneOf) or isinstance(s, OneOf):
        return dist(ip, node, lambda p, s: re_search(ip, how, p, s, node, flags, flavour), p, s)
    rv = rx_of(ip, p, flags, node, flavour)
    if not isinstance(s, (str, AStr, Top, Ext)):
        raise AbsRaise('TypeError', 'expected string or bytes-like object, got %r' % ip.tname(s), node)
    c = real(rv)
    if isinstance(s, str) and c is not None:
        m = getattr(c, how)(s)
        if m is None:
            return None
        v = MatchVal(to_astr(m.group(0)), rv)
        v.real = m
        return v
    s = S(ip, s, node)
    if isinstance(rv.pat, str) and not R.get(rv.pat, rv.flags, rv.flavour).possible(s.cs):
        return None
    m = MatchVal(AStr(consumed(rv, s.cs)), rv)
    if isinstance(rv.pat, str) and how in ('match', 'search') and R.get(rv.pat, rv.flags, rv.flavour).never_fails():
        return m
    return OneOf((None, m))


def re_findall(ip, p, s, node, flags=0, flavour='re', it=False):
    if isinstance(p, OneOf) or isinstance(s, OneOf):
        return dist(ip, node, lambda p, s: re_findall(ip, p, s, node, flags, flavour, it), p, s)
    rv = rx_of(ip, p, flags, node, flavour)
    if not isinstance(s, (str, AStr, Top, Ext)):
        raise AbsRaise('TypeError', 'expected string or bytes-like object, got %r' % ip.tname(s), node)
    c = real(rv)
    if isinstance(s, str) and c is not None:
        if it:
            out = []
            for m in c.finditer(s):
                v = MatchVal(to_astr(m.group(0)), rv)
                v.real = m
                out.append(v)
            return L(out)
        return wrap(c.findall(s))
    s = S(ip, s, node)
    if not isinstance(rv.pat, str):
        return AList(AStr(s.cs))
    rx = R.get(rv.pat, rv.flags, rv.flavour)
    if not rx.possible(s.cs):
        return L()
    if it:
        return AList(MatchVal(AStr(s.cs), rv))
    if rx.groups <= 1:
        return AList(AStr(group_cs(rv, s.cs, rx.groups), NOMUST,
                          (rx.tree.getwidth()[0] if rx.groups == 0 else rx.group_min(1)) > 0))
    return AList(tuple(AStr(group_cs(rv, s.cs, g)) for g in range(1, rx.groups + 1)))


def re_split(ip, p, s, node, flags=0, flavour='re', maxsplit=None):
    if isinstance(p, OneOf) or isinstance(s, OneOf):
        return dist(ip, node, lambda p, s: re_split(ip, p, s, node, flags, flavour, maxsplit), p, s)
    rv = rx_of(ip, p, flags, node, flavour)
    if not isinstance(s, (str, AStr, Top, Ext)):
        raise AbsRaise('TypeError', 'expected string or bytes-like object, got %r' % ip.tname(s), node)
    c = real(rv)
    if isinstance(s, str) and c is not None:
        return wrap(c.split(s, maxsplit if isinstance(maxsplit, int) else 0))
    s = S(ip, s, node)
    if not isinstance(rv.pat, str):
        return AList(AStr(s.cs), minlen=1)
    rx = R.get(rv.pat, rv.flags, rv.flavour)
    must = lose(ip, s.must, rx.consumed_foreign(tuple(range(1, rx.groups + 1))), node, 'split')
    cs = s.cs
    if rx.groups == 0 and maxsplit is None:
        cs = cs.minus(rx.kill(cs))
    return AList(AStr(cs), must, minlen=1)


def subf_template(t, node):
    """the format-style template of regex.subf as a backslash template"""
    out = ''
    try:
        for lit, field, spec, conv in _string.Formatter().parse(t):
            out += lit.replace('\\', '\\\\')
            if field is not None:
                out += '\\g<%s>' % (field.split('[')[0] or '0')
    except ValueError as e:
        raise AbsRaise('ValueError', str(e), node)
    return out


def re_call(ip, name, args, kw, node, flavour='re', self_rx=None):
    """re.<name>(...) or compiled.<name>(...)"""
    args = list(args)
    if self_rx is not None:
        args = [self_rx] + args

    def arg(i, n, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(n, default)
    if name in ('sub', 'subf', 'subn'):
        if len(args) < 3 and not ({'repl', 'string'} & set(kw)):
            raise AbsRaise('TypeError', '%s() missing arguments' % name, node)
        fl = arg(4, 'flags', 0) if self_rx is None else 0
        rp = arg(1, 'repl')
        if name == 'subf' and isinstance(rp, str):
            rp = subf_template(rp, node)
        r = re_sub(ip, arg(0, 'pattern'), rp, arg(2, 'string'), node, arg(3, 'count'), fl, flavour)
        return (r, TINT) if name == 'subn' else r
    if name in ('search', 'match', 'fullmatch'):
        fl = arg(2, 'flags', 0) if self_rx is None else 0
        return re_search(ip, name, arg(0, 'pattern'), arg(1, 'string'), node, fl, flavour)
    if name in ('findall', 'finditer'):
        fl = arg(2, 'flags', 0) if self_rx is None else 0
        return re_findall(ip, arg(0, 'pattern'), arg(1, 'string'), node, fl, flavour, name == 'finditer')
    if name == 'split':
        fl = arg(3, 'flags', 0) if self_rx is None else 0
        return re_split(ip, arg(0, 'pattern'), arg(1, 'string'), node, fl, flavour, arg(2, 'maxsplit'))
    if name == 'compile':
        p = arg(0, 'pattern')
        if isinstance(p, OneOf):
            return mk_oneof([rx_of(ip, x, arg(1, 'flags', 0), node, flavour) for x in p.vals])
        return rx_of(ip, p, arg(1, 'flags', 0), node, flavour)
    if name == 'escape':
        s = arg(0, 'pattern')
        if isinstance(s, str):
            return re.escape(s)
        s = S(ip, s, node)
        return AStr(s.cs.add_str('\\'), s.must, s.ne)
    if name == 'purge':
        return None
    raise AbsRaise('AttributeError', "module 're' has no attribute %r" % name, node)


STR_ONLY = set(dir(str)) - set(dir(list)) - set(dir(dict)) - set(dir(set))
_WS = ' \t\n\r\x0b\x0c'


def str_method(ip, recv, name, args, kw, node):
    if name == 'replace':
        if len(args) < 2:
            raise AbsRaise('TypeError', 'replace expected at least 2 arguments, got %d' % len(args), node)
        return str_replace(ip, recv, args[0], args[1], node, args[2] if len(args) > 2 else kw.get('count'))
    if name == 'join':
        if len(args) != 1:
            raise AbsRaise('TypeError', 'join() takes exactly one argument', node)
        return str_join(ip, recv, args[0], node)
    if isinstance(recv, str) and all(fully_concrete(a) for a in args) and all(fully_concrete(a) for a in kw.values()) \
            and hasattr(str, name):
        return fold(ip, node, getattr(recv, name), *[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()})
    # arity
    lim = {'lower': (0, 0), 'upper': (0, 0), 'title': (0, 0), 'capitalize': (0, 0), 'casefold': (0, 0), 'swapcase': (0, 0),
           'strip': (0, 1), 'lstrip': (0, 1), 'rstrip': (0, 1), 'startswith': (1, 3), 'endswith': (1, 3), 'count': (1, 3),
           'find': (1, 3), 'index': (1, 3), 'rfind': (1, 3), 'split': (0, 2), 'translate': (1, 1), 'zfill': (1, 1)}.get(name)
    if lim and not (lim[0] <= len(args) + len(kw) <= lim[1]):
        raise AbsRaise('TypeError', '%s() takes %d-%d arguments' % (name, lim[0], lim[1]), node)
    if any(isinstance(a, OneOf) for a in args):
        return dist(ip, node, lambda *a: str_method(ip, recv, name, list(a), kw, node), *args)
    s = to_astr(recv)
    if name in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase'):
        cs = C.map_case(s.cs, getattr(str, name))
        if name in ('title', 'capitalize', 'swapcase'):
            cs = cs.union(C.map_case(s.cs, str.lower)).union(C.map_case(s.cs, str.upper)).union(C.map_case(s.cs, str.title))
        if ip.ops is not None:
            ip.op('case', s, name, None, node)
        return AStr(cs, lose(ip, s.must, [f for f in R.FOREIGN if getattr(f, name)() != f], node, name), s.ne)
    if name in ('strip', 'lstrip', 'rstrip'):
        must = s.must
        if not args or args[0] is None:
            must = lose(ip, must, [f for f in R.FOREIGN if f.isspace()], node, name)
        if args and args[0] is not None:
            a = args[0]
            if isinstance(a, str):
                must = lose(ip, must, foreign_in(a), node, name)
            else:
                must = lose(ip, must, [f for f in R.FOREIGN if S(ip, a, node).cs.has(f)], node, None)
        if ip.ops is not None:
            ip.op('strip', s, args[0] if args else None, None, node)
        return AStr(s.cs, must)
    if name in ('removeprefix', 'removesuffix'):
        must = s.must
        if not isinstance(args[0], str):
            must = NOMUST
        else:
            must = lose(ip, must, foreign_in(args[0]), node, name)
        return AStr(s.cs, must)
    if name in ('startswith', 'endswith'):
        a = args[0]
        opts = a if isinstance(a, (tuple,)) else (a,)
        if isinstance(a, L):
            raise AbsRaise('TypeError', '%s first arg must be str or a tuple of str, not list' % name, node)
        if all(isinstance(x, str) and not s.cs.has_all(x) for x in opts):
            return False
        for x in opts:
            if x == '':
                return True
            if not isinstance(x, (str, AStr, Top)):
                raise AbsRaise('TypeError', '%s first arg must be str' % name, node)
        return TBOOL
    if name in ('count', 'find', 'rfind', 'index', 'rindex'):
        a = args[0]
        if not isinstance(a, (str, AStr, Top, Ext)):
            raise AbsRaise('TypeError', 'must be str, not %s' % ip.tname(a), node)
        if isinstance(a, str) and not s.cs.has_all(a):
            if name == 'count':
                return 0
            if name in ('find', 'rfind'):
                return -1
            raise AbsRaise('ValueError', 'substring not found', node)
        if name in ('index', 'rindex'):
            ip.possible('ValueError', 'substring not found', node)
        return TINT
    if name in ('split', 'rsplit'):
        sep = args[0] if args else kw.get('sep')
        mx = args[1] if len(args) > 1 else kw.get('maxsplit')
        must = s.must
        cs = s.cs
        ml = 1
        if sep is None:
            ml = 0
            must = lose(ip, must, [f for f in R.FOREIGN if f.isspace()], node, name)
            if mx is None:
                cs = cs.del_mask(C.mask_of(_WS))
        elif isinstance(sep, str):
            if sep == '':
                raise AbsRaise('ValueError', 'empty separator', node)
            if not s.cs.has_all(sep):
                return L([s])
            if must and foreign_in(sep):
                # given back by a join with the same text
                must = lose(ip, must, foreign_in(sep), node, None) | {('sep', sep, must)}
            if len(sep) == 1 and mx is None:
                cs = cs.del_mask(C.bit(sep))
        elif isinstance(sep, (AStr, Top)):
            must = NOMUST
        else:
            raise AbsRaise('TypeError', 'must be str or None', node)
        return AList(AStr(cs, NOMUST, sep is None), must, minlen=ml)
    if name == 'splitlines':
        return AList(AStr(s.cs if args or kw else s.cs.del_mask(C.mask_of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'))), s.must if args or kw else lose(ip, s.must, [f for f in R.FOREIGN if f.splitlines() != [f]], node, name))
    if name in ('partition', 'rpartition'):
        return (AStr(s.cs), AStr(s.cs), AStr(s.cs))
    if name == 'translate':
        t = args[0]
        if isinstance(t, D) and all(isinstance(k, int) for k in t):
            cs = s.cs
            gen = C.EMPTY
            for k, v in t.items():
                if cs.has(chr(k)):
                    gen = gen.union(C.of(chr(v)) if isinstance(v, int) and not isinstance(v, bool) else
                                    (C.EMPTY if v is None else S(ip, v, node).cs))
            for k in t:
                cs = cs.del_mask(C.bit(chr(k)))
            bad = [chr(k) for k, v in t.items() if chr(k) in R.FOREIGN and v != k and v != chr(k)]
            return AStr(cs.union(gen), lose(ip, s.must, bad, node, name))
        return AStr(C.ALL)
    if name in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'istitle',
                'isidentifier', 'isascii', 'isprintable'):
        if isinstance(recv, str) and not args:
            return getattr(recv, name)()
        return TBOOL
    if name == 'encode':
        return Top('bytes')
    if name == 'format':
        r = C.of(recv.replace('{}', '')) if isinstance(recv, str) else C.ALL
        must = NOMUST
        for a in list(args) + list(kw.values()):
            x = S(ip, to_str(ip, a, node), node)
            r = r.union(x.cs)
        return AStr(r, must)
    if name in ('center', 'ljust', 'rjust', 'zfill', 'expandtabs'):
        fill = ' 0' if name != 'zfill' else '0'
        cs = s.cs.add_str(fill)
        for a in args[1:]:
            cs = cs.union(S(ip, a, node).cs)
        return AStr(cs, s.must)
    if name == 'maketrans':
        if len(args) == 1 and isinstance(args[0], D):
            return D({(ord(k) if isinstance(k, str) and len(k) == 1 else k): v for k, v in args[0].items()})
        return ADict(TINT, TOP)
    if name in ('__len__',):
        return TINT
    if name in ('__contains__',):
        return TBOOL
    return TOP


def str_join(ip, sep, it, node):
    if isinstance(it, OneOf) or isinstance(sep, OneOf):
        return dist(ip, node, lambda a, b: str_join(ip, a, b, node), sep, it)
    if isinstance(it, Iter):
        its = it.src
        ip.consume(it, node)
        return str_join(ip, sep, its, node)
    if isinstance(it, (str, AStr)):
        if isinstance(it, str) and isinstance(sep, str):
            return sep.join(it)
        a, b = to_astr(it), to_astr(sep)
        return AStr(a.cs.union(b.cs), a.must, a.ne)
    if isinstance(it, (L, tuple)):
        if isinstance(sep, str) and all(type(x) is str for x in it):
            return sep.join(it)
        cs = C.EMPTY
        must = frozenset()
        ne = False
        for x in it:
            if isinstance(x, Vague):
                cs = cs.union(S(ip, x.elem, node, 'sequence item: expected str instance').cs)
                continue
            a = S(ip, x, node, 'sequence item: expected str instance')
            cs = cs.union(a.cs)
            must = must | a.must
            ne = ne or a.ne
        b = to_astr(sep)
        if len(it) > 1 or any(isinstance(x, Vague) for x in it):
            cs = cs.union(b.cs)
        if len(it) == 1 and isinstance(it[0], str):
            return it[0]
        return AStr(cs, must, ne)
    if isinstance(it, AList):
        e = S(ip, it.elem, node, 'sequence item: expected str instance')
        b = to_astr(sep)
        must = it.must
        for m in it.must:
            if type(m) is tuple and m and m[0] == 'sep':
                must = must - {m}
                if sep == m[1]:
                    must = must | m[2]
                elif isinstance(sep, str):
                    lose(ip, m[2], [f for f in m[2] if isinstance(f, str) and f in m[1] and f not in sep], node, 'join')
        return AStr(e.cs.union(b.cs), must, e.ne and it.minlen > 0)
    if isinstance(it, (SetV, D, ADict)):
        items, exact, must = ip.iterate(it, node)
        return str_join(ip, sep, L(items), node)
    if isinstance(it, (Top, Ext)):
        return AStr(C.ALL)
    raise AbsRaise('TypeError', 'can only join an iterable, not %s' % ip.tname(it), node)


def to_str(ip, v, node):
    if isinstance(v, (str, AStr)):
        return v
    if isinstance(v, CONST):
        return str(v)
    if isinstance(v, OneOf):
        return join_all([to_str(ip, x, node) for x in v.vals])
    if isinstance(v, PathVal) and isinstance(v.path, str):
        return v.path
    if isinstance(v, Top) and v.kind in ('int', 'pos', 'nat'):
        return AStr(C.of('0123456789-.e'), NOMUST, True)
    if isinstance(v, Top) and v.kind == 'bool':
        return OneOf(('True', 'False'))
    if fully_concrete(v):
        return str(unwrap(v))
    return AStr(C.ALL)


# ----------------------------------------------------------------------------- container methods
def list_method(ip, l, name, args, kw, node):
    if name == 'append':
        ip.mutate(l, node, 'append')
        if isinstance(l, L):
            l.append(args[0])
            if len(l) > 3000:
                raise A.Unsupported('list growth')
        else:
            l.elem = join(l.elem, args[0])
            l.must = NOMUST
        return None
    if name == 'extend':
        ip.mutate(l, node, 'extend')
        ip.extend(l, args[0], node)
        return None
    if name == 'insert':
        ip.mutate(l, node, 'insert')
        if isinstance(l, L) and isinstance(args[0], int) and not any(isinstance(x, Vague) for x in l):
            l.insert(args[0], args[1])
        elif isinstance(l, L):
            e = join_all(A.plain(l) + [args[1]])
            l[:] = [Vague(e, 1)]
        else:
            l.elem = join(l.elem, args[1])
        return None
    if name in ('pop', 'remove', 'clear', 'reverse', 'sort'):
        ip.mutate(l, node, name)
        if isinstance(l, AList):
            l.minlen = 0
            l.must = NOMUST
            if name == 'pop':
                ip.possible('IndexError', 'pop from a list of unknown length', node)
                return l.elem
            if name == 'remove':
                ip.possible('ValueError', 'list.remove(x)', node)
            return None
        vague = any(isinstance(x, Vague) for x in l)
        if name == 'clear':
            l[:] = []
            return None
        if name == 'reverse':
            l[:] = l[::-1]
            return None
        if name == 'sort':
            r = bi_sorted(ip, [l], kw, node)
            if isinstance(r, L):
                l[:] = list(r)
            return None
        if vague or (args and not isinstance(args[0], CONST)):
            e = join_all(A.plain(l))
            l[:] = [Vague(e if e is not None else TOP, 0)]
            ip.possible('IndexError' if name == 'pop' else 'ValueError', name, node)
            return e
        if name == 'pop':
            try:
                return list.pop(l, *args)
            except IndexError as e:
                raise AbsRaise('IndexError', str(e), node)
        for i, x in enumerate(l):
            r = ip._eq(x, args[0])
            if r is True:
                del l[i]
                return None
            if r is None:
                l[:] = [Vague(join_all(A.plain(l)), 0)]
                ip.possible('ValueError', 'list.remove(x)', node)
                return None
        raise AbsRaise('ValueError', 'list.remove(x): x not in list', node)
    if name in ('index', 'count'):
        items, exact, _ = ip.iterate(l, node)
        if exact and all(isinstance(x, CONST) for x in items) and args and isinstance(args[0], CONST):
            return fold(ip, node, getattr(list(items), name), *args)
        if name == 'index':
            a = args[0]
            if isinstance(a, CONST) and all(ip._eq(x, a) is False for x in items):
                raise AbsRaise('ValueError', '%r is not in list' % (a,), node)
            ip.possible('ValueError', 'x not in list', node)
        return TINT
    if name == 'copy':
        return L(l) if isinstance(l, L) else AList(l.elem, l.must, minlen=l.minlen)
    if isinstance(l, AList) and l.kind == 'set':
        if name in ('add', 'update', 'discard'):
            ip.mutate(l, node, name)
            return None
        return AList(l.elem, kind='set')
    return TOP


def dict_method(ip, d, name, args, kw, node):
    if isinstance(d, ADict):
        if name in ('get', 'pop', 'setdefault'):
            if name != 'get':
                ip.mutate(d, node, name)
            dv = args[1] if len(args) > 1 else None
            return join(d.val, dv)
        n = 1 if d.ne else 0
        if name in ('keys',):
            return AList(d.key, minlen=n)
        if name == 'values':
            return AList(d.val, minlen=n)
        if name == 'items' or name == 'most_common':
            return AList((d.key, d.val), minlen=n if name == 'items' or not args or args[0] == 1 else 0)
        if name in ('update', 'clear'):
            ip.mutate(d, node, name)
            return None
        if name == 'copy':
            return ADict(d.key, d.val)
        return TOP
    anyk = '\0any' in d or any(isinstance(x, (A.MaybeUnbound,)) for x in d.values())
    if ip.token_keys and args and name in ('get', 'pop', 'setdefault'):
        args = [ip.tokkey(args[0])] + list(args[1:])
    if name == 'get':
        dv = args[1] if len(args) > 1 else None
        k = args[0]
        if isinstance(k, OneOf):
            return join_all([dict_method(ip, d, name, [x] + list(args[1:]), kw, node) for x in k.vals])
        if isinstance(k, CONST + (tuple,)):
            if k in d:
                v = d[k]
                return join(v.val, dv) if isinstance(v, A.MaybeUnbound) else v
            return join(d['\0any'], dv) if '\0any' in d else dv
        vs = [v.val if isinstance(v, A.MaybeUnbound) else v for v in d.values()]
        if isinstance(k, AStr):
            vs = [v for kk, v in zip(d.keys(), vs) if not isinstance(kk, str) or k.cs.has_all(kk) or kk == '\0any']
        return join_all(vs + [dv])
    if name in ('keys', 'values', 'items'):
        if anyk:
            vs = [v.val if isinstance(v, A.MaybeUnbound) else v for v in d.values()]
            v = join_all(vs)
            ks = join_all([k for k in d if k != '\0any'] + [AStr()])
            return AList({'keys': ks, 'values': v, 'items': (ks, v)}[name])
        if name == 'keys':
            return L(d.keys())
        if name == 'values':
            return L(d.values())
        return L([(k, v) for k, v in d.items()])
    if name == 'update':
        ip.mutate(d, node, 'update')
        for a in args:
            if isinstance(a, D):
                d.update(a)
            else:
                items, exact, _ = ip.iterate(a, node)
                if exact and all(isinstance(x, tuple) and len(x) == 2 for x in items):
                    for k, v in items:
                        d[k] = v
                else:
                    d['\0any'] = TOP
        d.update(kw)
        return None
    if name == 'pop':
        ip.mutate(d, node, 'pop')
        k = args[0]
        if isinstance(k, CONST):
            if k in d:
                return dict.pop(d, k)
            if len(args) > 1:
                return args[1]
            raise AbsRaise('KeyError', repr(k), node)
        return TOP
    if name == 'setdefault':
        k = args[0]
        dv = args[1] if len(args) > 1 else None
        if isinstance(k, CONST + (tuple,)) and k in d and not isinstance(d[k], A.MaybeUnbound):
            return d[k]
        ip.mutate(d, node, 'setdefault')
        if isinstance(k, CONST + (tuple,)):
            d[k] = dv
        return dv
    if name == 'clear':
        ip.mutate(d, node, 'clear')
        d.clear()
        return None
    if name == 'popitem':
        ip.mutate(d, node, 'popitem')
        return (TOP, TOP)
    if name == 'copy':
        return D(d)
    if name == 'most_common':
        return AList((join_all(d.keys()), join_all(d.values())))
    return TOP


def set_method(ip, s, name, args, kw, node):
    if name in ('add', 'remove', 'discard', 'update', 'clear', 'pop', 'difference_update', 'intersection_update'):
        ip.mutate(s, node, name)
        if name == 'add' and not any(same(args[0], y) for y in s.items):
            s.items.append(args[0])
        if name == 'update':
            for a in args:
                for x in ip.iterate(a, node)[0]:
                    if not any(same(x, y) for y in s.items):
                        s.items.append(x)
        if name == 'clear':
            s.items = []
        if name in ('remove', 'discard'):
            s.items = [x for x in s.items if ip._eq(x, args[0]) is not True]
        if name == 'pop':
            ip.event('set-iter', 'pop from a set', node)
            return join_all(s.items) if s.items else TOP
        return None
    if name == 'copy':
        return SetV(s.items)
    if name in ('union',):
        r = list(s.items)
        for a in args:
            r += a.items if isinstance(a, SetV) else ip.iterate(a, node)[0]
        return SetV(r)
    if name in ('intersection', 'difference'):
        o = args[0].items if isinstance(args[0], SetV) else ip.iterate(args[0], node)[0]
        want = name == 'intersection'
        return SetV([x for x in s.items if any(same(x, y) for y in o) == want])
    return TBOOL if name.startswith('is') else TOP


FILE_READ_ROOT = None


def call_method(ip, recv, name, args, kw, node):
    if isinstance(recv, OneOf):
        return dist(ip, node, lambda r: call_method(ip, r, name, args, kw, node), recv)
    if isinstance(recv, (str, AStr)):
        return str_method(ip, recv, name, args, kw, node)
    if isinstance(recv, (L, AList)):
        return list_method(ip, recv, name, args, kw, node)
    if isinstance(recv, (D, ADict)):
        return dict_method(ip, recv, name, args, kw, node)
    if isinstance(recv, SetV):
        return set_method(ip, recv, name, args, kw, node)
    if isinstance(recv, tuple):
        if name in ('index', 'count') and all(isinstance(x, CONST) for x in recv) and isinstance(args[0], CONST):
            return fold(ip, node, getattr(recv, name), *args)
        return TINT
    if isinstance(recv, RxVal):
        return re_call(ip, name, args, kw, node, recv.flavour, recv)
    if isinstance(recv, MatchVal):
        if name == 'group':
            if len(args) > 1:
                return tuple(match_group(ip, recv, a, node) for a in args)
            return match_group(ip, recv, args[0] if args else 0, node)
        if name in ('start', 'end'):
            return TINT
        if name == 'span':
            return (TINT, TINT)
        if name == 'groups':
            rv = recv.rx
            if rv is not None and isinstance(rv.pat, str):
                rx = R.get(rv.pat, rv.flags, rv.flavour)
                return tuple(match_group(ip, recv, g, node) for g in range(1, rx.groups + 1))
            return AList(AStr(recv.s.cs))
        if name == 'groupdict':
            return ADict()
        if name == 'expand' and len(args) == 1 and isinstance(args[0], str):
            if getattr(recv, 'real', None) is not None:
                return fold(ip, node, recv.real.expand, args[0])
            rv = recv.rx
            if rv is not None and isinstance(rv.pat, str):
                tmpl = R.template(args[0], rv.pat, rv.flags, rv.flavour)
                if isinstance(tmpl, R.RxError):
                    raise AbsRaise('error', 'bad replacement %r for %r: %s' % (args[0][:60], rv.pat[:60], tmpl), node)
                cs, must = C.of(tmpl[0]), NOMUST
                for g in tmpl[1]:
                    x = match_group(ip, recv, g, node)
                    for y in alts(x):
                        if isinstance(y, AStr):
                            cs, must = cs.union(y.cs), must | (y.must if not isinstance(x, OneOf) else NOMUST)
                return A.TmplStr(cs, must, False, args[0])
            return AStr(recv.s.cs)
        return TOP
    if isinstance(recv, FileVal):
        return file_method(ip, recv, name, args, kw, node)
    if isinstance(recv, PathVal):
        return path_method(ip, recv, name, args, kw, node)
    if isinstance(recv, GlobalsView):
        if name == 'get':
            try:
                return ip.index(recv, args[0], node)
            except AbsRaise:
                return args[1] if len(args) > 1 else None
        if name == 'keys':
            return L([k for k in recv.mod.vars])
        if name in ('update', 'pop', 'setdefault', 'clear'):
            ip.event('global-write', 'globals().%s of %s' % (name, recv.mod.name), node, owner=recv.mod.name)
            return TOP
        if name == 'items':
            return L([(k, v) for k, v in recv.mod.vars.items()])
        return TOP
    if isinstance(recv, Iter):
        if name == '__next__':
            return join_all(ip.iterate(recv, node)[0])
        return TOP
    if isinstance(recv, (int, float)):
        if all(isinstance(a, CONST) for a in args):
            return fold(ip, node, getattr(recv, name), *args)
        return TINT
    if isinstance(recv, PyFn):
        if recv.name in ('str', 'dict', 'list', 'set'):
            if recv.name == 'str':
                if name == 'maketrans':
                    if all(fully_concrete(a) for a in args):
                        return fold(ip, node, str.maketrans, *[unwrap(a) for a in args])
                    return str_method(ip, AStr(), 'maketrans', args, kw, node)
                return call_method(ip, args[0], name, args[1:], kw, node)
            if recv.name == 'dict' and name == 'fromkeys':
                items, exact, _ = ip.iterate(args[0], node)
                dv = args[1] if len(args) > 1 else None
                if exact and all(isinstance(x, CONST + (tuple,)) for x in items):
                    return D({k: dv for k in items})
                return ADict(join_all(items), dv)
            return call_method(ip, args[0], name, args[1:], kw, node)
        if recv.name == 'chain' and name == 'from_iterable':
            out = L()
            items, exact, _ = ip.iterate(args[0], node)
            for x in items:
                i2, e2, _ = ip.iterate(x, node)
                exact = exact and e2
                out.extend(i2)
            return Iter(out if exact else AList(join_all(out) if out else TOP), 'chain')
        return TOP
    if isinstance(recv, Ext):
        return call_ext(ip, Ext(recv.path + '.' + name), args, kw, node)
    # unknown receiver
    for v in args:
        if isinstance(v, (Func, BoundFunc)):
            ip.event('unknown-callback', name, node)
    if name in STR_ONLY and name not in ('encode',):
        if name in ('split', 'rsplit', 'splitlines'):
            return AList(AStr())
        if name.startswith('is') or name in ('startswith', 'endswith'):
            return TBOOL
        if name in ('find', 'rfind'):
            return TINT
        return AStr()
    return TOP


def repo_path(ip, p):
    return isinstance(p, str) and os.path.realpath(p).startswith(os.path.realpath(ip.repo) + os.sep)


def file_method(ip, f, name, args, kw, node):
    if name in ('read', 'readline'):
        if repo_path(ip, f.path) and name == 'read' and 'b' not in f.mode:
            try:
                with open(f.path, encoding='utf8') as h:
                    return h.read()
            except OSError as e:
                raise AbsRaise(type(e).__name__, str(e), node)
        return AStr() if 'b' not in f.mode else Top('bytes')
    if name == 'readlines':
        return AList(AStr())
    if name in ('write', 'writelines', 'truncate'):
        ip.event('effect', 'write to file %r' % (f.path,), node, effect='fs-write', path=f.path)
        return TINT
    if name in ('__enter__',):
        return f
    return TOP


def path_method(ip, p, name, args, kw, node):
    if 'pathlib' in ip.lib:
        r = ip.lib['pathlib'](ip, p, name, args, kw, node)
        if r is not NotImplemented:
            return r
    if name in ('resolve', 'absolute', 'expanduser'):
        return p
    if name == 'joinpath':
        q = p
        for a in args:
            ap = a.path if isinstance(a, PathVal) else a
            q = PathVal(os.path.join(q.path, ap) if isinstance(q.path, str) and isinstance(ap, str) else None)
        return q
    if name in ('exists', 'is_file', 'is_dir'):
        if repo_path(ip, p.path):
            return {'exists': os.path.exists, 'is_file': os.path.isfile, 'is_dir': os.path.isdir}[name](p.path)
        return TBOOL
    if name == 'open':
        return bi_open(ip, [p] + list(args), kw, node)
    if name in ('read_text',):
        if 'encoding' not in kw and not args:
            ip.event('locale', 'read_text() without an encoding', node)
        return file_method(ip, FileVal(p.path, 'r'), 'read', [], {}, node)
    if name == 'read_bytes':
        return Top('bytes')
    if name in ('write_text', 'write_bytes', 'unlink', 'mkdir', 'rename', 'rmdir', 'touch', 'replace'):
        ip.event('effect', 'Path.%s' % name, node, effect='fs-write', path=p.path)
        return TOP
    if name in ('with_suffix', 'with_name'):
        if isinstance(p.path, str) and isinstance(args[0], str):
            from pathlib import PurePath
            return PathVal(str(getattr(PurePath(p.path), name)(args[0])))
        return PathVal(None)
    if name in ('as_posix', '__str__', '__fspath__'):
        return p.path if isinstance(p.path, str) else AStr()
    if name in ('glob', 'iterdir', 'rglob'):
        return AList(PathVal(None))
    return TOP


# ----------------------------------------------------------------------------- builtins
def bi_len(ip, args, kw, node):
    if len(args) != 1:
        raise AbsRaise('TypeError', 'len() takes exactly one argument', node)

    def one(v):
        if isinstance(v, L) and any(isinstance(x, Vague) for x in v):
            return A.TPOS if A.minlen(v) else TINT
        if A.certain(v):
            if not isinstance(v, L):
                return A.TPOS
        if isinstance(v, (str, L, tuple, bytes)):
            return len(v)
        if isinstance(v, D):
            return len(v) if not (any(isinstance(x, A.MaybeUnbound) for x in v.values()) or '\0any' in v) else TINT
        if isinstance(v, SetV):
            return len(v.items) if all(isinstance(x, CONST) for x in v.items) else TINT
        if v is None or isinstance(v, (bool, int, float, Func, Iter, Mod)):
            raise AbsRaise('TypeError', 'object of type %r has no len()' % ip.tname(v), node)
        return TINT
    return dist(ip, node, one, args[0])


def bi_range(ip, args, kw, node):
    if all(isinstance(a, int) for a in args):
        r = fold(ip, node, range, *args)
        if len(r) > 5000:
            return AList(TINT)
        return L(r)
    return AList(TINT)


def materialise(ip, v, node):
    """(items, exact, must) of an iterable."""
    return ip.iterate(v, node)


def mklist(items, exact, must=NOMUST):
    if exact:
        return L(items)
    e = join_all(items)
    return AList(e if e is not None else TOP, must)


def bi_zip(ip, args, kw, node):
    seqs = [ip.iterate(a, node) for a in args]
    if ip.ops is not None and len(args) == 2:
        ip.op('zip', None, args[0], args[1], node)
    if all(s[1] for s in seqs):
        if len({len(s[0]) for s in seqs}) > 1:
            ip.event('zip-mismatch', 'zip of sequences of lengths %s' % [len(s[0]) for s in seqs], node,
                     lens=[len(s[0]) for s in seqs])
        return Iter(L(zip(*[s[0] for s in seqs])), 'zip')
    els = []
    for s in seqs:
        e = join_all(s[0])
        if e is None:
            return Iter(L(), 'zip')
        els.append(e)
    return Iter(AList(tuple(els)), 'zip')


def bi_map(ip, args, kw, node):
    f = args[0]
    seqs = [ip.iterate(a, node) for a in args[1:]]
    if len(seqs) == 1:
        items, exact, must = seqs[0]
        if exact:
            return Iter(L([ip.call(f, [x], {}, node) for x in items]), 'map')
        e = join_all(items)
        if e is None:
            return Iter(L(), 'map')
        tok = ('el', next(ip.tokens))
        if isinstance(e, AStr):
            e = AStr(e.cs, e.must | {tok}, e.ne)
        try:
            r = ip.call(f, [e], {}, node)
        except AbsRaise as ex:
            ip.possible(ex.exc, ex.msg, node)
            return Iter(L(), 'map')
        keep = isinstance(r, AStr) and tok in r.must
        return Iter(AList(A.strip_must(r), must if keep else NOMUST), 'map')
    if all(s[1] for s in seqs):
        return Iter(L([ip.call(f, list(t), {}, node) for t in zip(*[s[0] for s in seqs])]), 'map')
    return Iter(AList(ip.call(f, [join_all(s[0]) for s in seqs], {}, node)), 'map')


def bi_filter(ip, args, kw, node):
    f = args[0]
    items, exact, must = ip.iterate(args[1], node)
    out = []
    unknown = not exact
    for x in items:
        r = ip.call(f, [x], {}, node) if f is not None else x
        t = ip.truth(r)
        if t is None:
            unknown = True
            out.append(x)
        elif t:
            out.append(x)
    return Iter(mklist(out, not unknown), 'filter')


def bi_enumerate(ip, args, kw, node):
    items, exact, must = ip.iterate(args[0], node)
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if exact and isinstance(start, int):
        return L([(i + start, x) for i, x in enumerate(items)])
    e = join_all(items)
    if e is None:
        return L()
    return AList((TINT, e), must)


def bi_reversed(ip, args, kw, node):
    items, exact, must = ip.iterate(args[0], node)
    return mklist(items[::-1], exact, must)


def _len_only_cmp(f):
    """The comparator looks at its arguments only through len(x[0])."""
    import ast
    n = f.node
    c = getattr(n, '_lenonly', None)
    if c is not None:
        return c
    ps = {a.arg for a in n.args.args}
    ok = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1 \
                and isinstance(x.args[0], ast.Subscript) and isinstance(x.args[0].value, ast.Name) \
                and isinstance(x.args[0].slice, ast.Constant) and x.args[0].slice.value == 0:
            ok.add(id(x.args[0].value))
    c = all(id(x) in ok for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in ps)
    n._lenonly = c
    return c


def bi_sorted(ip, args, kw, node):
    items, exact, must = ip.iterate(args[0], node)
    key = kw.get('key', args[1] if len(args) > 1 else None)
    rev = kw.get('reverse', False)
    if not exact or not isinstance(rev, bool):
        e = join_all(items)
        if e is not None and key is not None and not isinstance(key, CmpKey):
            try:
                ip.call(key, [e], {}, node)
            except AbsRaise as ex:
                ip.possible(ex.exc, ex.msg, node)
        if e is None:
            return L()
        return AList(e, must, minlen=1 if A.certain(args[0]) else 0)
    if isinstance(key, CmpKey):
        f = key.f
        if isinstance(f, Func) and _len_only_cmp(f) and all(isinstance(x, (tuple, L)) and len(x) and isinstance(x[0], str) for x in items):
            cache = {}

            def cmp(a, b):
                k = (len(a[0]), len(b[0]))
                r = cache.get(k)
                if r is None:
                    r = cache[k] = ip.call(f, [a, b], {}, node)
                    if not isinstance(r, int):
                        raise A.Unsupported('comparator result')
                return r
        else:
            def cmp(a, b):
                r = ip.call(f, [a, b], {}, node)
                if not isinstance(r, (int, float)):
                    raise _Unknown()
                return r
        try:
            return L(sorted(items, key=functools.cmp_to_key(cmp), reverse=rev))
        except _Unknown:
            return AList(join_all(items))
    if key is None:
        ks = items
    else:
        ks = [ip.call(key, [x], {}, node) for x in items]
    if all(fully_concrete(k) for k in ks):
        try:
            order = sorted(range(len(items)), key=lambda i: unwrap(ks[i]), reverse=rev)
        except TypeError as e:
            raise AbsRaise('TypeError', str(e), node)
        return L([items[i] for i in order])
    e = join_all(items)
    top = greatest(ks)
    if top is not None and len(items) > 1:
        rest = Vague(join_all(items[:top] + items[top + 1:]), len(items) - 1)
        return L([items[top], rest] if rev else [rest, items[top]])
    return AList(e) if e is not None else L()


def bounds(v):
    if isinstance(v, bool) or not isinstance(v, (int, float, OneOf, Top)):
        return None
    if isinstance(v, (int, float)):
        return v, v
    if isinstance(v, OneOf):
        bs = [bounds(x) for x in v.vals]
        return None if None in bs else (min(b[0] for b in bs), max(b[1] for b in bs))
    return {'pos': (1, float('inf')), 'nat': (0, float('inf'))}.get(v.kind)


def greatest(ks):
    """the position of the key that is certainly greater than every other"""
    bs = [bounds(k) for k in ks]
    if None in bs:
        return None
    for i, b in enumerate(bs):
        if all(b[0] > x[1] for j, x in enumerate(bs) if j != i):
            return i
    return None


class _Unknown(Exception):
    pass


class CmpKey:
    def __init__(self, f):
        self.f = f


def bi_list(ip, args, kw, node):
    if not args:
        return L()
    v = args[0]
    if isinstance(v, AList) and v.kind != 'set':
        return AList(v.elem, v.must, minlen=v.minlen)
    items, exact, must = ip.iterate(v, node)
    return mklist(items, exact, must)


def bi_tuple(ip, args, kw, node):
    if not args:
        return ()
    items, exact, must = ip.iterate(args[0], node)
    return tuple(items) if exact else AList(join_all(items) if items else TOP, must)


def bi_dict(ip, args, kw, node):
    d = D()
    for a in args:
        if isinstance(a, D):
            d.update(a)
        elif isinstance(a, ADict):
            return ADict(a.key, a.val)
        else:
            items, exact, _ = ip.iterate(a, node)
            for x in items:
                if isinstance(x, (tuple, L)) and len(x) == 2 and isinstance(x[0], CONST + (tuple,)):
                    d[x[0]] = x[1]
                else:
                    return ADict()
            if not exact:
                return ADict(join_all([x[0] for x in items]), join_all([x[1] for x in items]))
    d.update(kw)
    return d


def bi_set(ip, args, kw, node):
    if not args:
        return SetV()
    items, exact, _ = ip.iterate(args[0], node)
    if exact:
        return SetV(items)
    return AList(join_all(items) if items else TOP, kind='set')


def bi_str(ip, args, kw, node):
    if args and isinstance(args[0], Inst) and isinstance(args[0].attrs.get('__str__'), PyFn):
        return args[0].attrs['__str__'].fn(ip, [], {}, node)
    return to_str(ip, args[0], node) if args else ''


def bi_int(ip, args, kw, node):
    if not args:
        return 0

    def one(v):
        if isinstance(v, CONST) and v is not None and all(isinstance(a, CONST) for a in args[1:]):
            return fold(ip, node, int, v, *args[1:])
        if v is None or isinstance(v, (L, D, AList)):
            raise AbsRaise('TypeError', 'int() argument must be a string or a number', node)
        if isinstance(v, AStr):
            if v.cs.neg or not all(c.isdecimal() for c in v.cs.chars()):
                weak = () if not any(v.cs.has(c) for c in '\u00b2\u00b3\u00b9\u2460') else ('isdigit', 'isnumeric', 'isalnum')
                ip.possible('ValueError', 'int() of a text that need not be a number', node, weak=weak)
        return TINT
    return dist(ip, node, one, args[0])


def bi_float(ip, args, kw, node):
    if args and isinstance(args[0], CONST):
        return fold(ip, node, float, args[0])
    return TINT


def bi_chr(ip, args, kw, node):
    def one(v):
        if isinstance(v, int):
            return fold(ip, node, chr, v)
        if isinstance(v, (str, AStr)) or v is None:
            raise AbsRaise('TypeError', 'chr() needs an integer', node)
        return AStr(C.ALL, NOMUST, True)
    return dist(ip, node, one, args[0])


def bi_ord(ip, args, kw, node):
    def one(v):
        if isinstance(v, str):
            return fold(ip, node, ord, v)
        if v is None or isinstance(v, (int, L, D)):
            raise AbsRaise('TypeError', 'ord() expected a character', node)
        return TINT
    return dist(ip, node, one, args[0])


def bi_any(ip, args, kw, node):
    items, exact, _ = ip.iterate(args[0], node)
    rs = [ip.truth(x) for x in items]
    if exact and True in rs:
        return True
    if all(r is False for r in rs):
        return False
    return TBOOL


def bi_all(ip, args, kw, node):
    items, exact, _ = ip.iterate(args[0], node)
    rs = [ip.truth(x) for x in items]
    if all(r is True for r in rs):
        return True
    if exact and False in rs:
        return False
    return TBOOL


def _minmax(which):
    def f(ip, args, kw, node):
        if len(args) == 1:
            items, exact, _ = ip.iterate(args[0], node)
        else:
            items, exact = list(args), True
        if exact and not items:
            if 'default' in kw:
                return kw['default']
            raise AbsRaise('ValueError', '%s() arg is an empty sequence' % which.__name__, node)
        key = kw.get('key')
        ks = [ip.call(key, [x], {}, node) for x in items] if key is not None else items
        if exact and all(fully_concrete(k) for k in ks):
            try:
                i = which(range(len(items)), key=lambda i: unwrap(ks[i]))
            except TypeError as e:
                raise AbsRaise('TypeError', str(e), node)
            return items[i]
        if exact and len(items) > 1 and which is max and greatest(ks) is not None:
            return items[greatest(ks)]
        if not exact and 'default' not in kw and not (isinstance(args[0], AList) and args[0].minlen):
            ip.possible('ValueError', '%s() of a possibly empty sequence' % which.__name__, node)
        return join_all(items + ([kw['default']] if 'default' in kw else []))
    return f


def bi_sum(ip, args, kw, node):
    items, exact, _ = ip.iterate(args[0], node)
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if exact:
        import ast as _ast
        acc = start
        for x in items:
            acc = ip.binop(_ast.Add(), acc, x, node)
        return acc
    e = join_all(items)
    if isinstance(e, (L, AList)) or isinstance(start, (L, AList)):
        return AList(e.elem if isinstance(e, AList) else (join_all(e) if e else TOP))
    return TINT


TYPES = {'str': (str, AStr), 'list': (L, AList), 'dict': (D, ADict), 'tuple': (tuple,), 'int': (int,), 'float': (float,),
         'bool': (bool,), 'set': (SetV,)}


def bi_isinstance(ip, args, kw, node):
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)
    names = []
    for t in ts:
        if isinstance(t, PyFn):
            names.append(t.name)
        elif isinstance(t, (Cls, Ext)):
            names.append(t)
        else:
            names.append(None)

    def one(v):
        m = v.node if isinstance(v, A.NodeStr) else v
        if isinstance(m, Inst) and hasattr(m.cls, 'kinds'):
            return any((n.path.rsplit('.', 1)[-1] if isinstance(n, Ext) else n.name if isinstance(n, Cls) else n) in m.cls.kinds for n in names)
        if isinstance(v, (Top, Ext, OneOf, Vague)):
            if isinstance(v, Top) and v.kind in ('int', 'pos', 'nat', 'bool') and all(isinstance(n, str) for n in names):
                return ('bool' if v.kind == 'bool' else 'int') in names or (v.kind == 'bool' and 'int' in names)
            return TBOOL
        res = False
        for n in names:
            if isinstance(n, Cls):
                if isinstance(v, Inst) and (v.cls is n or n in v.cls.bases):
                    return True
                continue
            if n is None or isinstance(n, Ext) or n not in TYPES:
                if n == 'object':
                    return True
                if isinstance(v, CONST + (AStr, L, D, tuple)) and isinstance(n, str):
                    continue
                res = TBOOL
                continue
            if isinstance(v, AList) and v.kind == 'set':
                if n == 'set':
                    return True
                continue
            if isinstance(v, TYPES[n]):
                if n == 'int' and isinstance(v, bool):
                    return True
                return True
        return res
    return dist(ip, node, one, args[0])


def bi_getattr(ip, args, kw, node):
    obj, name = args[0], args[1]

    def one(nm):
        if isinstance(nm, str):
            try:
                return ip.attr(obj, nm, node)
            except AbsRaise as e:
                if e.exc == 'AttributeError' and len(args) > 2:
                    return args[2]
                if not hasattr(e, 'lookup'):
                    e.lookup = (repr(obj), nm)
                e.where = 'getattr'
                raise
        if isinstance(nm, (AStr, Top)):
            if len(args) < 3:
                ip.possible('AttributeError', 'getattr with an unknown name', node)
            if isinstance(obj, Mod):
                pass
            return TOP
        raise AbsRaise('TypeError', 'attribute name must be string', node)
    return dist(ip, node, one, name)


def bi_hasattr(ip, args, kw, node):
    if isinstance(args[1], str) and not isinstance(args[0], (Top, Ext, OneOf)):
        try:
            ip.attr(args[0], args[1], node)
            return True
        except AbsRaise as e:
            if e.exc == 'AttributeError':
                return False
            raise
    return TBOOL


def bi_setattr(ip, args, kw, node):
    if isinstance(args[1], str):
        ip.setattr(args[0], args[1], args[2], node)
    else:
        ip.event('global-write', 'setattr with unknown name', node, owner=repr(args[0]))
    return None


def bi_print(ip, args, kw, node):
    ip.event('effect', 'print', node, effect='stdout')
    return None


def bi_open(ip, args, kw, node):
    if 'open' in ip.lib:
        return ip.lib['open'](ip, args, kw, node)
    p = args[0]
    mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
    if isinstance(p, PathVal):
        p = p.path
    if not isinstance(mode, str):
        mode = 'r+'
    if isinstance(p, OneOf):
        ps = p.vals
    else:
        ps = (p,)
    if 'b' not in mode and 'encoding' not in kw and len(args) < 4:
        ip.event('locale', 'open() in text mode without an encoding', node)
    for q in ps:
        if any(c in mode for c in 'wax+'):
            ip.event('effect', 'open %r for writing' % (q,), node, effect='fs-write', path=q)
        else:
            ip.event('file-read', 'open %r' % (q,), node, path=q)
            if repo_path(ip, q) and not os.path.exists(q):
                raise AbsRaise('FileNotFoundError', q, node)
    return FileVal(p if isinstance(p, str) else None, mode)


def bi_type(ip, args, kw, node):
    v = args[0]
    m = v.node if isinstance(v, A.NodeStr) else v
    if isinstance(m, Inst) and hasattr(m.cls, 'kinds'):
        return Ext('bs4.element.' + m.cls.name)
    for n, ts in TYPES.items():
        if isinstance(v, ts) and not (n == 'int' and isinstance(v, bool)):
            return ip.builtins[n]
    if isinstance(v, Inst):
        return v.cls
    return TOP


def bi_iter(ip, args, kw, node):
    if isinstance(args[0], Iter):
        return args[0]
    items, exact, must = ip.iterate(args[0], node)
    return Iter(mklist(items, exact, must), 'iter')


def bi_next(ip, args, kw, node):
    v = args[0]
    if isinstance(v, Iter) and isinstance(v.src, L):
        if v.src:
            x = v.src[0]
            for log in ip.mutlog:
                pass
            v.src = L(list(v.src)[1:])
            return x
        if len(args) > 1:
            return args[1]
        raise AbsRaise('StopIteration', '', node)
    items, exact, must = ip.iterate(v.src if isinstance(v, Iter) else v, node)
    if len(args) > 1:
        return join_all(items + [args[1]])
    if not (exact and items):
        ip.possible('StopIteration', 'next() on a possibly empty iterator', node)
    return join_all(items) if items else TOP


def bi_bool(ip, args, kw, node):
    t = ip.truth(args[0]) if args else False
    return TBOOL if t is None else t


def bi_abs(fn):
    def f(ip, args, kw, node):
        if all(isinstance(a, CONST) for a in args):
            return fold(ip, node, fn, *args)
        return TINT
    return f


def bi_repr(ip, args, kw, node):
    if fully_concrete(args[0]):
        return repr(unwrap(args[0]))
    return AStr()


def bi_hash(ip, args, kw, node):
    ip.event('nondet', 'hash()/id()', node)
    return TINT


def bi_import(ip, args, kw, node):
    if isinstance(args[0], str) and args[0].split('.')[0] == ip.package:
        ip.load(args[0])
        return ip.load(args[0].split('.')[0])
    return Ext(str(args[0]))


def bi_callable(ip, args, kw, node):
    v = args[0]
    if isinstance(v, (Func, PyFn, Bound, BoundFunc, Cls)):
        return True
    if isinstance(v, CONST + (L, D, AStr, tuple, AList)):
        return False
    return TBOOL


def bi_exec(ip, args, kw, node):
    ip.event('effect', 'exec/eval/compile of code', node, effect='exec')
    return TOP


def make_builtins(ip):
    t = {
        'len': bi_len, 'range': bi_range, 'zip': bi_zip, 'map': bi_map, 'filter': bi_filter, 'enumerate': bi_enumerate,
        'reversed': bi_reversed, 'sorted': bi_sorted, 'list': bi_list, 'tuple': bi_tuple, 'dict': bi_dict, 'set': bi_set,
        'frozenset': bi_set, 'str': bi_str, 'int': bi_int, 'float': bi_float, 'chr': bi_chr, 'ord': bi_ord,
        'any': bi_any, 'all': bi_all, 'min': _minmax(min), 'max': _minmax(max), 'sum': bi_sum,
        'isinstance': bi_isinstance, 'getattr': bi_getattr, 'hasattr': bi_hasattr, 'setattr': bi_setattr,
        'print': bi_print, 'open': bi_open, 'type': bi_type, 'iter': bi_iter, 'next': bi_next, 'bool': bi_bool,
        'abs': bi_abs(abs), 'round': bi_abs(round), 'divmod': bi_abs(divmod), 'pow': bi_abs(pow), 'hex': bi_abs(hex),
        'repr': bi_repr, 'hash': bi_hash, 'id': bi_hash, '__import__': bi_import, 'callable': bi_callable,
        'exec': bi_exec, 'eval': bi_exec, 'compile': bi_exec,
        'globals': lambda ip, a, k, n: TOP, 'locals': lambda ip, a, k, n: ADict(), 'vars': bi_vars, 'dir': bi_dir,
        'input': lambda ip, a, k, n: (ip.event('effect', 'input()', n, effect='stdin'), AStr())[1],
        'super': lambda ip, a, k, n: TOP, 'object': lambda ip, a, k, n: TOP,
        'slice': lambda ip, a, k, n: slice(*a),
        'staticmethod': lambda ip, a, k, n: a[0], 'classmethod': lambda ip, a, k, n: a[0],
        'property': lambda ip, a, k, n: a[0], 'bytes': lambda ip, a, k, n: Top('bytes'),
        'bytearray': lambda ip, a, k, n: Top('bytes'), 'format': lambda ip, a, k, n: to_str(ip, a[0], n),
    }
    return {n: PyFn(n, f) for n, f in t.items()}


def bi_vars(ip, args, kw, node):
    if args and isinstance(args[0], Mod):
        return GlobalsView(args[0])
    if args and isinstance(args[0], Inst):
        return D(args[0].attrs)
    return ADict()


def bi_dir(ip, args, kw, node):
    if args and isinstance(args[0], Mod):
        return L(sorted(args[0].vars))
    return AList(AStr())


# ----------------------------------------------------------------------------- libraries
ATTRS = {
    'string.ascii_letters': _string.ascii_letters, 'string.ascii_lowercase': _string.ascii_lowercase,
    'string.ascii_uppercase': _string.ascii_uppercase, 'string.digits': _string.digits,
    'string.punctuation': _string.punctuation, 'string.whitespace': _string.whitespace,
    'string.printable': _string.printable,
    'os.sep': os.sep, 'os.path.sep': os.sep, 'os.linesep': '\n', 'os.name': 'posix',
    'sys.maxunicode': 0x10FFFF,
    'unicodedata.unidata_version': unicodedata.unidata_version,
}
for _n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'U', 'UNICODE', 'X', 'VERBOSE', 'A', 'ASCII'):
    ATTRS['re.' + _n] = int(getattr(re, _n))
    ATTRS['regex.' + _n] = int(getattr(re, _n))

PURE_PREFIX = ('string.', 'unicodedata.', 're.', 'regex.', 'functools.', 'itertools.', 'operator.', 'collections.',
               'json.loads', 'json.dumps', 'langcodes', 'inspect.', 'html.', 'math.', 'typing.', 'copy.', 'io.', 'base64.',
               'os.path.', 'os.fspath', 'pathlib.', 'fontTools.', 'exc.', 'warnings.', 'builtins.', 'importlib.', 'xml.',
               'logging.', 'dataclasses.', 'enum.', 'textwrap.', 'struct.', 'ast.', 'bs4.', 'lxml.', 'abc.', 'contextlib.',
               'yaml.', 'pykakasi', 'khmernltk', 'zipfile.', 'json.', 'bisect.', 'heapq.', 'types.', 'array.', 'difflib.')
NETWORK = ('requests.', 'urllib.request', 'urllib3.', 'socket.', 'http.', 'httpx.', 'ftplib.', 'smtplib.', 'aiohttp.')
NONDET = ('random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'os.urandom', 'os.getpid', 'os.environ', 'os.getenv',
          'threading.get_ident', 'os.times', 'platform.', 'socket.gethostname', 'getpass.', 'locale.', 'tempfile.')
FSWRITE = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs',
           'os.chmod', 'os.chown', 'os.symlink', 'os.link', 'os.truncate', 'os.open', 'os.write', 'os.chdir', 'os.putenv',
           'shutil.', 'os.utime')
STATE = ('sys.setrecursionlimit', 'sys.setswitchinterval', 'sys.settrace', 'sys.setprofile', 'sys.path.', 'sys.modules.', 'gc.disable',
         'gc.enable', 'gc.set', 'gc.freeze', 'locale.setlocale', 'random.seed', 'os.environ.update', 'os.environ.setdefault',
         'os.environ.pop', 'os.umask', 'os.nice', 'os.setuid', 'warnings.simplefilter', 'warnings.filterwarnings',
         'warnings.resetwarnings', 'logging.basicConfig', 'logging.disable', 'atexit.', 'ctypes.', 'sqlite3.', 'dbm.', 'shelve.',
         'pickle.dump', 'json.dump_', 'mmap.', 'webbrowser.', 'syslog.', 'readline.', 'faulthandler.', 'codecs.register', 'builtins.')
OUT = ('sys.stdout.', 'sys.stderr.', 'sys.__stdout__.', 'sys.__stderr__.', 'logging.warning', 'logging.error', 'logging.critical',
       'logging.exception', 'logging.warn', 'pprint.pprint', 'traceback.print')
PROC = ('subprocess.', 'os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.fork', 'os.kill', 'multiprocessing.', 'sys.exit',
        'os._exit', 'os.abort', 'signal.')

PATCHABLE = {}


def classify(path):
    for pre in STATE:
        if path.startswith(pre):
            return 'state'
    for pre in OUT:
        if path.startswith(pre):
            return 'output'
    for pre in NETWORK:
        if path.startswith(pre):
            return 'network'
    for pre in PROC:
        if path.startswith(pre):
            return 'process'
    for pre in FSWRITE:
        if path.startswith(pre):
            return 'fs-write'
    for pre in NONDET:
        if path.startswith(pre):
            return 'nondet'
    return None


_MODROOTS = ('os', 're', 'sys', 'json', 'string', 'unicodedata', 'functools', 'itertools', 'operator', 'collections', 'inspect')


def import_ext(ip, name, node):
    root = name.split('.')[0]
    if root in ('re', 'functools', 'itertools', 'operator', 'unicodedata', 'string', 'json', 'os', 'collections', 'inspect',
                'ast', 'asyncio', 'html', 'io', 'base64', 'logging', 'warnings', 'pathlib', 'zipfile', 'importlib', 'sys'):
        # standard library: the name has to exist there
        import importlib
        parts = name.split('.')
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = importlib.import_module(parts[0])
                for p in parts[1:]:
                    try:
                        o = getattr(o, p)
                    except AttributeError:
                        o = importlib.import_module('.'.join(parts[:parts.index(p) + 1]))
        except ImportError as e:
            raise AbsRaise('ImportError', 'cannot import %r (%s)' % (name, e), node)
    if name in ATTRS:
        return ATTRS[name]
    return lib_value(ip, name, node)


AMBIENT = ('os.environ', 'sys.argv', 'sys.flags', 'sys.stdin', 'os.environb', 'sys.platform')


def ext_attr(ip, ext, name, node):
    path = ext.path + '.' + name
    if path in AMBIENT:
        ip.event('nondet', 'reads ' + path, node)
    if path in ATTRS:
        return ATTRS[path]
    return lib_value(ip, path, node)


def lib_value(ip, path, node):
    if path in ('itertools.chain',):
        return PyFn('chain', lambda ip, a, k, n: it_chain(ip, a, k, n))
    if path.startswith('bs4.') and path[4:5].isupper() and path[4:] != 'BeautifulSoup':
        path = 'bs4.element.' + path[4:]
    return Ext(path)


def it_chain(ip, args, kw, node):
    out, exact = [], True
    for a in args:
        i, e, _ = ip.iterate(a, node)
        out += i
        exact = exact and e
    return Iter(mklist(out, exact), 'chain')


def call_ext(ip, f, args, kw, node):
    p = f.path
    if p.startswith('exc.'):
        msg = args[0] if args and isinstance(args[0], str) else ''
        return ExcVal(p[4:], msg)
    if p.startswith(('re.', 'regex.')):
        flavour, name = p.split('.', 1)
        return re_call(ip, name, args, kw, node, flavour)
    h = ip.lib.get(p) or LIB.get(p) or (LIB.get(p[10:]) if p.startswith('fontTools.unicodedata.') else None)
    if h is not None:
        return h(ip, args, kw, node)
    if p.startswith('os.path.'):
        return os_path(ip, p[8:], args, kw, node)
    k = classify(p)
    if k == 'nondet':
        ip.event('nondet', p, node)
        return TOP
    if k is not None:
        ip.event('effect', p, node, effect=k)
        return TOP
    if p.startswith(('logging.', 'warnings.')):
        ip.event('log', p, node)
        return TOP
    if p.startswith('operator.'):
        return TOP
    last = p.rsplit('.', 1)[-1]
    if last in ('write', 'writestr', 'save') and not p.startswith(('io.', 're.')):
        ip.event('ext-write', p, node)
    for a in args:
        if isinstance(a, (L, D, AList)) and getattr(a, 'owner', None):
            pass
    ip.event('ext-call', p, node, path=p, args=args, kw=kw)
    return Ext(p + '()')


def os_path(ip, name, args, kw, node):
    def one(*a):
        a = [x.path if isinstance(x, PathVal) else x for x in a]
        if all(isinstance(x, str) for x in a):
            if name in ('splitext', 'basename', 'dirname', 'join', 'split', 'normpath', 'isabs', 'splitdrive', 'commonprefix'):
                return fold(ip, node, getattr(os.path, name), *a)
            if name in ('abspath', 'realpath'):
                return a[0] if os.path.isabs(a[0]) else AStr()
            if name in ('exists', 'isfile', 'isdir', 'getsize', 'getmtime'):
                if repo_path(ip, a[0]) and name in ('exists', 'isfile', 'isdir'):
                    return getattr(os.path, name)(a[0])
                return TBOOL
        for x in a:
            if x is None or isinstance(x, (int, L, D)):
                raise AbsRaise('TypeError', 'expected str, bytes or os.PathLike object, not %s' % ip.tname(x), node)
        if name in ('splitext', 'split', 'splitdrive'):
            s = AStr(join_all([S(ip, x, node) for x in a]).cs if a else C.ALL)
            return (s, s)
        if name in ('exists', 'isfile', 'isdir', 'isabs'):
            return TBOOL
        return AStr()
    return dist(ip, node, one, *args)


def f_reduce(ip, args, kw, node):
    items, exact, _ = ip.iterate(args[1], node)
    if exact:
        if len(args) > 2:
            acc = args[2]
        else:
            if not items:
                raise AbsRaise('TypeError', 'reduce() of empty iterable with no initial value', node)
            acc, items = items[0], items[1:]
        for x in items:
            acc = ip.call(args[0], [acc, x], {}, node)
        return acc
    acc = args[2] if len(args) > 2 else join_all(items)
    for _ in range(4):
        nxt = join(acc, ip.call(args[0], [acc, join_all(items)], {}, node))
        if same(nxt, acc):
            break
        acc = nxt
    return A.widen(acc)


def f_partial(ip, args, kw, node):
    f, pre, pk = args[0], list(args[1:]), dict(kw)

    def run(ip, a, k, n):
        kk = dict(pk)
        kk.update(k)
        return ip.call(f, pre + list(a), kk, n)
    return PyFn('partial', run)


def f_lru(ip, args, kw, node):
    if args and isinstance(args[0], Func):
        args[0].decorators = args[0].decorators + ('lru_cache',)
        return args[0]
    return Ext('functools.lru_cache()')


def f_import_module(ip, args, kw, node):
    v = args[0] if args else kw.get('name')

    def one(n):
        if isinstance(n, str):
            if n.split('.')[0] == ip.package:
                return ip.load(n)
            if n.startswith('.'):
                pk = args[1] if len(args) > 1 else kw.get('package')
                if isinstance(pk, str):
                    return ip.load(pk + n)
            if n == '':
                raise AbsRaise('ValueError', 'Empty module name', node)
            import importlib.util
            try:
                if importlib.util.find_spec(n.split('.')[0]) is None:
                    raise AbsRaise('ModuleNotFoundError', 'No module named %r' % n, node)
            except (ValueError, ImportError):
                pass
            return Ext(n)
        if n is None:
            raise AbsRaise('AttributeError', "'NoneType' object has no attribute 'startswith'", node)
        ip.possible('ModuleNotFoundError', 'import of an unknown module name', node)
        return TOP
    return dist(ip, node, one, v)


def f_getmembers(ip, args, kw, node):
    m = args[0]
    pred = args[1] if len(args) > 1 else None
    if isinstance(m, Mod):
        out = L()
        for k in sorted(m.vars):
            v = m.vars[k]
            if pred is None:
                out.append((k, v))
            else:
                r = ip.call(pred, [v], {}, node)
                if ip.truth(r):
                    out.append((k, v))
        return out
    return AList((AStr(), TOP))


def f_isfunction(ip, args, kw, node):
    return isinstance(args[0], (Func,)) or (TBOOL if isinstance(args[0], (Top, OneOf)) else False)


def f_json_load(ip, args, kw, node):
    f = args[0]
    if isinstance(f, FileVal) and repo_path(ip, f.path):
        k = (f.path, os.path.getmtime(f.path))
        if k not in ip._json:
            with open(f.path, encoding='utf8') as h:
                try:
                    ip._json[k] = json.load(h)
                except Exception as e:
                    raise AbsRaise('JSONDecodeError', str(e), node)
        return wrap(ip._json[k])
    return TOP


def f_json_loads(ip, args, kw, node):
    if isinstance(args[0], str):
        return fold(ip, node, json.loads, args[0])
    return TOP


def f_json_dumps(ip, args, kw, node):
    if fully_concrete(args[0]) and all(isinstance(v, CONST) for v in kw.values()):
        return fold(ip, node, json.dumps, unwrap(args[0]), **kw)
    return AStr()


def f_yaml(ip, args, kw, node):
    import yaml
    f = args[0]
    if isinstance(f, FileVal) and repo_path(ip, f.path):
        k = (f.path, os.path.getmtime(f.path))
        if k not in ip._json:
            with open(f.path, encoding='utf8') as h:
                try:
                    ip._json[k] = yaml.safe_load(h)
                except Exception as e:
                    raise AbsRaise('YAMLError', str(e), node)
        return wrap(ip._json[k])
    if isinstance(f, str):
        return fold(ip, node, yaml.safe_load, f)
    return TOP


def f_normalize(ip, args, kw, node):
    def one(form, s):
        if isinstance(form, str) and isinstance(s, str):
            return fold(ip, node, unicodedata.normalize, form, s)
        if isinstance(form, str) and form not in ('NFC', 'NFD', 'NFKC', 'NFKD'):
            raise AbsRaise('ValueError', 'invalid normalization form', node)
        a = S(ip, s, node, 'normalize() argument 2 must be str')
        if ip.ops is not None:
            ip.op('normalize', a, form, None, node)
        if isinstance(form, str):
            must = lose(ip, a.must, [f for f in R.FOREIGN if unicodedata.normalize(form, f) != f], node, 'normalize')
            return AStr(C.normalize(form, a.cs), must, a.ne)
        return AStr(C.ALL, NOMUST, a.ne)
    if len(args) != 2:
        raise AbsRaise('TypeError', 'normalize expected 2 arguments', node)
    return dist(ip, node, one, *args)


def f_ucd(name, default):
    def f(ip, args, kw, node):
        def one(*a):
            if all(isinstance(x, str) for x in a):
                return fold(ip, node, getattr(unicodedata, name), *a)
            if a and (a[0] is None or isinstance(a[0], (int, L, D))):
                raise AbsRaise('TypeError', 'argument must be a unicode character', node)
            if name in ('name', 'digit', 'numeric', 'decimal') and len(a) < 2:
                ip.possible('ValueError', 'unicodedata.%s of an unknown character' % name, node)
            if name == 'lookup':
                ip.possible('KeyError', 'unicodedata.lookup of an unknown name', node)
            return default
        return dist(ip, node, one, *args)
    return f


def f_counter(ip, args, kw, node):
    if not args:
        d = D()
        d.default = PyFn('zero', lambda ip, a, k, n: 0)
        return d
    items, exact, _ = ip.iterate(args[0], node)
    if exact and all(isinstance(x, CONST) for x in items):
        import collections
        d = D(collections.Counter(items))
        d.default = PyFn('zero', lambda ip, a, k, n: 0)
        return d
    return ADict(join_all(items) if items else TOP, A.TPOS, ne=A.certain(args[0]))


def f_defaultdict(ip, args, kw, node):
    d = D()
    d.default = args[0] if args else None
    return d


def f_product(ip, args, kw, node):
    seqs = [ip.iterate(a, node) for a in args]
    rep = kw.get('repeat', 1)
    if all(s[1] for s in seqs) and isinstance(rep, int):
        import itertools
        n = 1
        for s in seqs:
            n *= max(1, len(s[0]))
        if n ** rep <= 200000:
            return Iter(L(itertools.product(*[s[0] for s in seqs], repeat=rep)), 'product')
    return Iter(AList(tuple(join_all(s[0]) for s in seqs)), 'product')


def f_path(ip, args, kw, node):
    ps = [a.path if isinstance(a, PathVal) else a for a in args]
    if all(isinstance(x, str) for x in ps) and ps:
        return PathVal(os.path.join(*ps))
    return PathVal(None)


SCRIPT_OF = None


def f_script(ip, args, kw, node):
    # fontTools.unicodedata.script: a four-letter code, never empty
    if ip.enum and args and isinstance(args[0], str) and len(args[0]) == 1 and SCRIPT_OF:
        return SCRIPT_OF(args[0])
    return AStr(C.of(_string.ascii_letters), NOMUST, True)


def f_html(ip, args, kw, node):
    v = args[0]
    if isinstance(v, str):
        import html
        return html.escape(v)
    s = S(ip, v, node)
    return AStr(s.cs.add_str('&;ampltgquo#x27'), s.must)


def op_fn(opname):
    import ast

    def f(ip, args, kw, node):
        return ip.binop(getattr(ast, opname)(), args[0], args[1], node)
    return f


def f_itemgetter(ip, args, kw, node):
    a = list(args)
    return PyFn('itemgetter', lambda ip, b, k, n: ip.index(b[0], a[0], n) if len(a) == 1 else
                tuple(ip.index(b[0], x, n) for x in a))


def f_copy(ip, args, kw, node):
    v = args[0]
    if isinstance(v, (L, D, tuple, SetV)) and fully_concrete(v):
        return wrap(unwrap(v))
    if isinstance(v, L):
        return L(v)
    if isinstance(v, D):
        return D(v)
    return v


LIB = {
    'functools.cmp_to_key': lambda ip, a, k, n: CmpKey(a[0]),
    'functools.reduce': f_reduce, 'functools.partial': f_partial, 'functools.lru_cache': f_lru, 'functools.cache': f_lru,
    'functools.wraps': lambda ip, a, k, n: PyFn('deco', lambda ip, b, kk, nn: b[0]),
    'importlib.import_module': f_import_module,
    'inspect.getmembers': f_getmembers, 'inspect.isfunction': f_isfunction,
    'json.load': f_json_load, 'json.loads': f_json_loads, 'json.dumps': f_json_dumps,
    'yaml.safe_load': f_yaml, 'yaml.load': f_yaml, 'yaml.full_load': f_yaml,
    'unicodedata.normalize': f_normalize,
    'unicodedata.name': f_ucd('name', AStr(C.ALL, NOMUST, True)), 'unicodedata.category': f_ucd('category', AStr(C.of(_string.ascii_letters), NOMUST, True)),
    'unicodedata.combining': f_ucd('combining', TINT), 'unicodedata.lookup': f_ucd('lookup', AStr(C.ALL, NOMUST, True)),
    'unicodedata.decomposition': f_ucd('decomposition', AStr()), 'unicodedata.digit': f_ucd('digit', TINT),
    'unicodedata.numeric': f_ucd('numeric', TINT), 'unicodedata.bidirectional': f_ucd('bidirectional', AStr()),
    'unicodedata.is_normalized': lambda ip, a, k, n: TBOOL,
    'collections.Counter': f_counter, 'collections.defaultdict': f_defaultdict,
    'collections.OrderedDict': bi_dict,
    'itertools.product': f_product,
    'pathlib.Path': f_path, 'pathlib.PurePath': f_path,
    'fontTools.unicodedata.script': f_script, 'html.escape': f_html,
    'operator.add': op_fn('Add'), 'operator.itemgetter': f_itemgetter,
    'copy.copy': f_copy, 'copy.deepcopy': f_copy,
    'khmernltk.word_tokenize': lambda ip, a, k, n: (ip.event('ext-call', 'khmernltk.word_tokenize', n, path='khmernltk'), AList(AStr(S(ip, a[0], n).cs)))[1],
    'os.fspath': lambda ip, a, k, n: a[0],
}
