"""Facts about regular expressions read off their parse tree (no matching is ever run)."""
import functools
import re
import unicodedata
import warnings

from re import _parser as sp, _constants as sc

from . import charset as C

FOREIGN = ('\u4e2d', '\U0001F600')          # a letter and a symbol no table mentions


class RxError(Exception):
    pass


@functools.lru_cache(maxsize=None)
def _cat_m():
    out = []
    start = prev = None
    for cp in range(0x110000):
        if unicodedata.category(chr(cp))[0] == 'M':
            if prev is not None and cp == prev + 1:
                prev = cp
            else:
                if start is not None:
                    out.append((start, prev))
                start = prev = cp
    out.append((start, prev))
    return ''.join('\\U%08x-\\U%08x' % p for p in out)


def _translate_regex_module(p):
    """Rewrite the \\p{..} classes of the third-party `regex` syntax into `re` syntax."""
    out = []
    i = 0
    incls = False
    while i < len(p):
        c = p[i]
        if c == '\\' and i + 1 < len(p):
            if p[i + 1] in 'pP' and i + 2 < len(p) and p[i + 2] == '{':
                j = p.index('}', i)
                name = p[i + 3:j]
                if name in ('M', 'Mark'):
                    out.append(_cat_m() if incls else '[' + ('^' if p[i + 1] == 'P' else '') + _cat_m() + ']')
                else:
                    out.append('\\w' if incls else ('[^\\W\\d_]' if p[i + 1] == 'p' else '[\\W\\d_]'))
                i = j + 1
                continue
            out.append(p[i:i + 2])
            i += 2
            continue
        if c == '[' and not incls:
            incls = True
            out.append(c)
            i += 1
            if i < len(p) and p[i] == '^':
                out.append('^')
                i += 1
            if i < len(p) and p[i] == ']':
                out.append('\\]')
                i += 1
            continue
        if c == ']' and incls:
            incls = False
        out.append(c)
        i += 1
    return ''.join(out)


_CATM = {}


def cat_mask(cat):
    m = _CATM.get(cat)
    if m is None:
        import sys
        import unicodedata
        if cat is sc.CATEGORY_DIGIT:
            t = ''.join(chr(i) for i in range(sys.maxunicode + 1) if unicodedata.category(chr(i)) == 'Nd')
        else:
            t = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())
        m = _CATM[cat] = C.mask_of(t)
    return m


class Rx:
    def __init__(self, pattern, flags=0, flavour='re'):
        self.pattern = pattern
        self.flags = flags
        src = pattern
        if flavour == 'regex':
            src = _translate_regex_module(pattern)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = sp.parse(src, flags)
        except RecursionError:
            raise
        except Exception as e:        # re.error and friends: the pattern is malformed
            raise RxError(str(e))
        # look-behinds must have a fixed width; `re.compile` checks it while generating code
        self._check_lookbehind(self.tree)
        st = self.tree.state
        self.groups = st.groups - 1
        self.groupindex = dict(st.groupdict)
        self._poss = {}
        self._cls = {}
        self._lits = {}
        self._cfm = {}

    # -- helpers over the tree ------------------------------------------------
    def _check_lookbehind(self, t):
        for op, av in t:
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                if av[0] < 0:
                    lo, hi = av[1].getwidth()
                    if lo != hi:
                        raise RxError('look-behind requires fixed-width pattern')
                self._check_lookbehind(av[1])
            elif op is sc.SUBPATTERN:
                self._check_lookbehind(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                self._check_lookbehind(av[2])
            elif op is sc.BRANCH:
                for b in av[1]:
                    self._check_lookbehind(b)
            elif op is sc.GROUPREF_EXISTS:
                self._check_lookbehind(av[1])
                if av[2]:
                    self._check_lookbehind(av[2])
            elif op is getattr(sc, 'ATOMIC_GROUP', None):
                self._check_lookbehind(av)

    def class_has(self, av, c):
        neg = False
        hit = False
        for op, a in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                hit = hit or ord(c) == a
            elif op is sc.NOT_LITERAL:
                hit = hit or ord(c) != a
            elif op is sc.RANGE:
                hit = hit or a[0] <= ord(c) <= a[1]
            elif op is sc.CATEGORY:
                hit = hit or _category(a, c)
        return hit != neg

    def class_set(self, av, cs):
        """(chars of cs in the class) as a CharSet; for co-finite cs an under-approximation
        is enough for `kill`, and non-emptiness is what `possible` needs."""
        key = (id(av), cs)
        r = self._cls.get(key)
        if r is not None:
            return r
        if not cs.neg:
            m = 0
            for c in cs.chars():
                if self.class_has(av, c):
                    m |= C.bit(c)
            r = C.CharSet(False, m)
        else:
            neg = any(op is sc.NEGATE for op, _ in av)
            m = 0
            exact = True
            for op, a in av:
                if op in (sc.LITERAL,):
                    m |= C.bit(chr(a))
                elif op is sc.RANGE:
                    if a[1] - a[0] <= 4096:
                        for cp in range(a[0], a[1] + 1):
                            m |= C.bit(chr(cp))
                    else:
                        exact = False
                elif op is sc.NEGATE:
                    pass
                elif op is sc.CATEGORY and a in (sc.CATEGORY_DIGIT, sc.CATEGORY_SPACE) \
                        and not self.tree.state.flags & re.A:
                    m |= cat_mask(a)
                else:
                    exact = False
            if neg:
                r = cs.del_mask(m) if exact else C.EMPTY
            else:
                r = cs.inter(C.CharSet(False, m))
        self._cls[key] = r
        return r

    def possible(self, cs):
        r = self._poss.get(cs)
        if r is None:
            r = self._poss[cs] = self._possible(self.tree, cs)
        return r

    def _possible(self, t, cs):
        for op, av in t:
            if op is sc.LITERAL:
                if not cs.has(chr(av)) and not self._icase(cs, av):
                    return False
            elif op is sc.NOT_LITERAL:
                if cs.del_mask(C.bit(chr(av))).empty():
                    return False
            elif op is sc.ANY:
                if cs.empty():
                    return False
            elif op is sc.IN:
                if cs.empty():
                    return False
                if not cs.neg and self.class_set(av, cs).empty():
                    return False
                if cs.neg:
                    # all members of a positive literal class excluded?
                    if not any(o in (sc.NEGATE, sc.CATEGORY, sc.NOT_LITERAL) or
                               (o is sc.RANGE and a[1] - a[0] > 4096) for o, a in av):
                        if self.class_set(av, cs).empty():
                            return False
            elif op is sc.SUBPATTERN:
                if not self._possible(av[3], cs):
                    return False
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                if av[0] > 0 and not self._possible(av[2], cs):
                    return False
            elif op is sc.BRANCH:
                if not any(self._possible(b, cs) for b in av[1]):
                    return False
            elif op is sc.ASSERT:
                if not self._possible(av[1], cs):
                    return False
        return True

    def _icase(self, cs, cp):
        if not (self.tree.state.flags & re.I):
            return False
        c = chr(cp)
        return cs.has(c.lower()) or cs.has(c.upper())

    def kill(self, cs):
        """CharSet of characters that certainly do not survive: the pattern matches any single
        occurrence of them, with no context condition."""
        r = self._kill(list(self.tree), cs)
        return r

    def _kill(self, items, cs):
        if len(items) != 1:
            return C.EMPTY
        op, av = items[0]
        if op is sc.LITERAL:
            return C.of(chr(av))
        if op is sc.IN:
            return self.class_set(av, cs)
        if op is sc.SUBPATTERN:
            return self._kill(list(av[3]), cs)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
            if av[0] == 1 and op is not sc.MIN_REPEAT or av == (1, 1, av[2]):
                return self._kill(list(av[2]), cs)
            if av[0] == 1:
                return self._kill(list(av[2]), cs)
            return C.EMPTY
        if op is sc.BRANCH:
            k = C.EMPTY
            for b in av[1]:
                k = k.union(self._kill(list(b), cs))
            return k
        if op is sc.ANY:
            return cs.del_mask(C.bit('\n'))
        return C.EMPTY

    # -- what a match can contain ------------------------------------------------
    def consumable(self, cs):
        return self._cons(self.tree, cs)

    def group_consumable(self, g, cs):
        sub = self._find_group(self.tree, g)
        return self._cons(sub, cs) if sub is not None else cs

    def _cons(self, t, cs):
        r = C.EMPTY
        for op, av in t:
            if op is sc.LITERAL:
                if self.tree.state.flags & re.I:
                    c = chr(av)
                    for x in (c, c.lower(), c.upper()):
                        if len(x) == 1 and cs.has(x):
                            r = r.add_str(x)
                elif cs.has(chr(av)):
                    r = r.add_str(chr(av))
            elif op is sc.NOT_LITERAL:
                r = r.union(cs.del_mask(C.bit(chr(av))))
            elif op is sc.ANY:
                return cs
            elif op is sc.IN:
                if self.tree.state.flags & re.I:
                    return cs
                if cs.neg and any((o is sc.CATEGORY and a not in (sc.CATEGORY_DIGIT, sc.CATEGORY_SPACE)) or (o is sc.RANGE and a[1] - a[0] > 4096) for o, a in av):
                    return cs
                if cs.neg and any(o is sc.NEGATE for o, a in av):
                    r = r.union(self.class_set(av, cs))
                else:
                    r = r.union(self.class_set(av, cs))
            elif op is sc.SUBPATTERN:
                r = r.union(self._cons(av[3], cs))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                r = r.union(self._cons(av[2], cs))
            elif op is sc.BRANCH:
                for b in av[1]:
                    r = r.union(self._cons(b, cs))
            elif op is sc.GROUPREF:
                r = r.union(self.group_consumable(av, cs))
            elif op is sc.GROUPREF_EXISTS:
                return cs
            elif op is getattr(sc, 'ATOMIC_GROUP', None):
                r = r.union(self._cons(av, cs))
        return r

    def never_fails(self):
        """The pattern matches (at least the empty text) at every position."""
        return self._nullable(self.tree)

    def _nullable(self, t):
        for op, av in t:
            if op is sc.SUBPATTERN:
                if not self._nullable(av[3]):
                    return False
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                if av[0] > 0 and not self._nullable(av[2]):
                    return False
            elif op is sc.BRANCH:
                if not any(self._nullable(b) for b in av[1]):
                    return False
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                continue
            else:
                return False
        return True

    def literals(self, g):
        """every text that group g can be, or None if these are too many to list"""
        if g not in self._lits:
            sub = self.tree if g == 0 else self._find_group(self.tree, g)
            self._lits[g] = None if sub is None or self.tree.state.flags & re.I else self._lit(sub)
        return self._lits[g]

    def _lit(self, t, cap=1500):
        out = {''}
        for op, av in t:
            if op is sc.LITERAL:
                nxt = {chr(av)}
            elif op is sc.IN:
                nxt = set()
                for o, a in av:
                    if o is sc.LITERAL:
                        nxt.add(chr(a))
                    elif o is sc.RANGE and a[1] - a[0] < 200:
                        nxt |= {chr(x) for x in range(a[0], a[1] + 1)}
                    else:
                        return None
            elif op is sc.BRANCH:
                nxt = set()
                for b in av[1]:
                    x = self._lit(b)
                    if x is None:
                        return None
                    nxt |= x
            elif op is sc.SUBPATTERN:
                nxt = self._lit(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[1] <= 1:
                nxt = self._lit(av[2])
                if nxt is not None and av[0] == 0:
                    nxt = nxt | {''}
            elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                continue
            else:
                return None
            if nxt is None or len(nxt) * len(out) > cap:
                return None
            out = {a + b for a in out for b in nxt}
        return frozenset(out)

    def group_min(self, g):
        sub = self._find_group(self.tree, g)
        return sub.getwidth()[0] if sub is not None and hasattr(sub, 'getwidth') else 0

    def group_optional(self, g):
        """May group g be unset in a successful match?"""
        return not self._always_sets(self.tree, g)

    def _always_sets(self, t, g):
        for op, av in t:
            if op is sc.SUBPATTERN:
                if av[0] == g or self._always_sets(av[3], g):
                    return True
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                if av[0] > 0 and self._always_sets(av[2], g):
                    return True
            elif op is sc.BRANCH:
                if all(self._always_sets(b, g) for b in av[1]):
                    return True
            elif op is sc.ASSERT:
                if self._always_sets(av[1], g):
                    return True
        return False

    # -- foreign-text preservation ---------------------------------------------
    def consumed_foreign(self, used=(), lits=''):
        """the foreign characters of which a match can hold more than `lits` and the groups in `used` put back"""
        key = (tuple(FOREIGN), frozenset(used), lits)
        r = self._cfm.get(key)
        if r is None:
            u = frozenset(used)
            r = self._cfm[key] = frozenset(f for f in FOREIGN if self._cmax(self.tree, u, False, f) > lits.count(f))
        return r

    def _cmax(self, t, used, rep, f):
        """how many f one match can consume outside the groups in `used`"""
        n = 0
        for op, av in t:
            if op is sc.ANY:
                n += bool(self.flags & re.S or f != '\n')
            elif op is sc.NOT_LITERAL:
                n += ord(f) != av
            elif op is sc.LITERAL:
                n += ord(f) == av
            elif op is sc.IN:
                n += self.class_has(av, f)
            elif op is sc.SUBPATTERN:
                g = av[0]
                if not (g is not None and g in used and not rep):
                    n += self._cmax(av[3], used, rep, f)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                k = self._cmax(av[2], used, rep or av[1] > 1, f)
                n += k and k * min(av[1], 1000)
            elif op is sc.BRANCH:
                n += max([self._cmax(b, used, rep, f) for b in av[1]] or [0])
            elif op is sc.GROUPREF_EXISTS:
                n += max(self._cmax(av[1], used, rep, f), self._cmax(av[2], used, rep, f) if av[2] else 0)
            elif op is sc.GROUPREF:
                # a copy of a group that is kept is kept once; two of a kind next to each other would become one
                if av in used:
                    n += self.possible(C.of(f))
                else:
                    sub = self._find_group(self.tree, av)
                    n += 1 if sub is None else self._cmax(sub, frozenset(), False, f)
            elif op is getattr(sc, 'ATOMIC_GROUP', None):
                n += self._cmax(av, used, rep, f)
        return n

    def _find_group(self, t, g):
        for op, av in t:
            if op is sc.SUBPATTERN:
                if av[0] == g:
                    return av[3]
                r = self._find_group(av[3], g)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                r = self._find_group(av[2], g)
            elif op is sc.BRANCH:
                r = None
                for b in av[1]:
                    r = r or self._find_group(b, g)
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                r = self._find_group(av[1], g)
            else:
                r = None
            if r is not None:
                return r
        return None


def _category(a, c):
    n = str(a)
    neg = 'NOT_' in n
    if 'DIGIT' in n:
        r = c.isdigit() and unicodedata.category(c) == 'Nd'
    elif 'SPACE' in n:
        r = c.isspace()
    elif 'WORD' in n:
        r = c.isalnum() or c == '_'
    else:
        r = False
    return r != neg


@functools.lru_cache(maxsize=None)
def get(pattern, flags=0, flavour='re'):
    try:
        return Rx(pattern, flags, flavour)
    except RxError as e:
        return e


class _Stub:
    def __init__(self, rx):
        self.groups = rx.groups
        self.groupindex = rx.groupindex


@functools.lru_cache(maxsize=None)
def template(repl, pattern, flags=0, flavour='re'):
    """(literal text of the template, tuple of referenced groups) or RxError."""
    rx = get(pattern, flags, flavour)
    if isinstance(rx, RxError):
        return rx
    if '\\' not in repl:
        return (repl, ())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            parts = sp.parse_template(repl, _Stub(rx))
    except Exception as e:
        return RxError(str(e))
    lits = ''
    groups = []
    for p in parts:
        if isinstance(p, int):
            groups.append(p)
        elif p:
            lits += p
    return (lits, tuple(groups))
