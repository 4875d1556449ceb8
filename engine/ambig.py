"""Can a backtracking matcher take exponential time on a pattern?

Read off the parse tree: the pattern's position automaton (one state per character it consumes, an edge with the number of
ways in which one position can follow another), and in it a word that leads from a position back to itself in two ways.
Assertions and references inside the repeated part make the answer unknown.
"""
import functools

from . import rx as R

sc = R.sc
REPEATS = tuple(x for x in (sc.MAX_REPEAT, sc.MIN_REPEAT) if x is not None)
POSS = getattr(sc, 'POSSESSIVE_REPEAT', None)
ATOMIC = getattr(sc, 'ATOMIC_GROUP', None)


class Unknown(Exception):
    pass


def alphabet(t, out):
    for op, av in t:
        if op in (sc.LITERAL, sc.NOT_LITERAL):
            out.add(chr(av))
        elif op is sc.IN:
            for o, a in av:
                if o in (sc.LITERAL, sc.NOT_LITERAL):
                    out.add(chr(a))
                elif o is sc.RANGE:
                    out.add(chr(a[0]))
                    out.add(chr(a[1]))
                    if a[1] < 0x10fff0:
                        out.add(chr(a[1] + 1))
        elif op is sc.BRANCH:
            for b in av[1]:
                alphabet(b, out)
        elif op is sc.SUBPATTERN:
            alphabet(av[3], out)
        elif op in REPEATS or op is POSS:
            alphabet(av[2], out)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            alphabet(av[1], out)
        elif op is ATOMIC:
            alphabet(av, out)
    return out


def loops(t, after=()):
    """the outermost unbounded repeats, with what follows them: (body, [items]); also those within assertions"""
    t = list(t)
    for i, (op, av) in enumerate(t):
        rest = tuple(t[i + 1:]) + tuple(after)
        if op in REPEATS:
            if av[1] is sc.MAXREPEAT or av[1] > 30:
                yield av[2], rest
            else:
                yield from loops(av[2], rest)
        elif op is POSS or op is ATOMIC:
            yield from loops(av[2] if op is POSS else av, ())
        elif op is sc.BRANCH:
            for b in av[1]:
                yield from loops(b, rest)
        elif op is sc.SUBPATTERN:
            yield from loops(av[3], rest)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            yield from loops(av[1], ())
        elif op is sc.GROUPREF_EXISTS:
            yield from loops(av[1], rest)
            if av[2]:
                yield from loops(av[2], rest)


def can_fail(rx, rest, alpha, pump):
    """does the rest of the pattern fail somewhere within and after a run of the pump characters?"""
    au = Auto(rx, alpha)
    for x in rest:
        op, av = x
        if op is sc.AT:
            return av in (sc.AT_END, sc.AT_END_STRING)
        if op is sc.ASSERT and av[0] >= 0:
            return can_fail(rx, list(av[1]), alpha, pump) or None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            return None
        try:
            n, f, l = au.one(x)
        except Unknown:
            return None
        if n:
            continue
        first = frozenset().union(*[au.cls[p] for p in f]) if f else frozenset()
        return not (first & pump) or None
    return False


class Auto:
    def __init__(self, rx, alpha):
        self.rx = rx
        self.alpha = alpha
        self.cls = []                       # position -> characters
        self.edge = {}                      # (p, q) -> number of ways

    def pos(self, chars):
        self.cls.append(frozenset(chars))
        return len(self.cls) - 1

    def join(self, last, first):
        for p in last:
            for q in first:
                self.edge[p, q] = self.edge.get((p, q), 0) + 1
        if len(self.edge) > 40000:
            raise Unknown('too large')

    def seq(self, t):
        """(nullable, first, last) of a sequence"""
        null, first, last = True, [], []
        for x in t:
            n, f, l = self.one(x)
            self.join(last, f)
            if null:
                first = first + f
            last = last + l if n else l
            null = null and n
        return null, first, last

    def one(self, x):
        op, av = x
        if op is sc.LITERAL:
            p = self.pos([c for c in self.alpha if ord(c) == av])
            return False, [p], [p]
        if op is sc.NOT_LITERAL:
            p = self.pos([c for c in self.alpha if ord(c) != av])
            return False, [p], [p]
        if op is sc.ANY:
            p = self.pos([c for c in self.alpha if c != '\n'])
            return False, [p], [p]
        if op is sc.IN:
            p = self.pos([c for c in self.alpha if self.rx.class_has(av, c)])
            return False, [p], [p]
        if op is sc.BRANCH:
            null, first, last = False, [], []
            for b in av[1]:
                n, f, l = self.seq(b)
                null = null or n
                first += f
                last += l
            return null, first, last
        if op is sc.SUBPATTERN:
            return self.seq(av[3])
        if op in REPEATS:
            lo, hi, body = av
            if hi is sc.MAXREPEAT or hi > 30:
                n, f, l = self.seq(body)
                self.join(l, f)
                return n or lo == 0, f, l
            null, first, last = True, [], []
            for i in range(min(hi, 4)):
                n, f, l = self.seq(body)
                n = n or i >= lo
                self.join(last, f)
                if null:
                    first = first + f
                last = last + l if n else l
                null = null and n
            return null, first, last
        if op is POSS:
            raise Unknown('possessive')
        if op is sc.AT:
            raise Unknown('anchor')
        raise Unknown(str(op))


def exponential(auto):
    """a set of characters on which the two ways part, or None"""
    succ = {}
    for (p, q), n in auto.edge.items():
        succ.setdefault(p, []).append((q, n))
    # strongly connected components of the automaton first: only within one can two ways meet again
    comp = scc(range(len(auto.cls)), lambda p: [q for q, _ in succ.get(p, ())])
    groups = {}
    for p, c in comp.items():
        groups.setdefault(c, []).append(p)
    for c, ps in groups.items():
        inner = {p: [(q, n) for q, n in succ.get(p, ()) if comp[q] == c] for p in ps}
        if not any(inner.values()):
            continue
        for p in ps:
            for q, n in inner[p]:
                if n > 1:
                    return auto.cls[q]                  # the same step in two ways, within a cycle
        if len(ps) > 400:
            raise Unknown('too large')

        def nxt(pq, inner=inner):
            p, q = pq
            out = []
            for a, _ in inner[p]:
                for b, _ in inner[q]:
                    if auto.cls[a] & auto.cls[b]:
                        out.append((a, b))
            return out
        seen = set((p, p) for p in ps)
        todo = list(seen)
        while todo:
            x = todo.pop()
            for y in nxt(x):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
            if len(seen) > 60000:
                raise Unknown('too large')
        pc = scc(seen, nxt)
        diag = {pc[x] for x in seen if x[0] == x[1]}
        for x in seen:
            if x[0] != x[1] and pc[x] in diag:
                return auto.cls[x[0]] & auto.cls[x[1]]
    return None


def scc(nodes, succ):
    idx, low, comp, st, on = {}, {}, {}, [], set()
    n = 0
    for r in nodes:
        if r in idx:
            continue
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        work = [(r, iter(succ(r)))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp[w] = idx[v]
                        if w == v:
                            break
    return comp


@functools.lru_cache(maxsize=None)
def verdict(pattern, flags=0, flavour='re'):
    """'no' | 'unknown: ..' | 'yes: ..' and the number of unbounded repeats looked at"""
    rx = R.get(pattern, flags, flavour)
    if isinstance(rx, R.RxError):
        return 'unknown: malformed', 0
    ls = list(loops(rx.tree))
    if not ls:
        return 'no', 0
    alpha = sorted(alphabet(rx.tree, set('a0 \n_!\u4e2d\u0301')))
    unknown = None
    for body, rest in ls:
        try:
            au = Auto(rx, alpha)
            n, f, l = au.seq(body)
            au.join(l, f)
            x = exponential(au)
        except Unknown as e:
            unknown = 'unknown: %s' % e
            continue
        if x:
            pump = frozenset().union(*au.cls)
            cf = can_fail(rx, rest, alpha, pump)
            if cf:
                return 'yes: a run of characters such as %s can be read in exponentially many ways' % ascii(min(x)), len(ls)
            if cf is None:
                unknown = 'unknown: ambiguous, but may not fail'
    return unknown or 'no', len(ls)
