"""Finite / co-finite sets of code points, kept as integer bit masks over an interned alphabet.

The mask of a co-finite set is the mask of its *complement*, so a character that is
interned later is correctly "in" every co-finite set created before it.
"""
import functools
import unicodedata

_INDEX = {}
_CHARS = []


def bit(c):
    i = _INDEX.get(c)
    if i is None:
        i = len(_CHARS)
        _INDEX[c] = i
        _CHARS.append(c)
    return 1 << i


@functools.lru_cache(maxsize=None)
def mask_of(s):
    m = 0
    for c in s:
        m |= bit(c)
    return m


def chars_of(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(_CHARS[i])
        m >>= 1
        i += 1
    return out


class CharSet:
    __slots__ = ('neg', 'mask')

    def __init__(self, neg, mask):
        self.neg = neg
        self.mask = mask

    def __eq__(self, o):
        return isinstance(o, CharSet) and self.neg == o.neg and self.mask == o.mask

    def __hash__(self):
        return hash((self.neg, self.mask))

    def __repr__(self):
        cs = chars_of(self.mask)
        body = ' '.join('%04X' % ord(c) for c in cs[:12]) + (' ..%d' % len(cs) if len(cs) > 12 else '')
        return ('~' if self.neg else '') + '{' + body + '}'

    def has(self, c):
        return bool(self.mask & bit(c)) != self.neg

    def has_all(self, s):
        m = mask_of(s)
        if self.neg:
            return not (self.mask & m)
        return (self.mask & m) == m

    def has_any_mask(self, m):
        if self.neg:
            return bool(m & ~self.mask)
        return bool(m & self.mask)

    def only_in(self, m):
        """self & finite mask m, as a finite mask."""
        if self.neg:
            return m & ~self.mask
        return m & self.mask

    def add_mask(self, m):
        if self.neg:
            return CharSet(True, self.mask & ~m) if self.mask & m else self
        return CharSet(False, self.mask | m) if m & ~self.mask else self

    def add_str(self, s):
        return self.add_mask(mask_of(s))

    def del_mask(self, m):
        if self.neg:
            return CharSet(True, self.mask | m) if m & ~self.mask else self
        return CharSet(False, self.mask & ~m) if self.mask & m else self

    def union(self, o):
        if self is o:
            return self
        if self.neg:
            if o.neg:
                return CharSet(True, self.mask & o.mask)
            return CharSet(True, self.mask & ~o.mask)
        if o.neg:
            return CharSet(True, o.mask & ~self.mask)
        return CharSet(False, self.mask | o.mask)

    def minus(self, o):
        if not o.neg:
            return self.del_mask(o.mask)
        # minus a co-finite set: what is left is inside o's finite complement
        return CharSet(False, self.only_in(o.mask))

    def inter(self, o):
        if not o.neg:
            return CharSet(False, self.only_in(o.mask))
        if not self.neg:
            return CharSet(False, self.mask & ~o.mask)
        return CharSet(True, self.mask | o.mask)

    def empty(self):
        return not self.neg and not self.mask

    def subset(self, o):
        return self.minus(o).empty()

    def chars(self):
        assert not self.neg
        return chars_of(self.mask)


EMPTY = CharSet(False, 0)
ALL = CharSet(True, 0)


@functools.lru_cache(maxsize=None)
def of(s):
    return CharSet(False, mask_of(s))


@functools.lru_cache(maxsize=None)
def _case_inert(c):
    """No other character maps to c under lower/upper/casefold/title."""
    return unicodedata.category(c) in ('Co', 'Cs', 'Cn', 'Mn', 'Mc', 'Nd', 'Lo', 'Lm', 'Po', 'Ps', 'Pe', 'Zs', 'Cc', 'Cf') \
        and c.lower() == c and c.upper() == c


def map_case(cs, fn):
    if not cs.neg:
        m = 0
        for c in chars_of(cs.mask):
            m |= mask_of(fn(c))
        return CharSet(False, m)
    keep = 0
    for c in chars_of(cs.mask):
        if _case_inert(c):
            keep |= bit(c)
    return CharSet(True, keep)


@functools.lru_cache(maxsize=None)
def _decomp_table():
    t = {}
    for cp in range(0x110000):
        if 0xAC00 <= cp <= 0xD7A3:
            continue
        c = chr(cp)
        d = unicodedata.decomposition(c)
        if d and not d.startswith('<'):
            t[c] = unicodedata.normalize('NFD', c)
    return t


@functools.lru_cache(maxsize=None)
def _norm_inert(c):
    return unicodedata.category(c) in ('Co', 'Cs', 'Cn')


@functools.lru_cache(maxsize=4096)
def normalize(form, cs):
    if cs.neg:
        keep = 0
        for c in chars_of(cs.mask):
            if _norm_inert(c):
                keep |= bit(c)
        return CharSet(True, keep)
    t = _decomp_table()
    m = 0
    for c in chars_of(cs.mask):
        m |= mask_of(unicodedata.normalize(form, c))
    if form in ('NFC', 'NFKC'):
        # a composed character can arise when its whole decomposition is available
        nfd = 0
        for c in chars_of(cs.mask):
            nfd |= mask_of(unicodedata.normalize('NFD', c))
        s = CharSet(False, nfd)
        for c, d in t.items():
            if s.has_all(d) and unicodedata.normalize('NFC', c) == c:
                m |= bit(c)
        m |= cs.mask & nfd
    return CharSet(False, m)
