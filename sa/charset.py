"""Sets of Unicode scalar values as sorted tuples of closed intervals."""
import functools
import sys
import unicodedata

MAX = 0x10FFFF
ALL = ((0, MAX),)
EMPTY = ()


def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def of(s):
    return norm([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return ((ord(a), ord(b)),)


@functools.lru_cache(None)
def union(a, b):
    if not a:
        return b
    if not b:
        return a
    return norm(a + b)


@functools.lru_cache(None)
def compl(a):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


@functools.lru_cache(None)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def diff(a, b):
    return inter(a, compl(b))


def size(a):
    return sum(h - l + 1 for l, h in a)


def has(a, c):
    return any(l <= c <= h for l, h in a)


def subset(a, b):
    return inter(a, b) == a


def pick(a):
    """A readable representative."""
    for pref in 'aAz0_ -+"\'\n.,()[]{}':
        if has(a, ord(pref)):
            return pref
    for l, h in a:
        if h >= 33 and l <= 126:
            return chr(max(l, 33))
    for l, h in a:
        if 0xD800 <= l <= 0xDFFF:
            if h > 0xDFFF:
                return chr(0xE000)
            continue
        return chr(l)
    return '?'


def minterms(sets):
    """Coarsest partition of ALL refining every set (list of charsets)."""
    cuts = {0}
    for s in sets:
        for lo, hi in s:
            cuts.add(lo)
            cuts.add(hi + 1)
    cuts = sorted(c for c in cuts if c <= MAX)
    groups = {}
    sets = list(dict.fromkeys(sets))
    # sweep
    ptr = [0] * len(sets)
    for k, c in enumerate(cuts):
        end = cuts[k + 1] - 1 if k + 1 < len(cuts) else MAX
        sig = []
        for n, s in enumerate(sets):
            while ptr[n] < len(s) and s[ptr[n]][1] < c:
                ptr[n] += 1
            if ptr[n] < len(s) and s[ptr[n]][0] <= c:
                sig.append(n)
        groups.setdefault(tuple(sig), []).append((c, end))
    return [norm(v) for v in groups.values()]


def show(a):
    if a == ALL:
        return 'ANY'
    c = compl(a)
    neg = ''
    if size(c) < size(a) and len(c) <= len(a) + 1:
        neg, a = '^', c

    def ch(x):
        if x in (10, 13, 9, 34, 39, 92):
            return repr(chr(x))[1:-1]
        return chr(x) if 32 <= x < 127 else '\\u{%x}' % x
    parts = []
    for lo, hi in a[:12]:
        parts.append(ch(lo) if lo == hi else (ch(lo) + ch(hi) if hi == lo + 1 else ch(lo) + '-' + ch(hi)))
    if len(a) > 12:
        parts.append('...')
    return '[' + neg + ''.join(parts) + ']'


@functools.lru_cache(None)
def by_pred(name):
    f = _PREDS[name]
    iv = []
    start = None
    for c in range(MAX + 1):
        if 0xD800 <= c <= 0xDFFF:
            ok = False
        else:
            ok = f(chr(c))
        if ok and start is None:
            start = c
        if not ok and start is not None:
            iv.append((start, c - 1))
            start = None
    if start is not None:
        iv.append((start, MAX))
    return tuple(iv)


_WS = set([9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000] + list(range(0x2000, 0x200B)))

_PREDS = {
    'alphabetic': lambda c: c.isalpha() or unicodedata.category(c) in ('Nl',),
    'numeric': lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No'),
    'Nd': lambda c: unicodedata.category(c) == 'Nd',
    'alphanumeric': lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'No'),
    'uppercase': lambda c: c.isupper() or unicodedata.category(c) == 'Lu',
    'lowercase': lambda c: c.islower() or unicodedata.category(c) == 'Ll',
    'whitespace': lambda c: ord(c) in _WS,
    'control': lambda c: unicodedata.category(c) == 'Cc',
    'word': lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'Pc', 'Mn', 'Mc', 'Me') or ord(c) in (0x200C, 0x200D),
}

DIGIT = rng('0', '9')
LOWER = rng('a', 'z')
UPPER = rng('A', 'Z')
ALPHA = norm(LOWER + UPPER)
ALNUM = norm(ALPHA + DIGIT)
HEX = norm(DIGIT + rng('a', 'f') + rng('A', 'F'))
