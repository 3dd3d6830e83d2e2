"""Parser for the regex crate's syntax (the part a lexer uses) and ordered
(leftmost-first) determinisation.

The result of compile(pattern) is a Dfa whose longest accepted prefix is the
text the leftmost-first regex would match when anchored at the start."""
import charset as cs


class RxError(Exception):
    pass


# AST: ('set', s) ('cat', [..]) ('alt', [..]) ('rep', node, min, max, greedy) ('start',) ('end',) ('empty',)

class P:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.flags = set()

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def next(self):
        c = self.peek()
        if c is None:
            raise RxError('unexpected end')
        self.i += 1
        return c

    def alt(self):
        alts = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            alts.append(self.cat())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def cat(self):
        xs = []
        while self.peek() not in (None, '|', ')'):
            a = self.atom()
            if a is None:
                continue
            while self.peek() in ('*', '+', '?', '{') and self.peek() is not None:
                c = self.next()
                if c == '{':
                    j = self.s.find('}', self.i)
                    if j < 0:
                        raise RxError('bad repetition')
                    body = self.s[self.i:j]
                    self.i = j + 1
                    try:
                        if ',' in body:
                            lo, hi = body.split(',')
                            mn = int(lo)
                            mx = int(hi) if hi else None
                        else:
                            mn = mx = int(body)
                    except ValueError:
                        raise RxError('bad repetition')
                else:
                    mn, mx = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
                greedy = True
                if self.peek() == '?':
                    self.i += 1
                    greedy = False
                if 'U' in self.flags:
                    greedy = not greedy
                a = ('rep', a, mn, mx, greedy)
            xs.append(a)
        if not xs:
            return ('empty',)
        return xs[0] if len(xs) == 1 else ('cat', xs)

    def atom(self):
        c = self.next()
        if c == '(':
            saved = set(self.flags)
            if self.peek() == '?':
                self.i += 1
                if self.peek() == ':':
                    self.i += 1
                elif self.peek() in ('P', '<'):
                    if self.peek() == 'P':
                        self.i += 1
                    if self.next() != '<':
                        raise RxError('bad group')
                    j = self.s.find('>', self.i)
                    if j < 0:
                        raise RxError('bad group name')
                    self.i = j + 1
                else:
                    on = True
                    while True:
                        f = self.next()
                        if f == '-':
                            on = False
                        elif f in 'imsUux':
                            if f in 'ix' and on:
                                if f == 'x':
                                    raise RxError('unsupported flag x')
                            (self.flags.add if on else self.flags.discard)(f)
                        elif f == ')':
                            return None
                        elif f == ':':
                            break
                        else:
                            raise RxError('bad flag')
            r = self.alt()
            if self.peek() != ')':
                raise RxError('missing )')
            self.i += 1
            self.flags = saved
            return r
        if c == ')':
            raise RxError('unbalanced )')
        if c in '*+?':
            raise RxError('dangling repetition')
        if c == '^':
            if 'm' in self.flags:
                raise RxError('multi-line ^ unsupported')
            return ('start',)
        if c == '$':
            if 'm' in self.flags:
                raise RxError('multi-line $ unsupported')
            return ('end',)
        if c == '.':
            return ('set', cs.ALL if 's' in self.flags else cs.compl(cs.of('\n')))
        if c == '[':
            return ('set', self.cls())
        if c == '\\':
            return self.escape()
        return ('set', self.fold(cs.of(c)))

    def fold(self, s):
        if 'i' not in self.flags:
            return s
        out = list(s)
        for lo, hi in s:
            for a, b in ((65, 90), (97, 122)):
                l, h = max(lo, a), min(hi, b)
                if l <= h:
                    d = 32 if a == 65 else -32
                    out.append((l + d, h + d))
        return cs.norm(out)

    def esc_set(self, c):
        if c == 'd':
            return cs.by_pred('Nd')
        if c == 'D':
            return cs.compl(cs.by_pred('Nd'))
        if c == 'w':
            return cs.by_pred('word')
        if c == 'W':
            return cs.compl(cs.by_pred('word'))
        if c == 's':
            return cs.by_pred('whitespace')
        if c == 'S':
            return cs.compl(cs.by_pred('whitespace'))
        return None

    def esc_char(self, c):
        m = {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', 'a': '\a'}
        if c in m:
            return m[c]
        if c == 'x' or c == 'u':
            if self.peek() == '{':
                j = self.s.find('}', self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
                return chr(v)
            n = 2 if c == 'x' else 4
            v = int(self.s[self.i:self.i + n], 16)
            self.i += n
            return chr(v)
        if not c.isalnum():
            return c
        raise RxError('unsupported escape \\%s' % c)

    def escape(self):
        c = self.next()
        s = self.esc_set(c)
        if s is not None:
            return ('set', s)
        if c == 'A':
            return ('start',)
        if c == 'z':
            return ('end',)
        if c in 'bBpP':
            raise RxError('unsupported escape \\%s' % c)
        return ('set', self.fold(cs.of(self.esc_char(c))))

    def cls(self):
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        out = cs.EMPTY
        first = True
        while True:
            c = self.next()
            if c == ']' and not first:
                break
            first = False
            if c == '[':
                if self.peek() == ':':
                    j = self.s.find(':]', self.i)
                    name = self.s[self.i + 1:j]
                    self.i = j + 2
                    table = {'alpha': cs.ALPHA, 'digit': cs.DIGIT, 'alnum': cs.ALNUM, 'lower': cs.LOWER,
                             'upper': cs.UPPER, 'space': cs.of(' \t\n\r\v\f'), 'xdigit': cs.HEX,
                             'word': cs.union(cs.ALNUM, cs.of('_'))}
                    if name not in table:
                        raise RxError('class %s' % name)
                    out = cs.union(out, table[name])
                else:
                    out = cs.union(out, self.cls())
                continue
            if c == '&' and self.peek() == '&':
                raise RxError('class intersection unsupported')
            if c in '-~' and self.peek() == c:
                raise RxError('class operator unsupported')
            if c == '\\':
                e = self.next()
                s = self.esc_set(e)
                if s is not None:
                    out = cs.union(out, s)
                    continue
                lo = self.esc_char(e)
            else:
                lo = c
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']':
                self.i += 1
                c2 = self.next()
                if c2 == '\\':
                    e = self.next()
                    if self.esc_set(e) is not None:
                        raise RxError('bad range')
                    hi = self.esc_char(e)
                elif c2 == '[':
                    raise RxError('bad range')
                else:
                    hi = c2
                if ord(lo) > ord(hi):
                    raise RxError('invalid range %s-%s' % (lo, hi))
                out = cs.union(out, ((ord(lo), ord(hi)),))
            else:
                out = cs.union(out, cs.of(lo))
        out = self.fold(out)
        return cs.compl(out) if neg else out


def parse(s):
    p = P(s)
    r = p.alt()
    if p.i != len(s):
        raise RxError('trailing input')
    return r


def anchored(n):
    """Every match must start at offset 0."""
    k = n[0]
    if k == 'start':
        return True
    if k == 'cat':
        for x in n[1]:
            if anchored(x):
                return True
            if x[0] not in ('empty',):
                return False
        return False
    if k == 'alt':
        return all(anchored(x) for x in n[1])
    if k == 'rep':
        return n[2] > 0 and anchored(n[1])
    return False


class Nfa:
    """Thompson NFA with prioritised epsilon edges."""

    def __init__(self):
        self.eps = []
        self.sets = []   # (set, target) or None
        self.kind = []   # None | 'start' | 'end' guards on the single eps edge

    def new(self):
        self.eps.append([])
        self.sets.append(None)
        self.kind.append(None)
        return len(self.eps) - 1

    def build(self, n, out):
        """State from which n is matched and then `out`."""
        k = n[0]
        if k == 'empty':
            return out
        if k == 'set':
            s = self.new()
            self.sets[s] = (n[1], out)
            return s
        if k == 'cat':
            for x in reversed(n[1]):
                out = self.build(x, out)
            return out
        if k == 'alt':
            s = self.new()
            self.eps[s] = [self.build(x, out) for x in n[1]]
            return s
        if k in ('start', 'end'):
            s = self.new()
            self.eps[s] = [out]
            self.kind[s] = k
            return s
        if k == 'rep':
            _, x, mn, mx, greedy = n
            if mx is None:
                loop = self.new()
                body = self.build(x, loop)
                self.eps[loop] = [body, out] if greedy else [out, body]
                cur = loop
            else:
                cur = out
                for _ in range(mx - mn):
                    s = self.new()
                    b = self.build(x, cur)
                    self.eps[s] = [b, out] if greedy else [out, b]
                    cur = s
            for _ in range(mn):
                cur = self.build(x, cur)
            return cur
        raise RxError('node ' + k)


class Dfa:
    """trans[state] = list of (charset, target); acc[state] bool."""

    def __init__(self, trans, acc, eof_acc=None):
        self.trans = trans
        self.acc = acc
        self.key = (tuple(tuple(t) for t in trans), tuple(acc))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key


def compile(pattern):
    ast = parse(pattern)
    nfa = Nfa()
    final = nfa.new()
    start = nfa.build(ast, final)

    def closure(states, at_start):
        order = []
        seen = set()

        def go(q):
            if q in seen:
                return
            seen.add(q)
            if nfa.kind[q] == 'start' and not at_start:
                return
            if nfa.kind[q] == 'end':
                raise RxError('$ unsupported')
            if q == final or nfa.sets[q] is not None:
                order.append(q)
            for t in nfa.eps[q]:
                go(t)
        for q in states:
            go(q)
        # leftmost-first: threads after a match are cut
        if final in order:
            order = order[:order.index(final) + 1]
        return tuple(order)

    s0 = closure([start], True)
    ids = {s0: 0}
    work = [s0]
    trans = []
    acc = []
    while work:
        st = work.pop(0)
        acc.append(final in st)
        edges = [nfa.sets[q] for q in st if nfa.sets[q] is not None]
        out = {}
        for m in cs.minterms([e[0] for e in edges]):
            tg = [e[1] for e in edges if cs.inter(e[0], m)]
            if not tg:
                continue
            nx = closure(list(dict.fromkeys(tg)), False)
            if not nx:
                continue
            if nx not in ids:
                ids[nx] = len(ids)
                work.append(nx)
            t = ids[nx]
            out[t] = cs.union(out.get(t, cs.EMPTY), m)
        trans.append([(s, t) for t, s in sorted(out.items())])
        if len(ids) > 5000:
            raise RxError('too many states')
    # drop states that cannot reach acceptance
    n = len(trans)
    live = set(i for i in range(n) if acc[i])
    ch = True
    while ch:
        ch = False
        for i in range(n):
            if i not in live and any(t in live for _, t in trans[i]):
                live.add(i)
                ch = True
    trans = [[(s, t) for s, t in trans[i] if t in live] for i in range(n)]
    return Dfa(trans, acc), anchored(ast)


def words(ws):
    """Exact DFA of a finite set of words."""
    states = {'': 0}
    trans = [{}]
    acc = [False]
    for w in ws:
        q = 0
        for c in w:
            if c not in trans[q]:
                trans.append({})
                acc.append(False)
                trans[q][c] = len(trans) - 1
            q = trans[q][c]
        acc[q] = True
    return Dfa([[(cs.of(c), t) for c, t in sorted(tr.items())] for tr in trans], acc)


def numeral(radix, signed, maxv, minv=0):
    """DFA of the strings Rust's integer parsing accepts for a type with range
    [minv, maxv]: optional sign, digits, no overflow."""
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix]

    def to_digits(v):
        o = []
        while v:
            o.append(v % radix)
            v //= radix
        return o[::-1]

    trans = []
    acc = []

    def new(a):
        trans.append({})
        acc.append(a)
        return len(trans) - 1

    def dset(lo, hi):
        s = cs.EMPTY
        for d in range(lo, hi + 1):
            s = cs.union(s, cs.of(digs[d] + digs[d].upper()))
        return s

    # simple and exact: product construction over (significant digits read,
    # comparison with the limit's prefix of the same length)
    def build(limit):
        ds = to_digits(limit)
        n = len(ds)
        zero = new(True)
        st = {}

        def state(k, c):
            if (k, c) in st:
                return st[(k, c)]
            s = new(not (k == n and c > 0))
            st[(k, c)] = s
            if k < n:
                for d in range(radix):
                    if c != 0:
                        c2 = c
                    else:
                        c2 = (d > ds[k]) - (d < ds[k])
                    if k + 1 == n and c2 > 0:
                        continue
                    t = state(k + 1, c2)
                    trans[s][t] = cs.union(trans[s].get(t, cs.EMPTY), dset(d, d))
            return s
        trans[zero][zero] = dset(0, 0)
        first = new(False)
        trans[first][zero] = dset(0, 0)
        for d in range(1, radix):
            if n == 0:
                break
            c = (d > ds[0]) - (d < ds[0])
            if n == 1 and c > 0:
                continue
            t = state(1, c)
            for src in (zero, first):
                trans[src][t] = cs.union(trans[src].get(t, cs.EMPTY), dset(d, d))
        return first

    root = new(False)
    f = build(maxv)
    for t, s in list(trans[f].items()):
        trans[root][t] = s
    trans[root][f] = cs.of('+')
    if signed:
        g = build(-minv)
        trans[root][g] = cs.of('-')
    return Dfa([[(s, t) for t, s in sorted(tr.items())] for tr in trans], acc), root


def numeral_dfa(radix, signed, maxv, minv=0):
    d, root = numeral(radix, signed, maxv, minv)
    # renumber so that root is state 0
    order = [root]
    ids = {root: 0}
    trans, acc = [], []
    i = 0
    while i < len(order):
        q = order[i]
        i += 1
        tr = []
        for s, t in d.trans[q]:
            if t not in ids:
                ids[t] = len(order)
                order.append(t)
            tr.append((s, ids[t]))
        trans.append(tr)
        acc.append(d.acc[q])
    return Dfa(trans, acc)


def accepts(d, s):
    q = 0
    for c in s:
        for st, t in d.trans[q]:
            if cs.has(st, ord(c)):
                q = t
                break
        else:
            return False
    return d.acc[q]


if __name__ == '__main__':
    d = numeral_dfa(16, False, 255)
    for w in ['', '+', '0', 'ff', 'FF', '100', '0ff', '00100', '+f', '-1', 'g', '1']:
        print(w, accepts(d, w))
    d = numeral_dfa(10, True, 2**63 - 1, -2**63)
    for w in ['9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '0', '-', '00009223372036854775807', '99']:
        print(w, accepts(d, w))
    d, a = compile(r'^(\\\\|\\"|[^"\n])*')
    print(a, len(d.trans), accepts(d, 'ab\\"'), accepts(d, '\\'))
    for s in d.trans: print([(cs.show(x), t) for x, t in s])
