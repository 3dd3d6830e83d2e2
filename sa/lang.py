"""From parser traces to boolean automata, and the equivalence check.

A rule (see ev.Rule) is a finite set of exclusive outcomes.  Each outcome is
compiled to a graph of Nodes: what is consumed, what is looked at, which
numbers are tested, and which part of the resulting value every consumed
character ends up in.  Other rules are entered through 'call' nodes; the rules
given as `cut` are letters of the alphabet instead.

compare(a, b) decides, by coinduction on pairs of residual states (antichain
free bisimulation of deterministic alternating automata), whether two rules
accept the same inputs with the same end, the same value and the same number
results, for every input."""
import time

import charset as cs
from val import *

NL = ord('\n')
SP = ord(' ')


class LangError(Exception):
    pass


# ======================================================================
# BDDs over look atoms
# ======================================================================

class Bdd:
    def __init__(self):
        self.nodes = [None, None]      # 0 = false, 1 = true
        self.tab = {}
        self.memo = {}
        self.deadline = None

    def mk(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        r = self.tab.get(k)
        if r is None:
            r = len(self.nodes)
            if r & 1023 == 0 and self.deadline is not None and time.time() > self.deadline:
                raise LangError('out of time')
            self.nodes.append(k)
            self.tab[k] = r
        return r

    def var(self, v):
        return self.mk(v, 1, 0)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nd = self.nodes
        v = nd[f][0]
        if g > 1 and nd[g][0] < v:
            v = nd[g][0]
        if h > 1 and nd[h][0] < v:
            v = nd[h][0]

        def cof(x, b):
            if x > 1 and nd[x][0] == v:
                return nd[x][1] if b else nd[x][2]
            return x
        r = self.mk(v, self.ite(cof(f, 1), cof(g, 1), cof(h, 1)),
                    self.ite(cof(f, 0), cof(g, 0), cof(h, 0)))
        self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def support(self, f):
        seen = set()
        out = set()
        st = [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, h, l = self.nodes[x]
            out.add(v)
            st.append(h)
            st.append(l)
        return out

    def subst(self, f, m):
        """Replace every variable v by m(v)."""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            r = memo.get(x)
            if r is None:
                v, h, l = self.nodes[x]
                r = self.ite(m(v), go(h), go(l))
                memo[x] = r
            return r
        return go(f)


# ======================================================================
# Numbers: difference constraints over registers
# ======================================================================

class Decide(Exception):
    def __init__(self, lin, op):
        self.lin = lin
        self.op = op


def lin_vars(l):
    return [a for a, _ in l[1]]


class Cons:
    """Closed set of x - y >= c over '0' and registers (all registers >= 0)."""
    __slots__ = ('d', 'key')

    def __init__(self, d):
        self.d = d
        self.key = frozenset(d.items())

    def vars(self):
        return set(x for p in self.d for x in p if x != '0')

    def get(self, x, y):
        if x == y:
            return 0
        v = self.d.get((x, y))
        if y == '0' and (v is None or v < 0):
            v = 0
        return v

    def add(self, x, y, c):
        """x - y >= c; None when inconsistent."""
        vs = self.vars() | {x, y}
        vs.add('0')
        d = {}
        for a in vs:
            for b in vs:
                if a != b:
                    v = self.get(a, b)
                    if v is not None:
                        d[(a, b)] = v
        d[(x, y)] = max(d.get((x, y), c), c)
        for a in vs:
            for b in vs:
                if a == b:
                    continue
                l = 0 if a == x else d.get((a, x))
                r = 0 if y == b else d.get((y, b))
                if l is None or r is None:
                    continue
                w = l + d[(x, y)] + r
                if d.get((a, b)) is None or d[(a, b)] < w:
                    d[(a, b)] = w
        for a in vs:
            for b in vs:
                if a != b and (a, b) in d and (b, a) in d and d[(a, b)] + d[(b, a)] > 0:
                    return None
        return Cons({k: v for k, v in d.items() if not (k[1] == '0' and v == 0)})

    def project(self, keep):
        return Cons({k: v for k, v in self.d.items()
                     if (k[0] == '0' or k[0] in keep) and (k[1] == '0' or k[1] in keep)})


def diff_form(l):
    """(x, y, k) when l = x - y + k."""
    t = l[1]
    if len(t) == 0:
        return '0', '0', l[2]
    if len(t) == 1:
        if t[0][1] == 1:
            return t[0][0], '0', l[2]
        if t[0][1] == -1:
            return '0', t[0][0], l[2]
    if len(t) == 2:
        (a, ca), (b, cb) = t
        if ca == 1 and cb == -1:
            return a, b, l[2]
        if ca == -1 and cb == 1:
            return b, a, l[2]
    return None


def decide(l, op, C):
    """Truth of  l op 0  under C, or raise Decide."""
    f = diff_form(l)
    if f is None:
        raise LangError('number test outside difference logic')
    x, y, k = f
    if x == y:
        return k == 0 if op == '==' else k >= 0
    lo = C.get(x, y)          # x - y >= lo
    hi = C.get(y, x)          # y - x >= hi  =>  x - y <= -hi
    if op == '>=':
        if lo is not None and lo + k >= 0:
            return True
        if hi is not None and -hi + k < 0:
            return False
    else:
        if lo is not None and hi is not None and lo == -hi == -k:
            return True
        if lo is not None and lo + k > 0:
            return False
        if hi is not None and -hi + k < 0:
            return False
    raise Decide(l, op)


def forks(C, l, op):
    x, y, k = diff_form(l)
    out = []
    if op == '>=':
        out.append(C.add(x, y, -k))
        out.append(C.add(y, x, k + 1))
    else:
        e = C.add(x, y, -k)
        if e is not None:
            e = e.add(y, x, k)
        out.append(e)
        out.append(C.add(x, y, -k + 1))
        out.append(C.add(y, x, k + 1))
    return [c for c in out if c is not None]


# ======================================================================
# Compilation of traces
# ======================================================================

class Node:
    n = 0
    __slots__ = ('id', 'tests', 'looks', 'eofs', 'marks', 'kind', 'data', 'labels', 'nxt', 'live', 'bind')

    def __init__(self, kind, data=None, nxt=None):
        Node.n += 1
        self.id = Node.n
        self.kind = kind
        self.data = data
        self.nxt = nxt
        self.tests = ()
        self.looks = ()
        self.eofs = ()
        self.marks = ()
        self.labels = frozenset()
        self.live = frozenset()
        self.bind = None


class Caps:
    def __init__(self):
        self.labels = {}
        self.demands = {}
        self.marks = {}
        self.subs = {}

    def sub(self, L):
        if L not in self.subs:
            self.subs[L] = Caps()
        return self.subs[L]


class T:
    """A stretch of a trace."""

    def __init__(self, facts, poss, refine, loopmap):
        self.facts, self.poss, self.refine, self.loopmap = list(facts), list(poss), refine, loopmap


def alt_T(a):
    return T(a.facts, a.poss, a.refine, a.loopmap)


def br_T(b):
    return T(b.facts(), b.poss(), b.st.refine, b.st.loopmap)


def parent_chain(p):
    out = [p]
    while p.parent is not None:
        p = p.parent
        out.append(p)
    return out


def lca(ps):
    ps = list(ps)
    anc = parent_chain(ps[0])
    for p in ps[1:]:
        s = set(parent_chain(p))
        anc = [x for x in anc if x in s]
    return anc[0] if anc else None


def chain(p, q):
    out = []
    while q is not p:
        if q is None:
            return None
        out.append(q)
        q = q.parent
    out.reverse()
    return out


def test_positions(lin):
    out = []
    for a, _ in lin[1]:
        if a[0] == 'addr':
            out.append(a[1])
    return out


def is_value(v):
    return isinstance(v, tuple) and v and isinstance(v[0], str)


class Compiler:
    def __init__(self, spine):
        self.spine = spine            # (adt path, variant) -> accumulator field
        self.memo = {}
        self.callpos = {}
        self.hctab = {}
        self.keepalive = []

    # ---- helpers on loops -------------------------------------------------
    def pieces(self, lm, L):
        if L not in lm:
            return [('star', L)]
        out = []
        for k, o in lm[L]:
            if k == 'star':
                out.extend(self.pieces(lm, o))
            else:
                out.append((k, o))
        return out

    def segs(self, lm, segs):
        out = []
        for sg in segs:
            if sg[0] != 's':
                out.append(sg)
                continue
            _, L, slot, rev = sg
            if L not in lm:
                out.append(sg)
                continue
            part = []
            for k, o in self.pieces(lm, L):
                if k == 'star':
                    part.append([('s', o, slot, rev)])
                else:
                    vs = list(self.segs(lm, o.pushes.get(slot, ())))
                    if rev:
                        vs = [(s if s[0] != 's' else ('s', s[1], s[2], not s[3])) for s in reversed(vs)]
                    part.append(vs)
            if rev:
                part.reverse()
            for p in part:
                out.extend(p)
        return tuple(out)

    # ---- linear order of a trace -------------------------------------------
    def linear(self, t, start, end):
        """Positions in input order, iterations picked out of loops included."""
        out = [start]
        c = chain(start, end)
        if c is None:
            raise LangError('end is not reached from start')
        for q in c:
            if q.ev[0] == 'star':
                for k, o in self.pieces(t.loopmap, q.ev[1]):
                    if k == 'inst':
                        out.extend(self.linear(t, o.start, o.end))
            out.append(q)
        return out

    # ---- rules --------------------------------------------------------------
    def rule(self, r, demands, needs):
        k = (id(r), demands, needs)
        if k in self.memo:
            return self.memo[k][1]
        outs = []
        for st, q, v in r.outs:
            outs.extend(self.outcome(r, st, q, v, demands, needs))
        self.memo[k] = (r, outs)
        return outs

    def outcome(self, r, st, q, v, demands, needs):
        t = T(st.facts, [p for p in st.poss if p is not r.root], st.refine, st.loopmap)
        res = []
        for t2, v2 in self.split_folds(t, v):
            v3 = self.norm(t2, v2, r.root, q)
            caps = Caps()
            order = {p: i for i, p in enumerate(self.linear(t2, r.root, q))}
            ret = Node('ret')
            shapes = []
            for pi, proj in demands:
                sub = self.project(v3, proj)
                self.assign(t2, sub, pi, caps, order, q)
                shapes.append((proj, sub, pi))
            nums = []
            for proj in needs:
                sub = self.project(v3, proj)
                if sub[0] == 'sym':
                    sub = ('lin', ((('num', sub[1], sub[2]), 1),), 0)
                if sub[0] != 'lin':
                    raise LangError('result is not a number')
                nums.append((proj, self.lin(t2, sub)))
            ret.data = (tuple(shapes), tuple(nums), t2)
            live = set()
            for _, s, _ in shapes:
                live |= self.value_uses(t2, s)
            for _, n in nums:
                live |= self.lin_uses(n)
            ret.live = frozenset(live)
            res.append(self.build(t2, r.root, q, caps, ret, []))
        return res

    def project(self, v, path):
        for i in path:
            if v[0] == 'sym':
                v = ('sym', v[1], v[2] + (i,))
            elif v[0] == 'tup':
                v = v[1][i]
            elif v[0] == 'adt':
                v = v[3][i]
            elif v[0] in ('str', 'lin') and i == 0:
                pass
            else:
                raise LangError('projection of %s' % v[0])
        return v

    # ---- numbers --------------------------------------------------------------
    def offset(self, t, p):
        """(base position, lin) of an address."""
        l = num(0)
        while p.parent is not None:
            l = lin_add(l, self.evlen(t, p))
            p = p.parent
        return p, l

    def evlen(self, t, q):
        ev = q.ev
        r = t.refine.get(q)
        if ev[0] == 'lit':
            return num(len(ev[1].encode('utf8')))
        if ev[0] == 'ch':
            s = r if r is not None else cs.ALL
            if s and s[-1][1] < 0x80:
                return num(1)
        if ev[0] == 'many' and r == 'empty':
            return num(0)
        if ev[0] == 're' and r == 'empty':
            return num(0)
        if ev[0] == 'many' and ev[1] == cs.of(' ') and self.after_nl(t, q.parent):
            return atom('w', q)
        if ev[0] == 'alt':
            ls = []
            for b in ev[1]:
                c = chain(q.parent, b.end)
                if c is None:
                    return atom('len', q)
                l = num(0)
                for x in c:
                    l = lin_add(l, self.evlen(br_T(b), x))
                ls.append(l)
            if ls and all(l == ls[0] for l in ls):
                return ls[0]
        return atom('len', q)

    def after_nl(self, t, p):
        if p is None:
            return False
        ev = p.ev
        if ev[0] == 'lit':
            return ev[1].endswith('\n')
        if ev[0] == 'ch':
            return t.refine.get(p) == cs.of('\n')
        return False

    def lin(self, t, l):
        """Canonical form: addresses become event lengths."""
        out = ('lin', (), l[2])
        bases = {}
        for a, c in l[1]:
            if a[0] == 'addr':
                b, o = self.offset(t, a[1])
                bases[b] = bases.get(b, 0) + c
                out = lin_add(out, o, c)
            elif a[0] == 'num':
                out = lin_add(out, ('lin', ((('n', a[1], a[2]), 1),), 0), c)
            elif a[0] == 'param':
                out = lin_add(out, ('lin', ((('p', a[1]), 1),), 0), c)
            elif a[0] in ('w', 'n', 'p'):
                out = lin_add(out, ('lin', ((a, 1),), 0), c)
            else:
                raise LangError('number depends on %s' % (a[0],))
        if any(bases.values()):
            raise LangError('number depends on an absolute address')
        return out

    def lin_uses(self, l):
        out = set()
        for a, _ in l[1]:
            if a[0] == 'len':
                raise LangError('number depends on the length of a text')
            out.add(a)
        return out

    # ---- values ----------------------------------------------------------------
    def split_folds(self, t, v):
        """Resolve folds to spines; a fold that may run zero times is split."""
        folds = []

        def find(x):
            if not is_value(x):
                if isinstance(x, tuple):
                    for y in x:
                        find(y)
                return
            if x[0] == 'fold':
                folds.append(x)
            for y in x[1:]:
                if isinstance(y, tuple):
                    find(y)
        find(v)
        if not folds:
            return self.split_rev(t, self.flat(t, v))
        outs = [(t, v)]
        for f in folds:
            nx = []
            for t1, v1 in outs:
                ps = self.pieces(t1.loopmap, f[1])
                if ps and all(k == 'star' for k, _ in ps):
                    # zero iterations
                    if len(ps) == 1:
                        lm = dict(t1.loopmap)
                        lm[ps[0][1]] = ()
                        nx.append((T(t1.facts, t1.poss, t1.refine, lm), v1))
                        # at least one: keep the star, but require an iteration
                        L = ps[0][1]
                        for k in range(len(L.alts)):
                            t2 = self.peel(t1, L, k, f[4])
                            nx.append((t2, v1))
                        continue
                    raise LangError('fold over several loops')
                nx.append((t1, v1))
            outs = nx
        return [x for t1, v1 in outs for x in self.split_rev(t1, self.flat(t1, v1))]

    def split_rev(self, t, v):
        """Reversed order only shows from two elements on: split until there
        are two, or none can follow."""
        hit = []

        def find(x):
            if not isinstance(x, tuple) or hit:
                return
            if is_value(x) and (x[0] == 'seq' or (x[0] == 'spine' and len(x) == 5)):
                sg = self.segs(t.loopmap, x[1] if x[0] == 'seq' else x[4])
                rs = [s for s in sg if s[0] == 's' and s[3]]
                if rs and sum(1 for s in sg if s[0] == 'e') < 2:
                    hit.append(rs[0][1])
                    return
            for y in x:
                find(y)
        find(v)
        if not hit:
            return [(t, v)]
        L = hit[0]
        lm = dict(t.loopmap)
        lm[L] = ()
        out = [(T(t.facts, t.poss, t.refine, lm), v)]
        for k in range(len(L.alts)):
            out.extend(self.split_rev(self.peel(t, L, k, False), v))
        return out

    def peel(self, t, L, k, rev):
        from ev import clone_alt
        a = L.alts[k]
        m = {}
        start = Pos(None, ('inststart',))
        m[L.start] = start
        na = clone_alt(a, m)
        na.start = start
        r = dict(t.refine)
        r.update(na.refine)
        lm = dict(t.loopmap)
        lm.update(na.loopmap)
        rest = Loop()
        rest.start, rest.where, rest.alts = L.start, L.where, L.alts
        lm[L] = (('inst', na), ('star', rest))
        return T(list(t.facts) + list(na.facts), list(t.poss) + [start] + list(na.poss), r, lm)

    def flat(self, t, v):
        """Folds and explicit nestings of spine constructors become spines."""
        if not is_value(v):
            return tuple(self.flat(t, x) for x in v) if isinstance(v, tuple) else v
        k = v[0]
        if k == 'fold':
            _, L, cell, init, rev = v
            base = self.flat(t, init)
            segs = []
            ps = self.pieces(t.loopmap, L)
            if rev:
                ps = list(reversed(ps))
            ctor = None
            for kk, o in ps:
                if kk == 'inst':
                    c, i, e = self.step(t, o.steps[cell])
                    segs.append(('e', e))
                else:
                    slot = ('spine', cell)
                    c = i = None
                    for a in o.alts:
                        c2, i2, e = self.step(t, a.steps[cell])
                        if c is not None and (c, i) != (c2, i2):
                            raise LangError('fold builds different constructors')
                        c, i = c2, i2
                        a.pushes[slot] = (('e', e),)
                    if c is None:
                        continue
                    segs.append(('s', o, slot, rev))
                if ctor is not None and ctor != (c, i):
                    raise LangError('fold builds different constructors')
                ctor = (c, i)
            if not segs:
                return base
            return self.mkspine(ctor[0], ctor[1], base, segs)
        if k == 'adt':
            fs = tuple(self.flat(t, x) for x in v[3])
            acc = self.spine.get((v[1], v[2]))
            if acc is not None:
                e = ('tup', tuple(f for i, f in enumerate(fs) if i != acc))
                return self.mkspine((v[1], v[2]), acc, fs[acc], [('e', e)])
            return ('adt', v[1], v[2], fs)
        if k == 'seq':
            return ('seq', tuple(('e', self.flat(t, s[1])) if s[0] == 'e' else s for s in self.segs(t.loopmap, v[1])))
        return (k,) + tuple(self.flat(t, x) if isinstance(x, tuple) else x for x in v[1:])

    def step(self, t, v):
        if v[0] != 'adt':
            raise LangError('fold step is not a constructor')
        i = [j for j, f in enumerate(v[3]) if f[0] == 'acc']
        if len(i) != 1:
            raise LangError('fold step does not wrap its accumulator once')
        e = ('tup', tuple(self.flat(t, f) for j, f in enumerate(v[3]) if j != i[0]))
        return (v[1], v[2]), i[0], e

    def mkspine(self, ctor, acc, base, segs):
        if base[0] == 'spine' and base[1] == ctor and base[2] == acc:
            return ('spine', ctor, acc, base[3], base[4] + tuple(segs))
        return ('spine', ctor, acc, base, tuple(segs))

    def fixed_runs(self, t, start, end):
        """Maximal runs of fixed text on the chain: [(text, [positions before each char.. end])]."""
        runs = []
        cur = ''
        ps = [start]
        for q in chain(start, end) or ():
            s = None
            if q.ev[0] == 'lit':
                s = q.ev[1]
            elif q.ev[0] == 'ch':
                r = t.refine.get(q)
                if r is not None and cs.size(r) == 1:
                    s = chr(r[0][0])
            if s is None:
                if cur:
                    runs.append((cur, ps))
                cur, ps = '', [q]
            else:
                cur += s
                ps = ps + [None] * (len(s) - 1) + [q]
        if cur:
            runs.append((cur, ps))
        return runs

    def find_fixed(self, t, start, end, s):
        hits = []
        for text_, ps in self.fixed_runs(t, start, end):
            i = text_.find(s)
            while i >= 0:
                a, b = ps[i], ps[i + len(s)]
                if a is not None and b is not None:
                    hits.append((a, b))
                else:
                    hits.append(None)
                i = text_.find(s, i + 1)
        if len(hits) == 1 and hits[0] is not None:
            return hits[0]
        return None

    def norm(self, t, v, start, end):
        """Verbatim text is recognised however it was put together."""
        if not is_value(v):
            return tuple(self.norm(t, x, start, end) for x in v) if isinstance(v, tuple) else v
        if v[0] == 'str':
            ps = []
            for p in v[1]:
                if p[0] == 'v' and p[1][0] == 'chr':
                    p = ('t', p[1][1].parent, p[1][1])
                elif p[0] == 'v' and p[1][0] == 'str':
                    w = self.norm(t, p[1], start, end)
                    ps.extend(w[1])
                    continue
                elif p[0] == 'v':
                    p = ('v', self.norm(t, p[1], start, end))
                if p[0] == 't' and p[1] is p[2]:
                    continue
                ps.append(p)
            # glue literals to neighbouring text
            ch = True
            while ch:
                ch = False
                for i in range(len(ps) - 1):
                    a, b = ps[i], ps[i + 1]
                    if a[0] == 'l' and b[0] == 'l':
                        ps[i:i + 2] = [('l', a[1] + b[1])]
                        ch = True
                        break
                    if a[0] == 't' and b[0] == 't' and a[2] is b[1]:
                        ps[i:i + 2] = [('t', a[1], b[2])]
                        ch = True
                        break
                    if a[0] == 't' and b[0] == 'l' and a[2] is not None:
                        q = self.extend(t, start, end, a[2], b[1], True)
                        if q is not None:
                            ps[i:i + 2] = [('t', a[1], q)]
                            ch = True
                            break
                    if a[0] == 'l' and b[0] == 't':
                        q = self.extend(t, start, end, b[1], a[1], False)
                        if q is not None:
                            ps[i:i + 2] = [('t', q, b[2])]
                            ch = True
                            break
            if len(ps) == 1 and ps[0][0] == 'l':
                h = self.find_fixed(t, start, end, ps[0][1])
                if h is not None:
                    ps = [('t', h[0], h[1])]
            return ('str', tuple(ps))
        if v[0] == 'chrlit':
            h = self.find_fixed(t, start, end, v[1])
            if h is not None and h[1].parent is h[0] and h[1].ev[0] == 'ch':
                return ('chr', h[1])
            return v
        return (v[0],) + tuple(self.norm(t, x, start, end) if isinstance(x, tuple) else x for x in v[1:])

    def extend(self, t, start, end, p, s, fwd):
        """Position reached from p by fixed events spelling s."""
        ch = chain(start, end) or []
        allp = [start] + ch
        if p not in allp:
            return None
        i = allp.index(p)
        cur = ''
        while cur != s:
            if fwd:
                i += 1
                if i >= len(allp):
                    return None
                q = allp[i]
            else:
                if i == 0:
                    return None
                q = allp[i]
                i -= 1
            x = None
            if q.ev[0] == 'lit':
                x = q.ev[1]
            elif q.ev[0] == 'ch':
                r = t.refine.get(q)
                if r is not None and cs.size(r) == 1:
                    x = chr(r[0][0])
            if x is None:
                return None
            cur = cur + x if fwd else x + cur
            if not (s.startswith(cur) if fwd else s.endswith(cur)):
                return None
        return allp[i]

    def seg_order(self, t, segs, order):
        """'' when the elements are in input order, 'rev' when reversed."""
        idx = []
        for s in segs:
            if s[0] == 'e':
                l = self.leaf_range(t, s[1], order)
                if l is not None:
                    idx.append((l[0], None))
            else:
                i = None
                for q, n in order.items():
                    if q.ev[0] == 'star' and any(k == 'star' and o is s[1] for k, o in self.pieces(t.loopmap, q.ev[1])):
                        i = n
                        # several pieces of one loop: order by piece
                        sub = [o for k, o in self.pieces(t.loopmap, q.ev[1])]
                        i = n - 1 + (1 + sub.index(s[1])) / (len(sub) + 2.0)
                        prev = [o for o in sub[:sub.index(s[1])] if hasattr(o, 'end') and o.end in order]
                        nxt = [o for o in sub[sub.index(s[1]):] if hasattr(o, 'end') and o.end in order]
                        if prev:
                            i = order[prev[-1].end] + 0.5
                        elif nxt:
                            i = order[nxt[0].start] - 0.5
                idx.append((i if i is not None else -1, s[3]))
        nums = [i for i, _ in idx]
        if all(a <= b for a, b in zip(nums, nums[1:])) and not any(r for _, r in idx):
            return ''
        if all(a >= b for a, b in zip(nums, nums[1:])) and all(r is None or r for _, r in idx):
            return 'rev'
        return 'perm'

    def leaf_range(self, t, v, order):
        ls = []

        def at(q):
            if q in order:
                ls.append(order[q])

        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if isinstance(x[0], str):
                if x[0] == 't':
                    at(x[1])
                    if x[2] is not None:
                        at(x[2])
                    return
                if x[0] == 'chr':
                    at(x[1])
                    return
                if x[0] == 'sym':
                    for q in order:
                        if q.ev[0] == 'call' and q.ev[1] is x[1]:
                            at(q)
                    return
                if x[0] == 's':
                    for q in order:
                        if q.ev[0] == 'star' and any(o is x[1] for _, o in self.pieces(t.loopmap, q.ev[1])):
                            at(q)
                    return
            for y in x:
                go(y)
        go(v)
        if not ls:
            return None
        return min(ls), max(ls)

    def star_caps(self, t, caps, L):
        return caps.sub(L)

    def assign(self, t, v, pi, caps, order, end):
        """Distribute what value v at path pi needs over the trace."""
        if not isinstance(v, tuple):
            return
        k = v[0] if is_value(v) else None
        if k == 'str':
            if len(v[1]) == 1:
                self.assign_piece(t, v[1][0], pi, caps, order, end)
            else:
                for i, p in enumerate(v[1]):
                    self.assign_piece(t, p, pi + (('part', i),), caps, order, end)
            return
        if k == 'chr':
            caps.labels.setdefault(v[1], set()).add(pi)
            return
        if k == 'sym':
            caps.demands.setdefault(v[1], [])
            if (pi, v[2]) not in caps.demands[v[1]]:
                caps.demands[v[1]].append((pi, v[2]))
            return
        if k == 'seq' or k == 'spine':
            segs = self.segs(t.loopmap, v[1] if k == 'seq' else v[4])
            if k == 'spine':
                self.assign(t, v[3], pi + ('base',), caps, order, end)
            o = self.seg_order(t, segs, order)
            for i, sg in enumerate(segs):
                ep = pi + ('*',) + ((i,) if o == 'perm' else ())
                if sg[0] == 'e':
                    self.assign(t, sg[1], ep, caps, order, end)
                    r = self.leaf_range(t, sg[1], order)
                    at = end
                    if r is not None:
                        at = [q for q, n in order.items() if n == r[1]][0]
                    else:
                        # no leaves: right after what comes before it
                        for sp in reversed(segs[:i]):
                            r = self.leaf_range(t, sp, order)
                            if r is not None:
                                at = [q for q, n in order.items() if n == r[1]][0]
                                break
                    caps.marks.setdefault(at, []).append((ep, sg[1]))
                elif sg[0] == 's':
                    L, slot = sg[1], sg[2]
                    sub = caps.sub(L)
                    for a in L.alts:
                        ta = alt_T(a)
                        ao = {p: n for n, p in enumerate(self.linear(ta, L.start, a.end))}
                        for e in a.pushes.get(slot, ()):
                            if e[0] != 'e':
                                raise LangError('nested list in a loop')
                            ev_ = self.norm(ta, self.flat(ta, e[1]), L.start, a.end)
                            self.assign(ta, ev_, ep, sub, ao, a.end)
                            r = self.leaf_range(ta, ev_, ao)
                            at = a.end if r is None else [q for q, n in ao.items() if n == r[1]][0]
                            sub.marks.setdefault(at, []).append((ep, ev_))
                else:
                    raise LangError('unfinished list in a value')
            return
        if k == 'adt':
            for i, f in enumerate(v[3]):
                self.assign(t, f, pi + (i,), caps, order, end)
            return
        if k == 'tup':
            for i, f in enumerate(v[1]):
                self.assign(t, f, pi + (i,), caps, order, end)
            return
        if k in ('lin', 'bool', 'opq', 'chrlit'):
            return
        if k == 'fold' or k == 'acc':
            raise LangError('unfinished accumulator in a value')
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                self.assign(t, x, pi + (i,), caps, order, end)

    def assign_piece(self, t, p, pi, caps, order, end):
        if p[0] == 't':
            c = chain(p[1], p[2]) if p[2] is not None else None
            if c is None:
                raise LangError('text does not lie on the trace')
            for q in c:
                caps.labels.setdefault(q, set()).add(pi)
        elif p[0] == 'v':
            self.assign(t, p[1], pi, caps, order, end)

    def shape(self, t, v, sym, lin):
        """Structure of a value with its leaves abstracted."""
        k = v[0] if is_value(v) else None
        if k == 'str':
            ps = v[1]
            if not ps:
                return ('T',)
            if len(ps) == 1 and ps[0][0] == 't':
                return ('T',)
            if len(ps) == 1 and ps[0][0] == 'l':
                return ('lit', ps[0][1])
            return ('TT',) + tuple('T' if p[0] == 't' else p[1] if p[0] == 'l' else self.shape(t, p[1], sym, lin) for p in ps)
        if k == 'chr':
            return ('C',)
        if k == 'chrlit':
            return ('c', v[1])
        if k == 'sym':
            return sym(v)
        if k == 'seq':
            segs = self.segs(t.loopmap, v[1])
            return ('LIST', self.cur_order(t, segs))
        if k == 'spine':
            segs = self.segs(t.loopmap, v[4])
            return ('SPINE', v[1], v[2], self.cur_order(t, segs), self.shape(t, v[3], sym, lin))
        if k == 'adt':
            return ('A', v[1], v[2]) + tuple(self.shape(t, f, sym, lin) for f in v[3])
        if k == 'tup':
            return ('TUP',) + tuple(self.shape(t, f, sym, lin) for f in v[1])
        if k == 'lin':
            return ('N', lin(v))
        if k == 'bool':
            return ('B', v[1])
        if k == 'opq':
            return ('OPQ', repr(v[1:]))
        if k is None:
            return tuple(self.shape(t, x, sym, lin) if isinstance(x, tuple) else x for x in v)
        return ('K', k) + tuple(self.shape(t, x, sym, lin) if isinstance(x, tuple) else
                                (x if not isinstance(x, Obj) else '?') for x in v[1:])

    def cur_order(self, t, segs):
        order = getattr(t, 'order', None)
        if order is None:
            return '?'
        return self.seg_order(t, segs, order)

    def value_uses(self, t, v):
        out = set()

        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if x[0] == 'sym':
                out.add(('s', x[1], x[2]))
                return
            if x[0] == 'lin':
                out.update(self.lin_uses(self.lin(t, x)))
                return
            if x[0] == 's':
                return
            if x[0] in ('seq', 'spine'):
                if x[0] == 'spine':
                    go(x[3])
                return
            for y in x:
                go(y)
        go(v)
        return out

    # ---- graphs -------------------------------------------------------------------
    def free(self, t_or_facts, poss, facts):
        """Positions a group of events and facts hangs on."""
        local = set(poss)
        out = []
        for p in poss:
            if p.parent is not None and p.parent not in local:
                out.append(p.parent)
        for f in facts:
            for p in self.fact_free(f):
                if p not in local:
                    out.append(p)
        return list(dict.fromkeys(out))

    def fact_free(self, f):
        if f[0] in ('neg', 'or'):
            out = []
            for b in f[2]:
                out.extend(self.free(None, list(b.poss()), b.facts()))
            if not out and f[1] is not None:
                out.append(f[1])
            return list(dict.fromkeys(out))
        if f[0] == 'in':
            return [f[1], f[2]]
        if f[0] in ('eof', 'neof'):
            return [f[1]]
        if f[0] == 'test':
            return test_positions(f[1])
        raise LangError('fact %s' % f[0])

    def build(self, t, start, end, caps, tail, outer):
        """Node for `start`; after `end` control goes to `tail`."""
        lin = self.linear(t, start, end)
        order = {p: i for i, p in enumerate(lin)}
        t.order = order
        onpath = set(lin)
        side = [p for p in t.poss if p not in onpath and p.parent is not None]
        sidekids = {}
        for p in side:
            sidekids.setdefault(p.parent, []).append(p)
        sset = set(side)
        for p in side:
            if p.parent not in sset and p.parent not in onpath:
                raise LangError('position outside the trace')
        at = {}
        for i, f in enumerate(t.facts):
            fr = self.fact_free(f)
            if f[0] == 'test':
                l = self.lin(t, f[1])
                ps = list(fr)
                for a, _ in l[1]:
                    if a[0] == 'n':
                        ps += [q for q in lin + side if q.ev[0] == 'call' and q.ev[1] is a[1]]
                    elif a[0] in ('w', 'len'):
                        ps.append(a[1])
                ps = [p for p in ps if p in order or p in sset]
                inside = [p for p in ps if p in sset]
                if inside:
                    a = inside[-1]
                else:
                    a = max(ps, key=lambda p: order[p]) if ps else start
                at.setdefault(a, []).append((i, f))
                continue
            if not fr:
                a = start
            elif all(p in order for p in fr):
                a = lca(fr)
                if a is None or a not in order:
                    raise LangError('condition spans loop iterations')
            else:
                a = lca(fr)
                if a is None or (a not in order and a not in sset):
                    raise LangError('condition hangs on an unknown position')
            at.setdefault(a, []).append((i, f))
        ctx = [(t, at)] + outer
        # which numbers are needed later is known when building backwards
        return self.seq(t, start, end, caps, tail, ctx, sidekids, at)

    def seq(self, t, start, end, caps, tail, ctx, sidekids, at):
        cps = [start] + chain(start, end)
        nxt = None
        for i in range(len(cps) - 1, -1, -1):
            p = cps[i]
            if i == len(cps) - 1:
                nd = Node('eps', None, tail)
                nd.live = tail.live
            else:
                nd = self.event(t, cps[i + 1], caps, nxt, ctx, sidekids, at)
            nxt = self.decorate(t, p, nd, caps, ctx, sidekids, at)
        return nxt

    def decorate(self, t, p, nd, caps, ctx, sidekids, at):
        tests, looks, eofs, marks = [], [], [], []
        live = set(nd.live)
        for pi, v in (caps.marks.get(p, ()) if caps is not None else ()):
            marks.append((pi, v, t))
            live |= self.value_uses(t, v)
        for q in sidekids.get(p, ()):
            n = self.side_look(t, q, ctx, sidekids, at)
            looks.append((True, (n,)))
            live |= n.live
        for i, f in at.get(p, ()):
            if f[0] == 'test':
                l = self.lin(t, f[1])
                tests.append((l, f[2], f[3]))
                live |= self.lin_uses(l)
            elif f[0] == 'eof':
                eofs.append(True)
            elif f[0] == 'neof':
                eofs.append(False)
            elif f[0] == 'in':
                n = self.monitor(t, f, ctx)
                looks.append((True, (n,)))
                live |= n.live
            else:
                ns = tuple(self.br_look(b, p, ctx, i) for b in f[2])
                looks.append((f[0] == 'or', ns))
                for n in ns:
                    live |= n.live
        nd.tests, nd.looks, nd.eofs, nd.marks = tuple(tests), tuple(looks), tuple(eofs), tuple(marks)
        nd.live = frozenset(live)
        return self.hc(nd)

    def hc(self, nd):
        """Hash-consing: equal graphs are one graph."""
        if nd.marks or nd.kind == 'ret':
            return nd
        d = nd.data
        if nd.kind in ('alt', 'star'):
            d = tuple(x.id for x in d)
        elif nd.kind == 'call':
            d = (d[0], d[1], d[2].id, d[3], d[4])
        elif nd.kind == 'dfa':
            d = (id(d[0]), d[1])
            self.keepalive.append(nd.data)
        elif nd.kind in ('mstart', 'mend'):
            d = (id(d[0]), d[1])
            self.keepalive.append(nd.data)
        k = (nd.kind, d, nd.nxt.id if nd.nxt is not None else 0, nd.tests,
             tuple((p, tuple(n.id for n in ns)) for p, ns in nd.looks), nd.eofs, nd.labels, nd.live, nd.bind)
        r = self.hctab.get(k)
        if r is None:
            self.hctab[k] = nd
            return nd
        return r

    def event(self, t, q, caps, nxt, ctx, sidekids, at):
        """Node consuming the event of q, then nxt."""
        ev = q.ev
        k = ev[0]
        r = t.refine.get(q)
        labels = frozenset(caps.labels.get(q, ())) if caps is not None else frozenset()
        key = ('w', q)
        if k == 'ch':
            nd = Node('set', r if r is not None else cs.ALL, nxt)
        elif k == 'lit':
            nd = Node('lit', ev[1], nxt)
        elif k == 'any':
            nd = Node('any', ev[1], nxt)
        elif k == 'many':
            nd = Node('many', (ev[1], ev[2], r), nxt)
        elif k == 're':
            nd = Node('dfa', (ev[1], r), nxt)
        elif k == 'until':
            nd = Node('until', ev[1], nxt)
        elif k == 'call':
            c = ev[1]
            demands = tuple(caps.demands.get(c, ())) if caps is not None else ()
            needs = tuple(sorted((a[2] for a in nxt.live if a[0] == 'n' and a[1] is c)))
            args = tuple(self.lin(t, a) for a in c.args)
            nd = Node('call', (c.rule, args, c, demands, needs), nxt)
            live = set(x for x in nxt.live if not (x[0] in ('n', 's') and x[1] is c))
            for a in args:
                live |= self.lin_uses(a)
            nd.live = frozenset(live)
            nd.labels = labels
            return nd
        elif k == 'alt':
            brs = []
            live = set(nxt.live)
            for b in ev[1]:
                tl = Node('pop')
                tl.live = nxt.live
                n = self.build(br_T(b), q.parent, b.end, None, self.hc(tl), ctx)
                brs.append(n)
                live |= n.live
            nd = Node('alt', tuple(brs), nxt)
            nd.live = frozenset(live)
            nd.labels = labels
            return nd
        elif k == 'star':
            cur = nxt
            plain = False
            for kk, o in reversed(self.pieces(t.loopmap, ev[1])):
                if plain:
                    cur = self.hc(cur)
                if kk == 'inst':
                    cur = self.seq(t, o.start, o.end, caps, cur, ctx, sidekids, at)
                    plain = False
                    if labels:
                        raise LangError('text over a refined loop')
                else:
                    cur = self.star(t, o, caps, cur, ctx)
                    cur.labels = labels
                    plain = True
            if cur is nxt:
                nd = Node('eps', None, nxt)
                nd.live = nxt.live
                return nd
            if not plain:
                n2 = Node('eps', None, cur)
                n2.live = cur.live
                return n2
            return cur
        else:
            raise LangError('event %s' % k)
        live = set(nxt.live)
        nd.labels = labels
        # a line's indentation is bound by the newline before it
        for x in list(live):
            if x[0] == 'w' and x[1].parent is q and k in ('ch', 'lit'):
                live.discard(x)
                nd.bind = x
        nd.live = frozenset(live)
        return nd

    def star(self, t, L, caps, nxt, ctx):
        sub = caps.sub(L) if caps is not None else None
        live = nxt.live
        for _ in range(4):
            alts = []
            free = set(nxt.live)
            for a in L.alts:
                tl = Node('pop')
                tl.live = live
                n = self.build(alt_T(a), L.start, a.end, sub, self.hc(tl), ctx)
                alts.append(n)
                free |= n.live
            if free == live:
                break
            live = frozenset(free)
        nd = Node('star', tuple(alts), nxt)
        nd.live = frozenset(live)
        return nd

    # ---- looks --------------------------------------------------------------------
    def side_look(self, t, q, ctx, sidekids, at):
        """Look: the event of side position q, then everything hanging on it."""
        tl = self.end_node()
        conj = Node('eps', None, tl)
        conj = self.decorate(t, q, conj, _NOCAPS, ctx, sidekids, at)
        conj = self.inline(conj)
        n = self.hc(self.event(t, q, None, conj, ctx, sidekids, at))
        if n.kind == 'star' and n.nxt is conj and conj.kind == 'eps' and conj.nxt is tl and not conj.tests \
                and not conj.eofs and len(conj.looks) == 1 and not conj.looks[0][0] \
                and len(n.data) == len(conj.looks[0][1]) \
                and all(Same().node(x, y) for x, y in zip(n.data, conj.looks[0][1])):
            # as often as possible: always succeeds
            return tl
        return n

    def inline(self, nd):
        """What holds here and then everything of the one look required here."""
        while nd.kind == 'eps' and nd.nxt.kind == 'true' and not nd.marks:
            pos = [x for x in nd.looks if x[0] and len(x[1]) == 1]
            if len(pos) != 1:
                break
            n = pos[0][1][0]
            rest = tuple(x for x in nd.looks if x is not pos[0])
            if n.kind in ('mstart', 'true') and (rest or nd.tests or nd.eofs):
                break
            if rest or nd.tests or nd.eofs:
                m = Node(n.kind, n.data, n.nxt)
                m.bind, m.labels, m.marks = n.bind, n.labels, n.marks
                m.tests, m.looks, m.eofs = nd.tests + n.tests, rest + n.looks, nd.eofs + n.eofs
                m.live = n.live | nd.live
                return self.hc(m)
            nd = n
        return nd

    def end_node(self):
        return self.hc(Node('true'))

    def br_look(self, b, a, ctx, idx):
        """Look from position a for everything branch b requires."""
        t = br_T(b)
        poss = list(t.poss)
        # iterations picked out of loops live in chains of their own
        local = set(poss)
        kids = {}
        roots = []
        for p in poss:
            if p.parent is not None:
                kids.setdefault(p.parent, []).append(p)
        insts = {}
        for p in poss:
            if p.ev[0] == 'star':
                for k, o in self.pieces(t.loopmap, p.ev[1]):
                    if k == 'inst':
                        for x in self.linear(t, o.start, o.end):
                            insts[x] = o
        for s in insts:
            # positions of an instance are reached through its loop
            pass
        at = {}
        need = set()
        for i, f in enumerate(t.facts):
            fr = self.fact_free(f)
            if f[0] == 'test':
                l = self.lin(t, f[1])
                ps = list(fr)
                for x, _ in l[1]:
                    if x[0] == 'n':
                        ps += [q for q in poss if q.ev[0] == 'call' and q.ev[1] is x[1]]
                    elif x[0] in ('w', 'len'):
                        ps.append(x[1])
                ps = [p for p in ps if p in local]
                anc = max(ps, key=lambda p: p.id) if ps else a
                # the deepest one
                for p in ps:
                    if all(y in parent_chain(p) or y in insts for y in ps) and p not in insts:
                        anc = p
                inst_ps = [p for p in ps if p in insts]
                if inst_ps:
                    anc = max(inst_ps, key=lambda p: self.linear(t, insts[p].start, insts[p].end).index(p))
            else:
                anc = lca(fr) if fr else a
                if anc is None:
                    raise LangError('condition spans loop iterations')
                if f[0] == 'in':
                    anc = f[1]
                if anc is not a and anc in parent_chain(a):
                    anc = a if not fr else anc
            at.setdefault(anc, []).append((i, f))
            if anc not in local and anc not in insts:
                need.add(anc)
        for p in poss:
            if p.parent is not None and p.parent not in local and p.parent is not a:
                need.add(p.parent)
        # path nodes from a to the outer positions this branch hangs on
        path = {}
        for x in need:
            if x is a:
                continue
            c = chain(a, x)
            if c is None:
                if x in parent_chain(a):
                    raise LangError('look starts before its anchor')
                raise LangError('look hangs on an unrelated position')
            for y in c:
                path[y] = True
        sk = {}
        inst_roots = set(insts)
        for p in poss:
            if p.parent is not None and p not in inst_roots:
                sk.setdefault(p.parent, []).append(p)
        for y in path:
            sk.setdefault(y.parent, [])
            if y not in sk[y.parent]:
                sk[y.parent].append(y)
        for y in path:
            for (ot, oat) in ctx:
                got = [(i, f) for i, f in oat.get(y, ()) if i < idx or ot is not ctx[0][0]]
                for i, f in got:
                    if f[0] != 'test':
                        at.setdefault(y, [])
                        if not any(g is f for _, g in at[y]):
                            at[y].append((-1, f))
        rt = T(t.facts, t.poss, _Chain(t.refine, [c[0].refine for c in ctx]), _Chain(t.loopmap, [c[0].loopmap for c in ctx]))
        tl = self.end_node()
        nd = Node('eps', None, tl)
        sk2 = {p: [q for q in qs if q not in inst_roots] for p, qs in sk.items()}
        return self.inline(self.decorate(rt, a, nd, _NOCAPS, [(rt, at)] + ctx, sk2, at))

    def monitor(self, t, f, ctx):
        """Look: the text p..q is (not) in a regular language."""
        _, p, q, dfa, pol = f
        c = chain(p, q)
        if c is None:
            raise LangError('language test off the trace')
        tl = Node('mend', (dfa, pol))
        nxt = tl
        for x in reversed(c):
            nxt = self.hc(self.event(t, x, None, nxt, ctx, {}, {}))
        m = Node('mstart', (dfa, pol), nxt)
        m.live = nxt.live
        return self.hc(m)


class Same:
    """Structural equality of two look graphs (ends of either kind are equal)."""

    def __init__(self):
        self.names = {}
        self.calls = {}

    def atom(self, a, b):
        if a in self.names:
            return self.names[a] == b
        if a[0] == 'n' and a[1] in self.calls:
            return b[0] == 'n' and self.calls[a[1]] is b[1] and a[2:] == b[2:]
        return a == b

    def lin(self, x, y):
        return x[2] == y[2] and len(x[1]) == len(y[1]) and all(
            any(c == d and self.atom(a, b) for b, d in y[1]) for a, c in x[1])

    def node(self, x, y):
        while x.kind == 'eps' and not (x.tests or x.looks or x.eofs or x.marks):
            x = x.nxt
        while y.kind == 'eps' and not (y.tests or y.looks or y.eofs or y.marks):
            y = y.nxt
        if x.tests or y.tests:
            if len(x.tests) != len(y.tests) or not all(
                    a[1:] == b[1:] and self.lin(a[0], b[0]) for a, b in zip(x.tests, y.tests)):
                return False
        if x.eofs != y.eofs or x.marks or y.marks or len(x.looks) != len(y.looks):
            return False
        left = list(y.looks)
        for p, a in x.looks:
            for it in left:
                q, b = it
                keep = dict(self.names), dict(self.calls)
                if p == q and len(a) == len(b) and all(self.node(m, n) for m, n in zip(a, b)):
                    left.remove(it)
                    break
                self.names, self.calls = keep
            else:
                return False
        if x.kind in ('pop', 'true'):
            return y.kind in ('pop', 'true')
        if x.kind != y.kind or x.kind == 'ret' or bool(x.bind) != bool(y.bind):
            return False
        if x.bind:
            self.names[x.bind] = y.bind
        if x.kind in ('alt', 'star'):
            if len(x.data) != len(y.data) or not all(self.node(m, n) for m, n in zip(x.data, y.data)):
                return False
        elif x.kind == 'call':
            if x.data[0] != y.data[0] or len(x.data[1]) != len(y.data[1]) \
                    or not all(self.lin(a, b) for a, b in zip(x.data[1], y.data[1])):
                return False
            self.calls[x.data[2]] = y.data[2]
        elif x.data != y.data:
            return False
        return (x.nxt is None) == (y.nxt is None) and (x.nxt is None or self.node(x.nxt, y.nxt))


class _Nocaps:
    marks = {}


_NOCAPS = _Nocaps()


class _Chain:
    """Dictionary lookup through a chain of dictionaries."""

    def __init__(self, d, rest):
        self.ds = [d] + list(rest)

    def get(self, k, default=None):
        for d in self.ds:
            if isinstance(d, _Chain):
                v = d.get(k, _MISS)
                if v is not _MISS:
                    return v
            elif k in d:
                return d[k]
        return default

    def __contains__(self, k):
        return self.get(k, _MISS) is not _MISS

    def __getitem__(self, k):
        v = self.get(k, _MISS)
        if v is _MISS:
            raise KeyError(k)
        return v

    def items(self):
        out = {}
        for d in reversed(self.ds):
            out.update(dict(d.items()))
        return out.items()


_MISS = object()
