"""A small PEG notation that builds the same trace structures the abstract
interpreter extracts from the Rust code (see ev.Rule), so that both sides of a
comparison mean exactly the same thing.  A parser is a function
(state, position, bindings) -> [(state, end position, value)]; the outcomes are
exclusive, and "none of them" is expressible as one fact (neg)."""
import charset as cs
import rx
from val import *


class Rule:
    def __init__(self, key):
        self.key = key
        self.root = None
        self.outs = []
        self.error = None


# ---- terminals ----------------------------------------------------------------

def lit(s):
    def p(st, pos, e):
        s2, q = st.newpos(pos, ('lit', s))
        return [(s2, q, text(pos, q))]
    return p


def cls(S):
    """One character of S; the value is the character."""
    S = cs.of(S) if isinstance(S, str) else S

    def p(st, pos, e):
        s2, q = st.newpos(pos, ('ch',))
        return [(s2.setrefine(q, S), q, ('chr', q))]
    return p


def many(S, mn):
    """The longest run of characters of S, at least mn of them."""
    S = cs.of(S) if isinstance(S, str) else S

    def p(st, pos, e):
        s2, q = st.newpos(pos, ('many', S, mn))
        return [(s2, q, text(pos, q))]
    return p


def until(s):
    """Everything before the first occurrence of s, which must exist."""
    def p(st, pos, e):
        s2, q = st.newpos(pos, ('until', s))
        return [(s2, q, text(pos, q))]
    return p


def empty(value=UNIT):
    def p(st, pos, e):
        return [(st, pos, value)]
    return p


def eof(st, pos, e):
    return [(st.fact('eof', pos), pos, UNIT)]


# ---- combinators ----------------------------------------------------------------

class Bind:
    def __init__(self, name, p):
        self.name, self.p = name, p


class Test:
    """Number condition: lin(e) op 0 must be pol."""

    def __init__(self, f, op, pol=True):
        self.f, self.op, self.pol = f, op, pol


def B(name, p):
    return Bind(name, p)


def seqp(*items, val=None):
    """Everything in order; val(e) builds the value from the bindings.  The
    binding '^' is the start, '$' the end."""
    def p(st, pos, e):
        cur = [(st, pos, dict(e, **{'^': pos}))]
        for it in items:
            nx = []
            for s, q, e1 in cur:
                if isinstance(it, Test):
                    l = it.f(e1)
                    if not l[1]:
                        t = l[2] == 0 if it.op == '==' else l[2] >= 0
                        if t == it.pol:
                            nx.append((s, q, e1))
                    else:
                        nx.append((s.fact('test', l, it.op, it.pol), q, e1))
                    continue
                n, r = (it.name, it.p) if isinstance(it, Bind) else (None, it)
                for s2, q2, v in r(s, q, e1):
                    e2 = e1
                    if n is not None:
                        e2 = dict(e1)
                        e2[n] = v
                        e2[n + '^'] = q
                        e2[n + '$'] = q2
                    nx.append((s2, q2, e2))
            cur = nx
        out = []
        for s, q, e1 in cur:
            e1 = dict(e1)
            e1['$'] = q
            out.append((s, q, val(e1) if val is not None else UNIT))
        return out
    return p


def fails(p):
    """p does not match here (consumes nothing)."""
    def f(st, pos, e):
        rs = p(st, pos, e)
        if not rs:
            return [(st, pos, UNIT)]
        brs = tuple(Br(q, s, len(st.facts), len(st.poss)) for s, q, _ in rs)
        return [(st.fact('neg', pos, brs), pos, UNIT)]
    return f


def ahead(p):
    """p matches here (consumes nothing)."""
    def f(st, pos, e):
        rs = p(st, pos, e)
        brs = tuple(Br(q, s, len(st.facts), len(st.poss)) for s, q, _ in rs)
        return [(st.fact('or', pos, brs), pos, UNIT)]
    return f


def alt(*ps):
    """The first of the alternatives that matches."""
    def f(st, pos, e):
        out = []
        s = st
        for p in ps:
            out.extend(p(s, pos, e))
            r = fails(p)(s, pos, e)
            s = r[0][0]
        return out
    return f


def either(*ps):
    """Alternatives that exclude each other."""
    def f(st, pos, e):
        return [x for p in ps for x in p(st, pos, e)]
    return f


def opt(p, none=NONE, some_=some):
    def f(st, pos, e):
        out = [(s, q, some_(v)) for s, q, v in p(st, pos, e)]
        s = fails(p)(st, pos, e)[0][0]
        out.append((s, pos, none))
        return out
    return f


def mapp(p, fn):
    def f(st, pos, e):
        return [(s, q, fn(v)) for s, q, v in p(st, pos, e)]
    return f


def txt(p):
    """The text p consumed."""
    def f(st, pos, e):
        return [(s, q, text(pos, q)) for s, q, _ in p(st, pos, e)]
    return f


def star(p):
    """As often as possible; the list of values."""
    def f(st, pos, e):
        L = Loop()
        L.start = Pos(None, ('loopstart', L))
        s0 = State()
        slot = (L.id, 'x')
        for s, q, v in p(s0, L.start, e):
            L.alts.append(Alt(q, s.facts, s.poss, s.loopmap, s.refine, {slot: (('e', v),)}, {}))
        s2, q2 = st.newpos(pos, ('star', L))
        s2 = fails(p)(s2, q2, e)[0][0]
        return [(s2, q2, ('seq', (('s', L, slot, False),)))]
    return f


def sep1(sep, p):
    """p (sep p)*; the separator is not consumed unless p follows."""
    return seqp(B('x', p), B('xs', star(seqp(sep, B('y', p), val=lambda e: e['y']))),
                val=lambda e: ('seq', (('e', e['x']),) + e['xs'][1]))


def sep0(sep, p):
    return opt(sep1(sep, p), none=('seq', ()), some_=lambda v: v)


def sepn(sep, p, wrap):
    """Like sep0, but a single element stands for itself; else wrap(list)."""
    rest = seqp(sep, B('y', p), val=lambda e: e['y'])
    none = seqp(fails(p), val=lambda e: wrap(('seq', ())))
    one = seqp(B('x', p), fails(rest), val=lambda e: e['x'])
    more = seqp(B('x', p), B('z', rest), B('xs', star(rest)),
                val=lambda e: wrap(('seq', (('e', e['x']), ('e', e['z'])) + e['xs'][1])))

    def f(st, pos, e):
        return none(st, pos, e) + one(st, pos, e) + more(st, pos, e)
    return f


def notin(p, words):
    """p, unless the text it consumed is one of the words."""
    d = rx.words(words)

    def f(st, pos, e):
        return [(s.fact('in', pos, q, d, False), q, v) for s, q, v in p(st, pos, e)]
    return f


def isin(p, d):
    def f(st, pos, e):
        return [(s.fact('in', pos, q, d, True), q, v) for s, q, v in p(st, pos, e)]
    return f


def call(name, *args):
    """Another rule; args: functions of the bindings giving numbers, or the
    name of an alternative for enumeration parameters."""
    spec = tuple(a for a in args if isinstance(a, str))
    nums = [a for a in args if not isinstance(a, str)]

    def f(st, pos, e):
        ns = tuple(a(e) if callable(a) else num(a) for a in nums)
        c = Call((name, spec), ns)
        s2, q = st.newpos(pos, ('call', c))
        return [(s2, q, ('sym', c, ()))]
    return f


def between(a, p, b):
    return seqp(a, B('x', p), b, val=lambda e: e['x'])


def aslin(v):
    """A number value as a linear form."""
    if v[0] == 'sym':
        return ('lin', ((('num', v[1], v[2]), 1),), 0)
    return v


def rule(key, p, nparams):
    r = Rule(key)
    st = State()
    r.root = Pos(None, ('root',))
    st.poss = (r.root,)
    e = {'i%d' % n: atom('param', n) for n in range(nparams)}
    if nparams:
        e['i'] = e['i0']
    r.outs = p(st, r.root, e)
    return r
