"""Models of the library functions the parsers are built from (std, nom, regex)."""
import charset as cs
import rx
from val import *
import ev as EV
from ev import Out, strip, rev_segs, rx_minlen, chr_utf8

DIGITS = cs.DIGIT
SETS = {
    'alpha': cs.ALPHA, 'digit': cs.DIGIT, 'hex_digit': cs.HEX, 'oct_digit': cs.rng('0', '7'),
    'alphanumeric': cs.ALNUM, 'space': cs.of(' \t'), 'multispace': cs.of(' \t\r\n'),
}


class C:
    def __init__(self, ev, st, f, args, x, fr):
        self.ev, self.st, self.f, self.args, self.x, self.fr = ev, st, f, args, x, fr
        self.p = strip(f['p']) if f else ''
        self.name = self.p.split('::')[-1]

    def r(self, i):
        return self.ev.read(self.st, self.args[i])

    def call(self, f, args, st=None):
        return self.ev.call_value(st if st is not None else self.st, f, args, self.x, self.fr)


def ret(st, v):
    return [Out(st, None, v)]


def call(ev, st, f, args, x, fr):
    c = C(ev, st, f, args, x, fr)
    if ev.mode == 'tool':
        import tool
        r = tool.prim(ev, c)
        if r is not None:
            return r
    if c.name == '_print' or c.name == '_eprint':
        w = ev.where(x, fr)
        ev.effects.append((ev.cur.key[0] if ev.cur else '?', w, c.p))
        return ret(st, UNIT)
    h = H.get(c.p) or H.get(c.name)
    if h is None:
        note_effect(ev, c)
        raise Unsupported('call of %s is not modelled' % c.p)
    return h(c)


EFFECTFUL = ('std::io', 'std::fs', 'std::env', 'std::process', 'std::net', 'std::time', 'std::thread', 'std::sync', 'std::ptr', 'std::cell')


def note_effect(ev, c):
    for e in EFFECTFUL:
        if c.p.startswith(e):
            ev.effects.append((ev.cur.key[0] if ev.cur else '?', ev.where(c.x, c.fr), c.p))


def bindouts(outs, f):
    res = []
    for o in outs:
        if o.ctl is not None:
            res.append(o)
        else:
            res.extend(f(o.st, o.val))
    return res


def need(v, st, ev):
    v = ev.read(st, v)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    return v


def adtv(c, i=0):
    v = c.r(i)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] in ('acc', 'fold', 'lenof'):
        raise Unsupported('%s of %s' % (c.name, v[0]))
    return v


# ---- text ---------------------------------------------------------------

def norm_pieces(ps):
    out = []
    for p in ps:
        if p[0] == 'l' and not p[1]:
            continue
        if p[0] == 't' and p[1] is p[2]:
            continue
        if out and p[0] == 't' and out[-1][0] == 't' and out[-1][2] is p[1]:
            out[-1] = ('t', out[-1][1], p[2])
        elif out and p[0] == 'l' and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def mkstr(ps):
    ps = norm_pieces(ps)
    if len(ps) == 1 and ps[0][0] == 'v' and ps[0][1][0] == 'sym':
        return ps[0][1]
    return ('str', ps)


def as_pieces(ev, st, v):
    """Text pieces of Display of a value."""
    v = ev.read(st, v)
    k = v[0]
    if k == 'str':
        return v[1]
    if k == 'rem':
        return (('t', v[1], None),)
    if k == 'chr':
        return (('t', v[1].parent, v[1]),)
    if k == 'chrlit':
        return (('l', v[1]),)
    if k == 'lin':
        if not v[1]:
            return (('l', str(v[2])),)
        return (('v', ('dec', v)),)
    if k == 'sym':
        return (('v', v),)
    if k == 'bool':
        return (('l', 'true' if v[1] else 'false'),)
    if k in ('opq', 'num', 'cast', 'u', 'parsed', 'tch'):
        return (('v', v),)
    raise Unsupported('text of %s' % k)


def single_text(v):
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 't':
        return v[1][0][1], v[1][0][2]
    if v[0] == 'rem':
        return v[1], None
    return None


def literal(v):
    if v[0] == 'str' and all(p[0] == 'l' for p in v[1]):
        return ''.join(p[1] for p in v[1])
    if v[0] == 'chrlit':
        return v[1]
    return None


def event_dfa(ev, st, p, q):
    """Language of the text between p and q when it is a single event."""
    ch = ev.chain(p, q)
    if ch is None:
        return None
    if len(ch) != 1:
        return None
    e = ch[0].ev
    r = st.refine.get(ch[0])
    if e[0] == 're':
        return e[1]
    if e[0] == 'ch':
        return rx.Dfa([[(r if r is not None else cs.ALL, 1)], []], [False, True])
    if e[0] == 'lit':
        return rx.words([e[1]])
    if e[0] == 'many':
        mn = 1 if r == 'nonempty' else e[2]
        if r == 'empty':
            return rx.words([''])
        if mn == 0:
            return rx.Dfa([[(e[1], 0)]], [True])
        tr = [[(e[1], i + 1)] for i in range(mn)] + [[(e[1], mn)]]
        return rx.Dfa(tr, [False] * mn + [True])
    return None


def product_nonempty(ds):
    """ds: list of (dfa, polarity).  Is the intersection non-empty?"""
    start = tuple(0 for _ in ds)
    seen = {start}
    work = [start]
    while work:
        s = work.pop()
        if all((q is not None and d.acc[q]) == pol for (d, pol), q in zip(ds, s)):
            return True
        sets = []
        for (d, pol), q in zip(ds, s):
            if q is not None:
                sets.extend(t[0] for t in d.trans[q])
        for m in cs.minterms(sets):
            nx = []
            dead = False
            for (d, pol), q in zip(ds, s):
                t = None
                if q is not None:
                    for cset, tt in d.trans[q]:
                        if cs.inter(cset, m):
                            t = tt
                            break
                if t is None and pol:
                    dead = True
                    break
                nx.append(t)
            if dead:
                continue
            nx = tuple(nx)
            if nx not in seen:
                seen.add(nx)
                work.append(nx)
    return False


def feasible_text(ev, st, p, q):
    ds = [(f[3], f[4]) for f in st.facts if f[0] == 'in' and f[1] is p and f[2] is q]
    base = event_dfa(ev, st, p, q)
    if base is not None:
        ds.append((base, True))
    if not any(pol for _, pol in ds):
        return True
    return product_nonempty(ds)


def in_lang(ev, st, v, dfa):
    """Fork on membership of a text value in a regular language."""
    v = ev.read(st, v)
    l = literal(v)
    if l is not None:
        return [(st, rx.accepts(dfa, l))]
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] == 'chr':
        t = (v[1].parent, v[1])
    else:
        t = single_text(v)
    if t is None or t[1] is None:
        raise Unsupported('language test on composed text')
    p, q = t
    if ev.chain(p, q) is not None and len(ev.chain(p, q)) != 1:
        raise Unsupported('language test on composed text')
    out = []
    for pol in (True, False):
        s = st.fact('in', p, q, dfa, pol)
        if feasible_text(ev, s, p, q):
            out.append((s, pol))
    return out


# ---- characters -----------------------------------------------------------

def charset_of(st, q):
    return st.refine.get(q, cs.ALL)


def split_char(st, q, s):
    cur = charset_of(st, q)
    out = []
    a, b = cs.inter(cur, s), cs.diff(cur, s)
    if a:
        out.append((st if a == cur else st.setrefine(q, a), True))
    if b:
        out.append((st if b == cur else st.setrefine(q, b), False))
    return out


def test_char(ev, st, v, s):
    v = ev.read(st, v)
    if v[0] == 'chrlit':
        return [(st, cs.has(s, ord(v[1])))]
    if v[0] == 'chr':
        return split_char(st, v[1], s)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    raise Unsupported('character test on %s' % v[0])


def peek_char(st, p):
    """[(state, Q | None)]: is there a character at p?"""
    q = st.peek.get(('ch', p))
    if q is not None and q in st.poss:
        return [(st, q)]
    if ('eof', p) in st.facts:
        return [(st, None)]
    s1, q = st.newpos(p, ('ch',))
    s1 = s1.setpeek(('ch', p), q)
    out = [(s1, q)]
    if ('neof', p) not in st.facts:
        out.append((st.fact('eof', p), None))
    return out


def neg_event(st, p, e, n=1):
    s1, q = st.newpos(p, e)
    return st.fact('neg', p, (Br(q, s1, len(st.facts), len(st.poss)),))


def pred_charset(c, f, wrap=lambda v: v):
    """Characters for which a closure returns true."""
    ev = c.ev
    f = ev.read(c.st, f)
    if f[0] == 'chrlit':
        return cs.of(f[1])
    if f[0] == 'seq' and all(g[0] == 'e' and g[1][0] == 'chrlit' for g in f[1]):
        return cs.of(''.join(g[1][1] for g in f[1]))
    root = Pos(None, ('tmp',))
    st, q = c.st.newpos(root, ('ch',))
    t = cs.EMPTY
    for o in ev.call_value(st, f, [wrap(('chr', q))], c.x, c.fr):
        if o.ctl is not None:
            raise Unsupported('predicate does not return')
        for s, b in ev.truth(o.st, o.val):
            if s.facts != st.facts:
                raise Unsupported('predicate depends on more than the character')
            if b:
                t = cs.union(t, charset_of(s, q))
    return t


# ---- numbers ----------------------------------------------------------------

def bounds(st, d):
    """Interval for the variable part of d implied by earlier tests."""
    lo, hi, ne = None, None, set()
    for f in st.facts:
        if f[0] != 'test':
            continue
        e, rel, pol = f[1], f[2], f[3]
        if e[1] == d[1]:
            sg = 1
        elif e[1] == tuple((t, -k) for t, k in d[1]):
            sg = -1
        else:
            continue
        k = e[2]
        # sg*X + k rel 0
        if rel == '==':
            v = -k * sg
            if pol:
                lo = v if lo is None else max(lo, v)
                hi = v if hi is None else min(hi, v)
            else:
                ne.add(v)
        else:
            if sg == 1:
                if pol:
                    lo = -k if lo is None else max(lo, -k)
                else:
                    hi = -k - 1 if hi is None else min(hi, -k - 1)
            else:
                if pol:
                    hi = k if hi is None else min(hi, k)
                else:
                    lo = k + 1 if lo is None else max(lo, k + 1)
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    return lo, hi, ne


def nonneg_atom(ev, t):
    if t[0] in ('param', 'cnt'):
        return True
    if t[0] == 'num':
        ty = ev.symty(('sym', t[1], t[2])) if len(t) > 2 else None
        return ty is not None and ty['k'] == 'uint'
    return False


def split_empty(ev, st, ch):
    """[(state, all events of the chain consumed nothing)]"""
    if not ch:
        return [(st, True)]
    q = ch[0]
    lo, hi = ev.evlen(st, q)
    if lo > 0:
        return [(st, False)]
    if hi == 0:
        return split_empty(ev, st, ch[1:])
    k = q.ev[0]
    if k in ('many', 're'):
        r = st.refine.get(q)
        if r == 'nonempty':
            return [(st, False)]
        out = [(st.setrefine(q, 'nonempty'), False)]
        out.extend(split_empty(ev, st.setrefine(q, 'empty'), ch[1:]))
        return out
    if k == 'call':
        raise NeedInline(q.ev[1])
    if k == 'star':
        out = []
        ps = ev.pieces(st, q.ev[1])
        stars = [o for kk, o in ps if kk == 'star']
        if not stars:
            return [(st, False)]
        for s, inst in ev.peel_first(st, stars[0]):
            if inst is None:
                out.extend(split_empty(ev, s, ch))
            else:
                out.append((s, False))
        return out
    if k == 'alt':
        raise Unsupported('emptiness of a joined part')
    raise Unsupported('emptiness of ' + k)


def decide(ev, st, d, rel):
    """[(state, d rel 0)]"""
    d = ev.canon(st, d)
    if not d[1]:
        return [(st, (d[2] == 0) if rel == '==' else (d[2] >= 0))]
    atoms = [t for t, _ in d[1]]
    if any(t[0] in ('acc', 'fold') for t in atoms):
        raise Unsupported('test on a loop accumulator')
    cnts = [(t, k) for t, k in d[1] if t[0] == 'cnt']
    if cnts:
        # resolve refined loops
        for t, k in cnts:
            L = t[1]
            if L in st.loopmap:
                n = num(0)
                for kk, o in ev.pieces(st, L):
                    n = lin_add(n, ('lin', ((('cnt', o), 1),), 0) if kk == 'star' else num(1))
                rest = ('lin', tuple(y for y in d[1] if y[0] != t), d[2])
                return decide(ev, st, lin_add(rest, n, k), rel)
        if len(cnts) == len(d[1]):
            signs = set(k > 0 for _, k in cnts)
            if len(signs) == 1:
                pos = signs.pop()
                k = d[2] if pos else -d[2]
                # +sum cnt + k
                if rel == '==':
                    if k > 0:
                        return [(st, False)]
                elif pos and k >= 0:
                    return [(st, True)]
                elif not pos and k > 0:
                    return [(st, False)]
                if abs(k) >= 1 << 48:
                    # no list is that long
                    return [(st, rel == '>=' and not pos)]
                if abs(k) > 20:
                    raise Unsupported('comparison of a list length with %d' % abs(k))
                out = []
                for s, inst in ev.peel_first(st, cnts[0][0][1]):
                    out.extend(decide(ev, s, d, rel))
                return out
        raise Unsupported('comparison of list lengths')
    if abs(d[2]) >= (1 << 31) * sum(abs(k) for _, k in d[1]) and textsized(ev, d):
        return [(st, rel == '>=' and d[2] > 0)]
    ad = [(t, k) for t, k in d[1] if t[0] in ('addr', 'END')]
    if ad and len(ad) == len(d[1]) and len(ad) == 2 and ad[0][1] == -ad[1][1]:
        (ta, ka), (tb, kb) = ad
        if ta[0] == 'END' or tb[0] == 'END':
            if tb[0] == 'END':
                (ta, ka), (tb, kb) = (tb, kb), (ta, ka)
            p = tb[1]
            if abs(ka) == 1:
                t = -d[2] * ka
                eof = None
                if rel == '==' and t < 0:
                    return [(st, False)]
                if rel == '==' and t == 0:
                    return [(s, q is None) for s, q in eof_split(st, p)]
                if rel == '>=':
                    if ka == 1:
                        if t <= 0:
                            return [(st, True)]
                        if t == 1:
                            return [(s, q is not None) for s, q in eof_split(st, p)]
                    else:
                        # -rem + k >= 0
                        if d[2] < 0:
                            return [(st, False)]
                        if d[2] == 0:
                            return [(s, q is None) for s, q in eof_split(st, p)]
            raise Unsupported('length of the remaining input')
        if ev.chain(tb[1], ta[1]) is None:
            (ta, ka), (tb, kb) = (tb, kb), (ta, ka)
        ch = ev.chain(tb[1], ta[1])
        if ch is not None and abs(ka) == 1:
            lo = sum(ev.evlen(st, q)[0] for q in ch)
            t = -d[2] * ka            # compare length with t
            if rel == '==':
                if t < lo:
                    return [(st, False)]
                if t == 0:
                    return split_empty(ev, st, ch)
            elif ka == 1:
                if t <= lo:
                    return [(st, True)]
                if t == 1 and lo == 0:
                    return [(s, not e) for s, e in split_empty(ev, st, ch)]
            else:
                if d[2] < lo:
                    return [(st, False)]
                if d[2] == 0:
                    return split_empty(ev, st, ch)
    if all(k > 0 and nonneg_atom(ev, t) for t, k in d[1]):
        if rel == '>=' and d[2] >= 0:
            return [(st, True)]
        if rel == '==' and d[2] > 0:
            return [(st, False)]
    if all(k < 0 and nonneg_atom(ev, t) for t, k in d[1]):
        if d[2] < 0:
            return [(st, False)]
    # orient
    if d[1][0][1] < 0 and rel == '==':
        d = lin_scale(d, -1)
    lo, hi, ne = bounds(st, d)
    k = d[2]
    # X + k rel 0
    if rel == '==':
        v = -k
        if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne:
            return [(st, False)]
        if lo is not None and lo == hi == v:
            return [(st, True)]
    else:
        if lo is not None and lo + k >= 0:
            return [(st, True)]
        if hi is not None and hi + k < 0:
            return [(st, False)]
    return [(st.fact('test', d, rel, True), True), (st.fact('test', d, rel, False), False)]


def eof_split(st, p):
    if ('eof', p) in st.facts:
        return [(st, None)]
    if ('neof', p) in st.facts:
        return [(st, True)]
    q = st.peek.get(('ch', p))
    if q is not None and q in st.poss:
        return [(st, True)]
    return [(st.fact('eof', p), None), (st.fact('neof', p), True)]


def compare_num(ev, st, op, a, b):
    d = lin_add(a, b, -1)
    if op == 'Eq':
        return decide(ev, st, d, '==')
    if op == 'Ne':
        return [(s, not r) for s, r in decide(ev, st, d, '==')]
    if op == 'Ge':
        return decide(ev, st, d, '>=')
    if op == 'Lt':
        return [(s, not r) for s, r in decide(ev, st, d, '>=')]
    if op == 'Le':
        return decide(ev, st, lin_scale(d, -1), '>=')
    if op == 'Gt':
        return [(s, not r) for s, r in decide(ev, st, lin_scale(d, -1), '>=')]
    raise Unsupported('comparison ' + op)


OPN = {'==': 'Eq', '!=': 'Ne', '<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge', '+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div',
       '%': 'Rem', '&': 'BitAnd', '|': 'BitOr', '^': 'BitXor', '<<': 'Shl', '>>': 'Shr'}


def width(t):
    """(least, greatest) value of an integer type."""
    w = INTS[t['n']]
    return (0, (1 << w) - 1) if t['k'] == 'uint' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def textsized(ev, d):
    """Whether d only counts characters, list elements or indentation; such
    numbers are taken to be smaller than 2^31."""
    return all(t[0] in ('addr', 'END', 'cnt', 'param', 'acc', 'fold') or (t[0] == 'num' and len(t) > 2) for t, _ in d[1])


def within(ev, st, d, t):
    """[(state, d is a value of the integer type t)]"""
    mn, mx = width(t)
    if not d[1]:
        return [(st, mn <= d[2] <= mx)]
    if not textsized(ev, d):
        raise Unsupported('range of a computed number')
    if any(y[0] in ('acc', 'fold') for y, _ in d[1]):
        if mx < (1 << 31) - 1:
            return [(st, False)]
        if mn == 0 and any(k < 0 for _, k in d[1]):
            raise Unsupported('range of a number computed in a loop')
        return [(st, True)]
    out = []
    for s, r in (decide(ev, st, d, '>=') if mn == 0 else [(st, True)]):
        if not r:
            out.append((s, False))
        elif mx >= (1 << 31) - 1:
            out.append((s, True))
        else:
            try:
                out.extend(decide(ev, s, lin_add(num(mx), d, -1), '>='))
            except Unsupported:
                out.append((s, False))
    return out


def int_cast(ev, st, v, src, dst):
    """[(state, value)] of v as dst"""
    n = ev.numv(v)
    a, b = width(src), width(dst)
    if n is None or (b[0] <= a[0] and a[1] <= b[1]):
        return [(st, v)]
    if not n[1]:
        k = (n[2] - b[0]) % (b[1] - b[0] + 1) + b[0]
        return [(st, num(k))]
    out = []
    for s, r in within(ev, st, n, dst):
        if not r:
            raise Unsupported('a conversion to %s that can lose the value' % dst['n'])
        out.append((s, v))
    return out


def arith(ev, st, v, x, fr, what):
    """The outcomes of an addition or multiplication with the exact result v."""
    t = ev.ty(fr.body['exprs'][x['l']]['t'])
    if t['k'] not in ('int', 'uint') or not v[1] and width(t)[0] <= v[2] <= width(t)[1]:
        return ret(st, v)
    if width(t)[1] >= (1 << 31) - 1 and v[1]:
        return ret(st, v)
    ev.site(what, x, fr)
    return [Out(s, None, v) if r else ev.panic(s, what, x, fr) for s, r in within(ev, st, v, t)]


def count_form(ev, st, d):
    """A number with the lengths of loops written in their present parts."""
    d = ev.canon(st, d)
    while True:
        for t, k in d[1]:
            if t[0] == 'cnt' and t[1] in st.loopmap:
                n = num(0)
                for kk, o in ev.pieces(st, t[1]):
                    n = lin_add(n, ('lin', ((('cnt', o), 1),), 0) if kk == 'star' else num(1))
                d = lin_add(('lin', tuple(y for y in d[1] if y[0] != t), d[2]), n, k)
                break
        else:
            return ev.canon(st, d)


def idx_front(ev, st, i):
    """The next element of an index loop, None at the end."""
    segs = ev.segs(st, i[1])
    if not segs:
        return None, ()
    back = i[0] == 'ridx'
    e = segs[-1] if back else segs[0]
    if e[0] == 's':
        cell = ev.ixlists[i[2]][1]
        if ev.loopstack and cell in ev.loopstack[-1][1]:
            raise NeedWiden(cell, e[1], back)
        raise Unsupported('index of a repeated part')
    if e[0] != 'e':
        raise Unsupported('index moved twice in one iteration')
    return e[1], segs[:-1] if back else segs[1:]


def idx_op(ev, st, op, a, b, x, fr):
    if a[0] not in ('idx', 'ridx'):
        op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if op == 'Sub':
            raise Unsupported('arithmetic on an index')
        a, b = b, a
    n = ev.numv(b)
    if n is None:
        raise Unsupported('two indices')
    if a[0] == 'idx':
        if op == 'Add' and n == num(1):
            e, rest = idx_front(ev, st, a)
            if e is None:
                raise Unsupported('index beyond the end')
            return ret(st, ('idx', rest, a[2]))
        if op in ('Lt', 'Ge', 'Ne', 'Eq'):
            if count_form(ev, st, n) == count_form(ev, st, ev.length(st, ev.ixlists[a[2]][0])):
                e, _ = idx_front(ev, st, a)
                return ret(st, mkbool((e is not None) == (op in ('Lt', 'Ne'))))
    else:
        if op == 'Sub' and n == num(1):
            e, rest = idx_front(ev, st, a)
            ev.site('subtraction', x, fr)
            if e is None:
                return [ev.panic(st, 'subtraction', x, fr)]
            return ret(st, ('ridx', rest, a[2], e))
        if (op, n[2]) in (('Gt', 0), ('Ne', 0), ('Ge', 1), ('Eq', 0), ('Lt', 1), ('Le', 0)) and not n[1]:
            e, _ = idx_front(ev, st, a)
            return ret(st, mkbool((e is not None) == (op in ('Gt', 'Ne', 'Ge'))))
    raise Unsupported('%s on an index' % op)


def idx_element(ev, st, v, i):
    """The element of list v an index stands at, None behind the end."""
    if v[0] != 'seq' or v[1] != ev.ixlists[i[2]][0]:
        raise Unsupported('index of another list')
    if i[0] == 'idx':
        return idx_front(ev, st, i)[0]
    if i[3] is None:
        raise Unsupported('index before it is moved')
    return i[3]


def lenof(ev, st, segs):
    """The length of a list; one that can not be written down is kept as the
    list it belongs to (and what is added) and can only be compared with a
    small number."""
    try:
        return ev.length(st, segs)
    except Unsupported as e:
        if 'varying pushes' not in str(e) and 'being built' not in str(e):
            raise
        return ('lenof', tuple(segs), num(0))


def lenof_op(ev, st, op, a, b, x=None, fr=None):
    if op == 'Add':
        if a[0] != 'lenof':
            a, b = b, a
        n = ev.numv(b) if b[0] != 'lenof' else b[2]
        if n is None:
            raise Unsupported('addition to the length of a list')
        return ret(st, ('lenof', a[1] + (b[1] if b[0] == 'lenof' else ()), lin_add(a[2], n)))
    if op == 'Sub' and a[0] == 'lenof' and b[0] != 'lenof' and a[2] == num(0):
        n = ev.numv(b)
        if n is None or n[1] or not 0 <= n[2] <= 3:
            raise Unsupported('subtraction from the length of a list')
        ev.site('subtraction', x, fr)
        res = []
        for s, e in ev.nth(st, a[1], n[2] - 1) if n[2] else [(st, True)]:
            res.append(ev.panic(s, 'subtraction', x, fr) if e is None else Out(s, None, ('lenof', a[1], lin_add(a[2], n, -1))))
        return res
    if a[0] != 'lenof':
        op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        a, b = b, a
    n = ev.numv(b) if b[0] != 'lenof' else None
    if a[2][1]:
        u = ev.units(a[2], None)
        if u is not None:
            a = ('lenof', a[1] + u, num(0))
    if n is not None:
        n = ev.canon(st, lin_add(n, a[2], -1))
    if n is None or n[1] or n[2] > 3 or op not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        raise Unsupported('length of a list with varying pushes')

    def least(st, k):
        if k <= 0 or k <= sum(1 for g in ev.segs(st, a[1]) if g[0] == 'e'):
            return [(st, True)]
        return [(s, r is not None) for s, r in ev.nth(st, a[1], k - 1)]
    k = n[2]
    res = []
    for s, r in least(st, k + 1 if op in ('Gt', 'Le') else k):
        if op in ('Ge', 'Gt', 'Lt', 'Le') or not r:
            res.append(Out(s, None, mkbool(r == (op in ('Ge', 'Gt')) if op not in ('Eq', 'Ne') else op == 'Ne')))
            continue
        for s2, more in least(s, k + 1):
            res.append(Out(s2, None, mkbool(more == (op == 'Ne'))))
    return res


def binop(ev, st, op, a, b, x, fr):
    op = OPN.get(op, op)
    if a[0] in ('idx', 'ridx') or b[0] in ('idx', 'ridx'):
        return idx_op(ev, st, op, a, b, x, fr)
    if ev.mode == 'tool' and (a[0] == 'u' or b[0] == 'u'):
        import tool
        return tool.binop(ev, st, op, a, b, x, fr)
    if a[0] == 'enumix' or b[0] == 'enumix':
        # an index of which only the least value is known
        k = ev.numv(b if a[0] == 'enumix' else a)
        i = a if a[0] == 'enumix' else b
        if a[0] == 'enumix' and b[0] == 'enumix' or k is None or k[0] != 'lin' or k[1]:
            raise Unsupported('comparison of indices')
        o = op if a[0] == 'enumix' else {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        r = {'Eq': False if k[2] < i[1] else None, 'Ne': True if k[2] < i[1] else None, 'Lt': False if k[2] <= i[1] else None,
             'Ge': True if k[2] <= i[1] else None, 'Le': False if k[2] < i[1] else None, 'Gt': True if k[2] < i[1] else None}.get(o)
        if r is None:
            raise Unsupported('comparison of an index')
        return ret(st, mkbool(r))
    if a[0] == 'lenof' or b[0] == 'lenof':
        return lenof_op(ev, st, op, a, b, x, fr)
    if op in ('Eq', 'Ne'):
        res = []
        for s, r in equal(ev, st, a, b):
            res.append(Out(s, None, mkbool(r == (op == 'Eq'))))
        return res
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        if a[0] in ('chr', 'chrlit') and b[0] in ('chr', 'chrlit'):
            if b[0] == 'chrlit':
                n = ord(b[1])
                s = {'Lt': ((0, n - 1),), 'Le': ((0, n),), 'Gt': ((n + 1, cs.MAX),), 'Ge': ((n, cs.MAX),)}[op]
                return [Out(s2, None, mkbool(r)) for s2, r in test_char(ev, st, a, cs.norm(s))]
            if a[0] == 'chrlit':
                n = ord(a[1])
                s = {'Gt': ((0, n - 1),), 'Ge': ((0, n),), 'Lt': ((n + 1, cs.MAX),), 'Le': ((n, cs.MAX),)}[op]
                return [Out(s2, None, mkbool(r)) for s2, r in test_char(ev, st, b, cs.norm(s))]
        na, nb = ev.numv(a), ev.numv(b)
        if na is None or nb is None:
            raise Unsupported('comparison of %s and %s' % (a[0], b[0]))
        return [Out(s, None, mkbool(r)) for s, r in compare_num(ev, st, op, na, nb)]
    if op in ('BitAnd', 'BitOr') and {a[0], b[0]} == {'bool', 'acc'}:
        k = a if a[0] == 'bool' else b
        return ret(st, k if k[1] == (op == 'BitOr') else b if k is a else a)
    if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'bool' and b[0] == 'bool':
        r = {'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1]}[op]
        return ret(st, mkbool(r))
    na, nb = ev.numv(a), ev.numv(b)
    if na is None or nb is None:
        raise Unsupported('%s on %s and %s' % (op, a[0], b[0]))
    if op == 'Add':
        return arith(ev, st, lin_add(na, nb), x, fr, 'addition')
    if op == 'Sub':
        v = lin_add(na, nb, -1)
        t = ev.ty(fr.body['exprs'][x['l']]['t'])
        if t['k'] == 'uint':
            if any(y[0] == 'acc' for y, _ in v[1]):
                raise Unsupported('subtraction from a number computed in a loop')
            ev.site('subtraction', x, fr)
            res = []
            for s, okk in decide(ev, st, v, '>='):
                if okk:
                    res.append(Out(s, None, v))
                else:
                    res.append(ev.panic(s, 'subtraction', x, fr))
            return res
        return ret(st, v)
    if op == 'Mul' and (not na[1] or not nb[1]):
        return arith(ev, st, lin_scale(nb, na[2]) if not na[1] else lin_scale(na, nb[2]), x, fr, 'multiplication')
    if not na[1] and not nb[1]:
        a, b = na[2], nb[2]
        if op in ('Div', 'Rem'):
            if b == 0:
                return [ev.panic(st, 'division by zero', x, fr)]
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return ret(st, num(q if op == 'Div' else a - q * b))
        if op == 'Shl':
            return ret(st, num(a << b))
        if op == 'Shr':
            return ret(st, num(a >> b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return ret(st, num({'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]))
    raise Unsupported('arithmetic ' + op)


def equal(ev, st, a, b):
    """[(state, a == b)]"""
    a, b = ev.read(st, a), ev.read(st, b)
    if ev.mode == 'tool' and (a[0] == 'u' or b[0] == 'u'):
        import tool
        return tool.equal(ev, st, a, b)
    if a == b and a[0] not in ('opq', 'u', 'enumix'):
        return [(st, True)]
    if a[0] == 'bytes' and b[0] == 'bytes':
        a, b = a[1], b[1]
    ka, kb = a[0], b[0]
    if ka in ('chr', 'chrlit') and kb in ('chr', 'chrlit'):
        if ka == 'chrlit' and kb == 'chrlit':
            return [(st, a[1] == b[1])]
        if ka == 'chr' and kb == 'chrlit':
            return test_char(ev, st, a, cs.of(b[1]))
        if ka == 'chrlit' and kb == 'chr':
            return test_char(ev, st, b, cs.of(a[1]))
        if a[1] is b[1]:
            return [(st, True)]
        raise Unsupported('comparison of two characters')
    if ka == 'bool' and kb == 'bool':
        return [(st, a[1] == b[1])]
    if ka == 'rem' and kb == 'rem':
        return decide(ev, st, lin_add(addr(a[1]), addr(b[1]), -1), '==')
    if ka in ('str', 'rem') or kb in ('str', 'rem'):
        la, lb = literal(a), literal(b)
        if la is not None and lb is not None:
            return [(st, la == lb)]
        if lb is not None:
            return text_eq(ev, st, a, lb)
        if la is not None:
            return text_eq(ev, st, b, la)
        if ka == 'sym':
            raise NeedInline(a[1])
        if kb == 'sym':
            raise NeedInline(b[1])
        raise Unsupported('comparison of two texts')
    if ka == 'sym' and kb == 'sym':
        ta = ev.symty(a)
        if not (ta and ta['k'] in ('int', 'uint')):
            raise NeedInline(a[1])
    na, nb = (ev.numv(a) if ka != 'sym' or True else None), None
    if ka in ('lin', 'sym', 'acc', 'num') and kb in ('lin', 'sym', 'acc', 'num'):
        na, nb = ev.numv(a), ev.numv(b)
        return decide(ev, st, lin_add(na, nb, -1), '==')
    if ka == 'sym':
        raise NeedInline(a[1])
    if kb == 'sym':
        raise NeedInline(b[1])
    if ka == 'adt' and kb == 'adt':
        if 'eq' in ev.manual.get(a[1], ()):
            raise Unsupported('comparison through the equality of %s, which is not derived' % a[1])
        if a[1] != b[1] or a[2] != b[2]:
            return [(st, False)]
        return conj(ev, st, list(zip(a[3], b[3])))
    if ka == 'tup' and kb == 'tup':
        return conj(ev, st, list(zip(a[1], b[1])))
    if ka == 'seq' and kb == 'seq':
        return seq_eq(ev, st, a[1], b[1])
    raise Unsupported('comparison of %s and %s' % (ka, kb))


def conj(ev, st, pairs):
    states = [st]
    out = []
    for a, b in pairs:
        nx = []
        for s in states:
            for s2, r in equal(ev, s, a, b):
                (nx.append(s2) if r else out.append((s2, False)))
        states = nx
    return out + [(s, True) for s in states]


def seq_eq(ev, st, a, b):
    out = []
    for s, ra in ev.first(st, a):
        for s2, rb in ev.first(s, b):
            if ra is None or rb is None:
                out.append((s2, ra is None and rb is None))
                continue
            for s3, r in equal(ev, s2, ra[0], rb[0]):
                if not r:
                    out.append((s3, False))
                else:
                    out.extend(seq_eq(ev, s3, ra[1], rb[1]))
    return out


def text_eq(ev, st, v, lit):
    if v[0] == 'rem':
        if lit == '':
            return decide(ev, st, lin_add(END, addr(v[1]), -1), '==')
        raise Unsupported('comparison of the whole remaining input')
    if lit == '' and v[0] == 'str':
        return decide(ev, st, strlen(ev, st, v), '==')
    return in_lang(ev, st, v, rx.words([lit]))


def in_range(ev, st, v, lo, hi, incl):
    if v[0] in ('chr', 'chrlit'):
        a = ord(lo[1]) if lo is not None else 0
        b = ord(hi[1]) if hi is not None else cs.MAX
        if hi is not None and not incl:
            b -= 1
        return test_char(ev, st, v, cs.norm(((a, b),)))
    n = ev.numv(v)
    if n is None:
        raise Unsupported('range test on %s' % v[0])
    out = []
    states = [st]
    if lo is not None:
        nx = []
        for s in states:
            for s2, r in compare_num(ev, s, 'Ge', n, lo):
                (nx.append(s2) if r else out.append((s2, False)))
        states = nx
    if hi is not None:
        nx = []
        for s in states:
            for s2, r in compare_num(ev, s, 'Le' if incl else 'Lt', n, hi):
                (nx.append(s2) if r else out.append((s2, False)))
        states = nx
    return out + [(s, True) for s in states]


def strlen(ev, st, v):
    v = ev.read(st, v)
    if v[0] == 'rem':
        return lin_add(END, addr(v[1]), -1)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] != 'str':
        raise Unsupported('length of %s' % v[0])
    n = num(0)
    for p in v[1]:
        if p[0] == 'l':
            n = lin_add(n, num(len(p[1].encode('utf8'))))
        elif p[0] == 't':
            e = END if p[2] is None else addr(p[2])
            n = lin_add(n, lin_add(e, addr(p[1]), -1))
        elif p[0] == 'v' and p[1][0] == 'sym':
            raise NeedInline(p[1][1])
        else:
            raise Unsupported('length of composed text')
    return n


# ---- lists --------------------------------------------------------------

def get_segs(c, v):
    v = c.ev.read(c.st, v)
    if v[0] in ('seq', 'iter'):
        return v[1]
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] == 'adt' and v[1] == OPTION:
        return tuple(('e', f) for f in v[3])
    if v[0] == 'adt' and v[1] == RESULT:
        return tuple(('e', f) for f in v[3]) if v[2] == 0 else ()
    if v[0] == 'str' or v[0] == 'rem':
        l = literal(v)
        if l is not None:
            return tuple(('e', ('chrlit', ch)) for ch in l)
    if v[0] == 'adt' and v[1].startswith('std::ops::Range'):
        return range_segs(c, v)
    if v[0] == 'chars':
        raise Unsupported('iterating over the input by characters')
    raise Unsupported('iterating over %s' % v[0])


def range_segs(c, v):
    ev = c.ev
    lo = ev.numv(v[3][0])
    if len(v[3]) < 2:
        raise Unsupported('unbounded range')
    hi = ev.numv(v[3][1])
    if lo is None or hi is None or lo[1]:
        raise Unsupported('range with unknown start')
    if 'Inclusive' in v[1]:
        hi = lin_add(hi, num(1))
    hi = ev.canon(c.st, hi)
    if not hi[1]:
        return tuple(('e', num(i)) for i in range(lo[2], min(hi[2], lo[2] + 200)))
    # indices of a list of that length
    for cell, val in c.st.cells.items():
        if val[0] == 'seq':
            try:
                n = ev.length(c.st, val[1])
            except Unsupported:
                continue
            less = ev.canon(c.st, lin_add(n, hi, -1))
            if not less[1] and 0 <= less[2] <= 3:
                out = []
                i = 0
                star = False
                ix = len(ev.ixlists)
                ev.ixlists.append((val[1], None))
                for sg in ev.segs(c.st, val[1]):
                    if sg[0] == 's':
                        star = True
                        L, slot = sg[1], sg[2]
                        ns = ('ix', slot, ix)
                        for a in L.alts:
                            a.pushes[ns] = tuple(('e', ('ixof', e[1], ix)) for e in a.pushes.get(slot, ()))
                        out.append(('s', L, ns, sg[3]))
                    elif not star:
                        out.append(('e', num(i)))
                        i += 1
                    else:
                        out.append(('e', ('ixof', sg[1], ix)))
                for _ in range(less[2]):
                    if not out or out[-1][0] != 'e':
                        raise Unsupported('range with unknown end')
                    out.pop()
                if lo[2] <= i:
                    return tuple(out[lo[2]:])
                # start lies inside the repeated part
                res = []
                raise Unsupported('range starting inside a repeated part')
    raise Unsupported('range with unknown end')


def write_seq(c, i, st, segs):
    return c.ev.write(st, c.args[i], ('seq', tuple(segs)))


def index(ev, st, v, i, x, fr):
    v = ev.read(st, v)
    i = ev.read(st, i)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if i[0] == 'ixof':
        if v[0] != 'seq' or v[1] != ev.ixlists[i[2]][0]:
            raise Unsupported('index of another list')
        return ret(st, i[1])
    if i[0] in ('idx', 'ridx'):
        ev.site('index out of bounds', x, fr)
        e = idx_element(ev, st, v, i)
        return [ev.panic(st, 'index out of bounds', x, fr)] if e is None else ret(st, e)
    if v[0] in ('seq',):
        if i[0] == 'adt' and 'Range' in i[1]:
            return slice_range(ev, st, v, i, x, fr)
        if i[0] == 'lenof' and i[1] == v[1] and not i[2][1] and -3 <= i[2][2] < 0:
            ev.site('index out of bounds', x, fr)
            out = []
            acc = [(st, v[1], None)]
            for _ in range(-i[2][2]):
                nx = []
                for s, segs, _e in acc:
                    for s2, r in ev.last(s, segs):
                        if r is None:
                            out.append(ev.panic(s2, 'index out of bounds', x, fr))
                        else:
                            nx.append((s2, r[1], r[0]))
                acc = nx
            return out + [Out(s, None, val) for s, _s, val in acc]
        n = ev.numv(i)
        if n is None or n[1]:
            # index relative to the end
            if n is not None:
                ln = ev.length(st, v[1])
                d = count_form(ev, st, lin_add(ln, n, -1))
                if not d[1] and d[2] > 0:
                    k = d[2] - 1
                    out = []
                    acc = [(st, v[1])]
                    for _ in range(k + 1):
                        nx = []
                        for s, segs in acc:
                            for s2, r in ev.last(s, segs):
                                if r is None:
                                    out.append(ev.panic(s2, 'index out of bounds', x, fr))
                                else:
                                    nx.append((s2, r[1], r[0]))
                        acc = [(s, sg) for s, sg, _ in nx]
                        vals = nx
                    return out + [Out(s, None, val) for s, _, val in vals]
            raise Unsupported('index is not a constant')
        ev.site('index out of bounds', x, fr)
        out = []
        for s, r in ev.nth(st, v[1], n[2]):
            if r is None:
                out.append(ev.panic(s, 'index out of bounds', x, fr))
            else:
                out.append(Out(s, None, r[0]))
        return out
    if v[0] in ('str', 'rem') and i[0] == 'adt' and 'Range' in i[1]:
        return slice_text(ev, st, v, i, x, fr)
    if ev.mode == 'tool':
        import tool
        return tool.index(ev, st, v, i, x, fr)
    raise Unsupported('index of %s' % v[0])


def range_bounds(i):
    p = i[1].split('::')[-1]
    f = i[3]
    if p == 'Range':
        return f[0], f[1], False
    if p == 'RangeFrom':
        return f[0], None, False
    if p == 'RangeTo':
        return None, f[0], False
    if p == 'RangeFull':
        return None, None, False
    if p == 'RangeInclusive':
        return f[0], f[1], True
    if p == 'RangeToInclusive':
        return None, f[0], True
    raise Unsupported(p)


def slice_range(ev, st, v, i, x, fr):
    lo, hi, incl = range_bounds(i)
    lo = ev.numv(ev.read(st, lo)) if lo is not None else num(0)
    if lo[1]:
        raise Unsupported('slice start')
    ev.site('slice out of bounds', x, fr)
    out = []
    acc = [(st, v[1])]
    for _ in range(lo[2]):
        nx = []
        for s, segs in acc:
            for s2, r in ev.first(s, segs):
                if r is None:
                    out.append(ev.panic(s2, 'slice out of bounds', x, fr))
                else:
                    nx.append((s2, r[1]))
        acc = nx
    if hi is None:
        return out + [Out(s, None, ('seq', sg)) for s, sg in acc]
    h = ev.numv(ev.read(st, hi))
    if incl:
        h = lin_add(h, num(1))
    if not h[1]:
        want = h[2] - lo[2]
        res = []
        for s, segs in acc:
            cur = [(s, segs, ())]
            for _ in range(max(want, 0)):
                nx = []
                for s1, sg, got in cur:
                    for s2, r in ev.first(s1, sg):
                        if r is None:
                            out.append(ev.panic(s2, 'slice out of bounds', x, fr))
                        else:
                            nx.append((s2, r[1], got + (('e', r[0]),)))
                cur = nx
            res.extend(Out(s1, None, ('seq', got)) for s1, sg, got in cur)
        return out + res
    res = []
    for s, segs in acc:
        ln = ev.length(s, v[1])
        d = ev.canon(s, lin_add(ln, h, -1))
        if d[1] or d[2] < 0:
            raise Unsupported('slice end')
        cur = [(s, segs)]
        for _ in range(d[2]):
            nx = []
            for s1, sg in cur:
                for s2, r in ev.last(s1, sg):
                    if r is None:
                        out.append(ev.panic(s2, 'slice out of bounds', x, fr))
                    else:
                        nx.append((s2, r[1]))
            cur = nx
        res.extend(Out(s1, None, ('seq', sg)) for s1, sg in cur)
    return out + res


def text_base(v):
    t = single_text(v)
    if t is None:
        raise Unsupported('slicing composed text')
    return t


def slice_text(ev, st, v, i, x, fr):
    lo, hi, incl = range_bounds(i)
    ev.site('slice out of bounds', x, fr)
    l = literal(v)
    if l is not None:
        b = l.encode('utf8')
        a = ev.numv(lo)[2] if lo is not None else 0
        z = ev.numv(hi)[2] + (1 if incl else 0) if hi is not None else len(b)
        if not (0 <= a <= z <= len(b)):
            return [ev.panic(st, 'slice out of bounds', x, fr)]
        return ret(st, strlit(b[a:z].decode('utf8')))
    p, q = text_base(v)
    lo = ev.numv(ev.read(st, lo)) if lo is not None else num(0)
    s, a = resolve(ev, st, p, lo)
    if hi is None:
        if v[0] == 'rem' or q is None:
            return ret(s, ('rem', a) if v[0] == 'rem' else text(a, None))
        return ret(s, text(a, q))
    h = ev.numv(ev.read(st, hi))
    if incl:
        h = lin_add(h, num(1))
    s, z = resolve(ev, s, p, h)
    if z == 'END':
        return ret(s, text(a, None))
    return ret(s, text(a, z))


def resolve(ev, st, p, off):
    r = ev.resolve(st, p, off)
    if r is None:
        raise Unsupported('offset %s is not a known position' % (off,))
    return r


def match_slice(ev, st, pat, v, fr):
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] == 'adt' and v[1].endswith('Vec'):
        raise Unsupported('slice pattern')
    if v[0] not in ('seq', 'iter'):
        raise Unsupported('slice pattern on %s' % v[0])
    out = []
    acc = [(st, v[1], ())]
    for q in pat['pre']:
        nx = []
        for s, segs, got in acc:
            for s2, r in ev.first(s, segs):
                if r is None:
                    out.append((s2, False))
                else:
                    nx.append((s2, r[1], got + ((q, r[0]),)))
        acc = nx
    for q in reversed(pat['suf']):
        nx = []
        for s, segs, got in acc:
            for s2, r in ev.last(s, segs):
                if r is None:
                    out.append((s2, False))
                else:
                    nx.append((s2, r[1], got + ((q, r[0]),)))
        acc = nx
    res = []
    for s, segs, got in acc:
        if pat['mid'] is None:
            for s2, r in ev.first(s, segs):
                if r is None:
                    res.append((s2, got, None))
                else:
                    out.append((s2, False))
        else:
            res.append((s, got, ('seq', ev.segs(s, segs))))
    fin = []
    for s, got, mid in res:
        todo = list(got)
        if mid is not None and pat['mid'] is not None:
            todo.append((pat['mid'], mid))
        states = [s]
        for q, val in todo:
            nx = []
            for s1 in states:
                for s2, m in ev.match(s1, q, val, fr, None):
                    (nx.append(s2) if m else out.append((s2, False)))
            states = nx
        fin.extend((s1, True) for s1 in states)
    return out + fin


# ---- handlers -----------------------------------------------------------
H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


@h('clone', 'to_owned', 'into', 'from', 'as_str', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'to_vec',
   'into_boxed_slice', 'as_slice', 'into_vec', 'as_mut_slice', 'into_string', 'as_deref', 'cloned', 'copied', 'by_ref', 'identity',
   'fuse', 'into_inner', 'must_use', 'black_box', 'as_mut_str', 'peekable', 'into_owned', 'unbox', 'to_str', 'into_boxed_str')
def _ident(c):
    v = c.args[0]
    if v[0] == 'mref' and c.name in ('clone', 'to_owned', 'to_vec', 'as_str', 'as_slice', 'deref', 'as_ref', 'cloned', 'copied', 'borrow', 'into', 'from'):
        v = c.r(0)
    if c.name in ('into', 'from'):
        a = c.f.get('a') or []
        if len(a) > 1 and a[0] != a[1]:
            to, of = c.ev.ty(a[0 if c.name == 'from' else 1]), a[1 if c.name == 'from' else 0]
            if to['k'] == 'adt' and to['a'] and to['a'][0] == of:
                if to['p'] == OPTION:
                    return ret(c.st, some(v))
                if to['p'].endswith('::Box'):
                    return ret(c.st, v)
        if len(a) > 1 and a[0] != a[1] and any(c.ev.ty(y)['k'] == 'adt' and c.ev.ty(y)['p'] in c.ev.prog.adts
                                               and c.ev.prog.adts[c.ev.ty(y)['p']]['local'] for y in a):
            raise Unsupported('conversion to or from a type of this crate')
        t = c.ev.ty(a[0 if c.name == 'from' else 1]) if len(a) > 1 else {'k': '?'}
        w = c.r(0)
        if t['k'] == 'char' and w[0] in ('lin', 'num'):
            return ret(c.st, ('chrlit', chr(w[2])) if w[0] == 'lin' and not w[1] else ('cast', 'char', w))
        if t['k'] in ('int', 'uint') and w[0] in ('chr', 'chrlit', 'bool'):
            return ret(c.st, ('num', ('ord', w)) if w[0] == 'chr' else c.ev.numv(w))
    return ret(c.st, v)


H['std::boxed::Box::new'] = _ident
H['std::rc::Rc::new'] = _ident


@h('write_box_via_move')
def _wb(c):
    return ret(c.st, c.args[1])


@h('box_assume_init_into_vec_unsafe', 'assume_init')
def _bv(c):
    return ret(c.st, c.args[0])


@h('new_uninit')
def _nu(c):
    return ret(c.st, ('opq', 'uninit'))


@h('to_string')
def _tostr(c):
    return ret(c.st, mkstr(as_pieces(c.ev, c.st, c.args[0])))


@h('drop', 'forget', 'reserve', 'shrink_to_fit')
def _drop(c):
    return ret(c.st, UNIT)


def _new(c):
    if 'Vec' in c.p or 'VecDeque' in c.p:
        return ret(c.st, ('seq', ()))
    if 'String' in c.p:
        return ret(c.st, ('str', ()))
    if c.p == 'regex::Regex::new':
        l = literal(c.r(0))
        if l is None:
            raise Unsupported('regex pattern is not a literal')
        where = c.ev.where(c.x, c.fr)
        try:
            d, anch = rx.compile(l)
        except rx.RxError as e:
            raise Unsupported('regex %r: %s' % (l, e))
        except Exception as e:
            raise Unsupported('regex %r: %r' % (l, e))
        c.ev.regexes.append((c.ev.cur.key[0] if c.ev.cur else '?', where, l, anch))
        return ret(c.st, ok(('regex', l)))
    if c.p == 'std::fmt::Arguments::new':
        return ret(c.st, ('fmt', c.r(0), c.r(1)))
    if c.args and c.p.endswith('::new'):
        if len(c.args) == 1:
            return ret(c.st, c.args[0])
    raise Unsupported('constructor ' + c.p)


H['new'] = _new
H['with_capacity'] = lambda c: ret(c.st, ('seq', ()) if 'Vec' in c.p else ('str', ()))


@h('default')
def _default(c):
    t = c.ev.ty(c.x['t'])
    if t['k'] == 'adt':
        n = t['p']
        if n.endswith('Vec'):
            return ret(c.st, ('seq', ()))
        if n.endswith('String'):
            return ret(c.st, ('str', ()))
        if n == OPTION:
            return ret(c.st, NONE)
    if t['k'] in ('int', 'uint'):
        return ret(c.st, num(0))
    if t['k'] == 'bool':
        return ret(c.st, FALSE)
    raise Unsupported('Default of %s' % t['k'])


# Fn traits
@h('call', 'call_mut', 'call_once')
def _callfn(c):
    t = c.args[1]
    t = c.ev.read(c.st, t)
    return c.call(c.ev.read(c.st, c.args[0]), t[1])


# ? operator
@h('branch')
def _branch(c):
    v = adtv(c)
    okk = good(v)
    CF = 'std::ops::ControlFlow'
    if okk:
        return ret(c.st, ('adt', CF, 0, (v[3][0],)))
    return ret(c.st, ('adt', CF, 1, (v,)))


@h('from_residual')
def _resid(c):
    return ret(c.st, c.args[0])


@h('from_output')
def _fo(c):
    t = c.ev.ty(c.x['t'])
    return ret(c.st, ok(c.args[0]) if t['p'] == RESULT else some(c.args[0]))


# Option / Result
def _is_iter(v):
    return v[0] in ('seq', 'iter', 'chars') or (v[0] == 'adt' and v[1].startswith('std::ops::Range'))


def good(v):
    if v[0] != 'adt':
        raise Unsupported('success of %s' % v[0])
    return (v[1] == RESULT and v[2] == 0) or (v[1] == OPTION and v[2] == 1)


def rewrap(v, n):
    return ('adt', v[1], v[2], (n,))


def _map(c):
    v = c.r(0)
    if _is_iter(v):
        def f(s, e):
            out = []
            for o in c.call(c.args[1], [e], s):
                if o.ctl is not None:
                    raise Unsupported('closure leaves an iterator chain')
                out.append((o.st, (('e', o.val),)))
            return out
        return [Out(s, None, ('iter', sg)) for s, sg in c.ev.map_segs(c.st, get_segs(c, v), f)]
    v = adtv(c)
    if v[0] != 'adt':
        raise Unsupported('map on %s' % v[0])
    if not good(v):
        return ret(c.st, v)
    return bindouts(c.call(c.args[1], [v[3][0]]), lambda s, r: ret(s, rewrap(v, r)))


H['map'] = _map


@h('map_err')
def _map_err(c):
    v = adtv(c)
    if good(v):
        return ret(c.st, v)
    return bindouts(c.call(c.args[1], [v[3][0]]), lambda s, r: ret(s, err(r)))


@h('and_then')
def _and_then(c):
    v = adtv(c)
    if not good(v):
        return ret(c.st, v)
    return c.call(c.args[1], [v[3][0]])


@h('and')
def _and(c):
    v = adtv(c)
    return ret(c.st, c.args[1] if good(v) else v)


@h('or')
def _or(c):
    v = adtv(c)
    return ret(c.st, v if good(v) else c.args[1])


@h('or_else')
def _or_else(c):
    v = adtv(c)
    if good(v):
        return ret(c.st, v)
    return c.call(c.args[1], list(v[3]))


@h('unwrap', 'expect')
def _unwrap(c):
    v = adtv(c)
    if v[0] == 'regex' or v[0] not in ('adt',):
        raise Unsupported('unwrap of %s' % v[0])
    c.ev.site(c.name, c.x, c.fr)
    if good(v):
        return ret(c.st, v[3][0])
    return [c.ev.panic(c.st, c.name, c.x, c.fr)]


@h('unwrap_err', 'expect_err')
def _unwrap_err(c):
    v = adtv(c)
    c.ev.site(c.name, c.x, c.fr)
    if not good(v):
        return ret(c.st, v[3][0])
    return [c.ev.panic(c.st, c.name, c.x, c.fr)]


@h('unwrap_or')
def _unwrap_or(c):
    v = adtv(c)
    return ret(c.st, v[3][0] if good(v) else c.args[1])


@h('unwrap_or_else')
def _unwrap_or_else(c):
    v = adtv(c)
    if good(v):
        return ret(c.st, v[3][0])
    return c.call(c.args[1], list(v[3]))


@h('unwrap_or_default')
def _unwrap_or_default(c):
    v = adtv(c)
    if good(v):
        return ret(c.st, v[3][0])
    return _default(c)


@h('map_or')
def _map_or(c):
    v = adtv(c)
    if good(v):
        return c.call(c.args[2], [v[3][0]])
    return ret(c.st, c.args[1])


@h('map_or_else')
def _map_or_else(c):
    v = adtv(c)
    if good(v):
        return c.call(c.args[2], [v[3][0]])
    return c.call(c.args[1], list(v[3]))


@h('ok')
def _ok(c):
    v = adtv(c)
    return ret(c.st, some(v[3][0]) if good(v) else NONE)


@h('err')
def _err(c):
    v = adtv(c)
    return ret(c.st, NONE if good(v) else some(v[3][0]))


@h('ok_or')
def _ok_or(c):
    v = adtv(c)
    return ret(c.st, ok(v[3][0]) if good(v) else err(c.args[1]))


@h('ok_or_else')
def _ok_or_else(c):
    v = adtv(c)
    if good(v):
        return ret(c.st, ok(v[3][0]))
    return bindouts(c.call(c.args[1], []), lambda s, r: ret(s, err(r)))


@h('is_some', 'is_ok')
def _is_some(c):
    return ret(c.st, mkbool(good(adtv(c))))


@h('is_none', 'is_err')
def _is_none(c):
    return ret(c.st, mkbool(not good(adtv(c))))


@h('is_some_and', 'is_ok_and')
def _isa(c):
    v = adtv(c)
    if not good(v):
        return ret(c.st, FALSE)
    return c.call(c.args[1], [v[3][0]])


@h('take')
def _take(c):
    v = c.r(0)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] == 'adt' and v[1] == OPTION:
        return ret(c.ev.write(c.st, c.args[0], NONE), v)
    if _is_iter(v):
        n = c.ev.numv(c.r(1))
        if n is None or n[1]:
            raise Unsupported('take of unknown length')
        acc = [(c.st, get_segs(c, v), ())]
        done = []
        for _ in range(n[2]):
            nx = []
            for s, sg, got in acc:
                for s2, r in c.ev.first(s, sg):
                    if r is None:
                        done.append(Out(s2, None, ('iter', got)))
                    else:
                        nx.append((s2, r[1], got + (('e', r[0]),)))
            acc = nx
        return done + [Out(s, None, ('iter', got)) for s, sg, got in acc]
    if v[0] == 'seq':
        return ret(c.ev.write(c.st, c.args[0], ('seq', ())), v)
    if v[0] == 'str':
        return ret(c.ev.write(c.st, c.args[0], ('str', ())), v)
    raise Unsupported('take on %s' % v[0])


@h('replace')
def _replace(c):
    if c.p.startswith('std::mem') or c.p.startswith('core::mem') or c.args[0][0] == 'mref':
        v = c.r(0)
        return ret(c.ev.write(c.st, c.args[0], c.args[1]), v)
    a, b = literal(c.r(1)), literal(c.r(2))
    if a is not None and b is not None and c.r(0)[0] == 'str':
        if a == b:
            return ret(c.st, c.r(0))
        if len(a) == 1:
            # nothing to replace
            s = cs.of(a)
            d = rx.Dfa([[(cs.compl(s), 0), (s, 1)], [(cs.ALL, 1)]], [False, True])
            if all(not b for _, b in in_lang(c.ev, c.st, c.r(0), d)):
                return ret(c.st, c.r(0))
    raise Unsupported('replace')


@h('retain')
def _retain(c):
    v = c.r(0)
    if c.args[0][0] != 'mref':
        raise Unsupported('retain')
    if v[0] == 'str':
        s = cs.compl(pred_charset(c, c.args[1]))
        d = rx.Dfa([[(cs.compl(s), 0), (s, 1)], [(cs.ALL, 1)]], [False, True])
        if any(b for _, b in in_lang(c.ev, c.st, v, d)):
            raise Unsupported('characters taken out of a text')
        return ret(c.st, UNIT)
    out = []
    for o in H['filter'](C(c.ev, c.st, c.f, [('iter', tuple(get_segs(c, v))), c.args[1]], c.x, c.fr)):
        out.append(Out(c.ev.write(o.st, c.args[0], ('seq', tuple(o.val[1]))), None, UNIT))
    return out


@h('trim', 'trim_end', 'trim_start')
def _trim(c):
    v = c.r(0)
    l = literal(v)
    if l is not None:
        ws = ''.join(chr(x) for x in cs._WS)
        return ret(c.st, mkstr((('l', {'trim': l.strip, 'trim_end': l.rstrip, 'trim_start': l.lstrip}[c.name](ws)),)))
    if v[0] != 'str':
        raise Unsupported(c.name)
    w = cs.by_pred('whitespace')
    n = cs.compl(w)
    ds = []
    if c.name != 'trim_end':
        ds.append(rx.Dfa([[(w, 1), (n, 2)], [(cs.ALL, 1)], [(cs.ALL, 2)]], [False, True, False]))
    if c.name != 'trim_start':
        ds.append(rx.Dfa([[(w, 1), (n, 0)], [(w, 1), (n, 0)]], [False, True]))
    for d in ds:
        if any(b for _, b in in_lang(c.ev, c.st, v, d)):
            raise Unsupported('a text that is trimmed')
    return ret(c.st, v)


@h('as_bytes', 'into_bytes', 'bytes')
def _bytes(c):
    v = c.r(0)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if c.name == 'bytes':
        t = single_text(v)
        if t is not None and t[1] is not None:
            d = rx.Dfa([[(((0, 127),), 0), (((128, cs.MAX),), 1)], [(cs.ALL, 1)]], [False, True])
            if all(not b for _, b in in_lang(c.ev, c.st, v, d)):
                return ret(c.st, ('tchars', t[0], t[1]))
        raise Unsupported('bytes')
    if v[0] not in ('str', 'rem'):
        raise Unsupported('bytes of %s' % v[0])
    return ret(c.st, ('bytes', v))


@h('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked')
def _utf8(c):
    v = c.r(0)
    if v[0] != 'bytes':
        raise Unsupported(c.name)
    return ret(c.st, ok(v[1]) if c.name == 'from_utf8' else v[1])


@h('write_fmt', 'write_str', 'write_char')
def _write_fmt(c):
    v = c.r(0)
    if v[0] != 'str' or c.args[0][0] != 'mref' or c.p.startswith('std::io'):
        raise Unsupported(c.p)
    ps = fmt_pieces(c.ev, c.st, c.r(1)) if c.name == 'write_fmt' else as_pieces(c.ev, c.st, c.args[1])
    return ret(c.ev.write(c.st, c.args[0], ('str', norm_pieces(v[1] + tuple(ps)))), ok(UNIT))


@h('swap')
def _swap(c):
    a, b = c.r(0), c.r(1)
    s = c.ev.write(c.st, c.args[0], b)
    return ret(c.ev.write(s, c.args[1], a), UNIT)


# lists
@h('push', 'push_back')
def _push(c):
    v = c.r(0)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    if v[0] == 'str':
        return ret(c.ev.write(c.st, c.args[0], ('str', norm_pieces(v[1] + tuple(as_pieces(c.ev, c.st, c.args[1]))))), UNIT)
    if v[0] == 'opq':
        return ret(c.st, UNIT)
    if v[0] != 'seq':
        raise Unsupported('push on %s' % v[0])
    return ret(c.ev.write(c.st, c.args[0], ('seq', v[1] + (('e', c.args[1]),))), UNIT)


@h('push_str')
def _push_str(c):
    v = c.r(0)
    if v[0] == 'sym':
        v = ('str', (('v', v),))
    return ret(c.ev.write(c.st, c.args[0], ('str', norm_pieces(v[1] + tuple(as_pieces(c.ev, c.st, c.args[1]))))), UNIT)


@h('push_front')
def _push_front(c):
    v = c.r(0)
    return ret(c.ev.write(c.st, c.args[0], ('seq', (('e', c.args[1]),) + v[1])), UNIT)


@h('insert')
def _insert(c):
    v = c.r(0)
    n = c.ev.numv(c.r(1))
    if v[0] != 'seq' or n is None or n[1]:
        raise Unsupported('insert')
    if n[2] == 0:
        return ret(c.ev.write(c.st, c.args[0], ('seq', (('e', c.args[2]),) + v[1])), UNIT)
    raise Unsupported('insert at %d' % n[2])


@h('extend', 'extend_from_slice', 'append')
def _extend(c):
    v = c.r(0)
    if v[0] == 'str':
        ps = v[1]
        w = c.r(1)
        if w[0] in ('tchars', 'titer'):
            ps = ps + (w[1] if w[0] == 'titer' else tuple(as_pieces(c.ev, c.st, text(w[1], w[2]))))
            return ret(c.ev.write(c.st, c.args[0], ('str', norm_pieces(ps))), UNIT)
        for sg in get_segs(c, c.args[1]):
            if sg[0] != 'e':
                raise Unsupported('extend text by a repeated part')
            ps = ps + tuple(as_pieces(c.ev, c.st, sg[1]))
        return ret(c.ev.write(c.st, c.args[0], ('str', norm_pieces(ps))), UNIT)
    if v[0] == 'sym':
        raise NeedInline(v[1])
    segs = get_segs(c, c.args[1])
    s = c.ev.write(c.st, c.args[0], ('seq', v[1] + tuple(segs)))
    if c.name == 'append':
        s = c.ev.write(s, c.args[1], ('seq', ()))
    return ret(s, UNIT)


@h('pop', 'pop_back')
def _pop(c):
    v = adtv(c)
    if v[0] == 'str':
        raise Unsupported('pop on text')
    widen(c, c.args[0], c.ev.segs(c.st, v[1]), True)
    out = []
    for s, r in c.ev.last(c.st, v[1]):
        if r is None:
            out.append(Out(c.ev.write(s, c.args[0], ('seq', ())), None, NONE))
        else:
            out.append(Out(c.ev.write(s, c.args[0], ('seq', r[1])), None, some(r[0])))
    return out


@h('pop_front')
def _pop_front(c):
    v = adtv(c)
    widen(c, c.args[0], c.ev.segs(c.st, v[1]), False)
    out = []
    for s, r in c.ev.first(c.st, v[1]):
        if r is None:
            out.append(Out(c.ev.write(s, c.args[0], ('seq', ())), None, NONE))
        else:
            out.append(Out(c.ev.write(s, c.args[0], ('seq', r[1])), None, some(r[0])))
    return out


@h('remove', 'swap_remove')
def _remove(c):
    v = adtv(c)
    n = c.ev.numv(c.r(1))
    if v[0] != 'seq' or n is None or n[1] or n[2] > 20:
        raise Unsupported('remove')
    c.ev.site('remove', c.x, c.fr)
    if c.name == 'swap_remove':
        ln = c.ev.length(c.st, v[1])
        if ln[1] or ln[2] != n[2] + 1:
            raise Unsupported('swap_remove')
    out = []
    acc = [(c.st, c.ev.segs(c.st, v[1]), ())]
    for _ in range(n[2]):
        nx = []
        for s, sg, got in acc:
            for s2, r in c.ev.first(s, sg):
                if r is None:
                    out.append(c.ev.panic(s2, 'remove', c.x, c.fr))
                else:
                    nx.append((s2, r[1], got + (('e', r[0]),)))
        acc = nx
    for s, sg, got in acc:
        for s2, r in c.ev.first(s, sg):
            if r is None:
                out.append(c.ev.panic(s2, 'remove', c.x, c.fr))
            else:
                out.append(Out(c.ev.write(s2, c.args[0], ('seq', got + tuple(r[1]))), None, r[0]))
    return out


@h('split_off')
def _split_off(c):
    v = adtv(c)
    n = c.ev.numv(c.r(1))
    if n is None or n[1]:
        raise Unsupported('split_off')
    c.ev.site('split_off', c.x, c.fr)
    acc = [(c.st, c.ev.segs(c.st, v[1]), ())]
    out = []
    for _ in range(n[2]):
        nx = []
        for s, sg, got in acc:
            for s2, r in c.ev.first(s, sg):
                if r is None:
                    out.append(c.ev.panic(s2, 'split_off', c.x, c.fr))
                else:
                    nx.append((s2, r[1], got + (('e', r[0]),)))
        acc = nx
    return out + [Out(c.ev.write(s, c.args[0], ('seq', got)), None, ('seq', sg)) for s, sg, got in acc]


@h('drain')
def _drain(c):
    v = adtv(c)
    i = c.r(1)
    lo, hi, incl = range_bounds(i)
    if lo is None and hi is None:
        return ret(c.ev.write(c.st, c.args[0], ('seq', ())), ('iter', v[1]))
    if hi is None:
        n = c.ev.numv(lo)
        if n is None or n[1]:
            raise Unsupported('drain')
        out = []
        acc = [(c.st, c.ev.segs(c.st, v[1]), ())]
        for _ in range(n[2]):
            nx = []
            for s, sg, got in acc:
                for s2, r in c.ev.first(s, sg):
                    if r is None:
                        out.append(c.ev.panic(s2, 'drain', c.x, c.fr))
                    else:
                        nx.append((s2, r[1], got + (('e', r[0]),)))
            acc = nx
        return out + [Out(c.ev.write(s, c.args[0], ('seq', got)), None, ('iter', sg)) for s, sg, got in acc]
    raise Unsupported('drain')


@h('clear')
def _clear(c):
    v = c.r(0)
    return ret(c.ev.write(c.st, c.args[0], ('str', ()) if v[0] == 'str' else ('seq', ())), UNIT)


@h('truncate')
def _truncate(c):
    v = adtv(c)
    n = c.ev.numv(c.r(1))
    if v[0] != 'seq' or n is None or n[1]:
        raise Unsupported('truncate')
    out = []
    acc = [(c.st, c.ev.segs(c.st, v[1]), ())]
    for _ in range(n[2]):
        nx = []
        for s, sg, got in acc:
            for s2, r in c.ev.first(s, sg):
                if r is None:
                    out.append(Out(c.ev.write(s2, c.args[0], ('seq', got)), None, UNIT))
                else:
                    nx.append((s2, r[1], got + (('e', r[0]),)))
        acc = nx
    return out + [Out(c.ev.write(s, c.args[0], ('seq', got)), None, UNIT) for s, sg, got in acc]


@h('reverse')
def _reverse(c):
    v = adtv(c)
    return ret(c.ev.write(c.st, c.args[0], ('seq', rev_segs(c.ev.segs(c.st, v[1])))), UNIT)


@h('last')
def _last(c):
    v = c.r(0)
    return [Out(s, None, NONE if r is None else some(r[0])) for s, r in c.ev.last(c.st, get_segs(c, v))]


@h('first')
def _first(c):
    v = c.r(0)
    return [Out(s, None, NONE if r is None else some(r[0])) for s, r in c.ev.first(c.st, get_segs(c, v))]


@h('split_first')
def _split_first(c):
    return [Out(s, None, NONE if r is None else some(('tup', (r[0], ('seq', r[1])))))
            for s, r in c.ev.first(c.st, get_segs(c, c.args[0]))]


@h('split_last')
def _split_last(c):
    return [Out(s, None, NONE if r is None else some(('tup', (r[0], ('seq', r[1])))))
            for s, r in c.ev.last(c.st, get_segs(c, c.args[0]))]


@h('split_at')
def _split_at(c):
    v = c.r(0)
    n = c.ev.numv(c.r(1))
    if v[0] in ('str', 'rem'):
        p, q = text_base(v)
        s, a = resolve(c.ev, c.st, p, n)
        tail = ('rem', a) if v[0] == 'rem' else text(a, q)
        return ret(s, ('tup', (text(p, a), tail)))
    if n is None or n[1]:
        raise Unsupported('split_at')
    c.ev.site('split_at', c.x, c.fr)
    out = []
    acc = [(c.st, c.ev.segs(c.st, v[1]), ())]
    for _ in range(n[2]):
        nx = []
        for s, sg, got in acc:
            for s2, r in c.ev.first(s, sg):
                if r is None:
                    out.append(c.ev.panic(s2, 'split_at', c.x, c.fr))
                else:
                    nx.append((s2, r[1], got + (('e', r[0]),)))
        acc = nx
    return out + [Out(s, None, ('tup', (('seq', got), ('seq', sg)))) for s, sg, got in acc]


@h('get')
def _get(c):
    v = adtv(c)
    i = c.r(1)
    if i[0] == 'ixof':
        return [Out(o.st, None, some(o.val)) for o in index(c.ev, c.st, v, i, c.x, c.fr)]
    if i[0] in ('idx', 'ridx'):
        e = idx_element(c.ev, c.st, v, i)
        return ret(c.st, NONE if e is None else some(e))
    if v[0] in ('str', 'rem'):
        kept = c.ev.marks()
        outs = index(c.ev, c.st, v, i, c.x, c.fr)
        c.ev.undo(kept)
        return [Out(o.st, None, NONE if o.ctl is not None else some(o.val)) for o in outs]
    n = c.ev.numv(i)
    if n is None or n[1]:
        raise Unsupported('get with unknown index')
    return [Out(s, None, NONE if r is None else some(r[0])) for s, r in c.ev.nth(c.st, get_segs(c, v), n[2])]


@h('index', 'index_mut')
def _index(c):
    return index(c.ev, c.st, c.args[0], c.args[1], c.x, c.fr)


@h('len', 'input_len')
def _len(c):
    v = c.r(0)
    if v[0] in ('seq', 'iter'):
        return ret(c.st, lenof(c.ev, c.st, v[1]))
    if v[0] == 'chr':
        q = v[1]
        return ret(c.st, lin_add(addr(q), addr(q.parent), -1))
    if v[0] == 'chrlit':
        return ret(c.st, num(len(v[1].encode('utf8'))))
    if v[0] == 'sym':
        raise NeedInline(v[1])
    return ret(c.st, strlen(c.ev, c.st, v))


H['len_utf8'] = _len


@h('sort', 'sort_unstable')
def _sort(c):
    v = c.r(0)
    ls = [literal(c.ev.read(c.st, g[1])) if g[0] == 'e' else None for g in v[1]] if v[0] == 'seq' else [None]
    if None in ls or c.args[0][0] != 'mref':
        raise Unsupported('sorting of unknown values')
    o = sorted(range(len(ls)), key=lambda i: ls[i].encode('utf8'))
    return ret(c.ev.write(c.st, c.args[0], ('seq', tuple(v[1][i] for i in o))), UNIT)


@h('binary_search')
def _bsearch(c):
    v = c.r(0)
    ls = [literal(c.ev.read(c.st, g[1])) if g[0] == 'e' else None for g in v[1]] if v[0] == 'seq' else [None]
    if None in ls or any(a.encode('utf8') >= b.encode('utf8') for a, b in zip(ls, ls[1:])):
        raise Unsupported('binary search in a list that is not known to be sorted')
    return bindouts(H['contains'](c), lambda s, r: ret(s, (ok if r == TRUE else err)(('opq', 'index'))))


@h('is_empty')
def _is_empty(c):
    v = c.r(0)
    if v[0] in ('seq', 'iter'):
        if any(g[0] == 'e' for g in c.ev.segs(c.st, v[1])):
            return ret(c.st, FALSE)
        return [Out(s, None, mkbool(r is None)) for s, r in c.ev.first(c.st, v[1])]
    return [Out(s, None, mkbool(r)) for s, r in decide(c.ev, c.st, strlen(c.ev, c.st, v), '==')]


@h('contains')
def _contains(c):
    v = c.r(0)
    e = c.r(1)
    if v[0] in ('seq', 'cset'):
        lits = []
        for sg in c.ev.segs(c.st, v[1]):
            l = literal(c.ev.read(c.st, sg[1])) if sg[0] == 'e' else None
            lits.append(l)
        if e[0] in ('chr', 'chrlit') and all(l is not None and len(l) == 1 for l in lits):
            return [Out(s, None, mkbool(r)) for s, r in test_char(c.ev, c.st, e, cs.of(''.join(lits)))]
        if all(l is not None for l in lits):
            return [Out(s, None, mkbool(r)) for s, r in in_lang(c.ev, c.st, e, rx.words(lits))]
        out = [(c.st, None)]

        def f(s, x):
            return equal(c.ev, s, x, e)
        return [Out(s, None, mkbool(r is not None)) for s, r in c.ev.search(c.st, v[1], f)]
    if v[0] in ('str', 'rem'):
        l = literal(v)
        if l is not None and e[0] in ('chr', 'chrlit'):
            return [Out(s, None, mkbool(r)) for s, r in test_char(c.ev, c.st, e, cs.of(l))]
        if l is not None and literal(e) is not None:
            return ret(c.st, mkbool(literal(e) in l))
        d = None
        if e[0] in ('chrlit',) or literal(e) is not None:
            pat = ''.join('\\x{%x}' % ord(ch) for ch in literal(e))
            # (?s).*pat.* as an exact language
            d = contains_dfa(literal(e))
        elif e[0] == 'clo':
            s = pred_charset(c, e)
            d = rx.Dfa([[(cs.compl(s), 0), (s, 1)], [(cs.ALL, 1)]], [False, True])
        if d is not None:
            return [Out(s, None, mkbool(r)) for s, r in in_lang(c.ev, c.st, v, d)]
    if v[0] == 'adt' and 'Range' in v[1]:
        lo, hi, incl = range_bounds(v)
        return [Out(s, None, mkbool(r)) for s, r in in_range(c.ev, c.st, e, lo, hi, incl)]
    if v[0] == 'sym':
        raise NeedInline(v[1])
    raise Unsupported('contains on %s' % v[0])


def contains_dfa(w):
    """KMP automaton of the texts containing w."""
    n = len(w)
    trans = []
    alphabet = sorted(set(w))
    for q in range(n):
        tr = []
        rest = cs.ALL
        for ch in alphabet:
            s = w[:q] + ch
            k = min(len(s), n)
            while k > 0 and not s.endswith(w[:k]):
                k -= 1
            if k > 0:
                tr.append((cs.of(ch), k))
                rest = cs.diff(rest, cs.of(ch))
        tr.append((rest, 0))
        trans.append(tr)
    trans.append([(cs.ALL, n)])
    return rx.Dfa(trans, [False] * n + [True])


def affix(c, pre):
    v = c.r(0)
    e = c.r(1)
    l = literal(v)
    w = literal(e)
    if l is not None and w is not None:
        return ret(c.st, mkbool(l.startswith(w) if pre else l.endswith(w)))
    if v[0] == 'rem' and pre:
        if w is not None:
            return [Out(o.st, None, mkbool(o.val == 0)) for o in lit_fork(c.st, v[1], w)]
        p = c.ev
        s = pred_charset(c, e) if e[0] in ('clo', 'fn') else None
        if s is not None:
            out = []
            for st, q in peek_char(c.st, v[1]):
                if q is None:
                    out.append(Out(st, None, FALSE))
                else:
                    out.extend(Out(s2, None, mkbool(r)) for s2, r in split_char(st, q, s))
            return out
    if w is None and v[0] == 'str' and (e[0] in ('clo', 'fn') or e[0] == 'seq'):
        s = pred_charset(c, e)
        n = cs.compl(s)
        d = rx.Dfa([[(s, 1), (n, 2)], [(cs.ALL, 1)], [(cs.ALL, 2)]], [False, True, False]) if pre else \
            rx.Dfa([[(s, 1), (n, 0)], [(s, 1), (n, 0)]], [False, True])
        return [Out(s2, None, mkbool(b)) for s2, b in in_lang(c.ev, c.st, v, d)]
    if w is not None:
        if pre:
            tr = [[(cs.of(ch), i + 1)] for i, ch in enumerate(w)] + [[(cs.ALL, len(w))]]
            d = rx.Dfa(tr, [False] * len(w) + [True])
        else:
            k = contains_dfa(w)
            n = len(w)
            tr = [list(t) for t in k.trans]
            # restart after a full match
            last = []
            rest = cs.ALL
            for ch in sorted(set(w)):
                s = w + ch
                j = min(len(s), n)
                while j > 0 and not s.endswith(w[:j]):
                    j -= 1
                if j > 0:
                    last.append((cs.of(ch), j))
                    rest = cs.diff(rest, cs.of(ch))
            last.append((rest, 0))
            tr[n] = last
            d = rx.Dfa(tr, [False] * n + [True])
        return [Out(s, None, mkbool(r)) for s, r in in_lang(c.ev, c.st, v, d)]
    raise Unsupported(c.name)


H['starts_with'] = lambda c: affix(c, True)
H['ends_with'] = lambda c: affix(c, False)


@h('strip_prefix')
def _strip_prefix(c):
    v = c.r(0)
    w = literal(c.r(1))
    l = literal(v)
    if l is not None and w is not None:
        return ret(c.st, some(strlit(l[len(w):])) if l.startswith(w) else NONE)
    if v[0] == 'rem' and w is not None:
        out = []
        for o in lit_fork(c.st, v[1], w):
            if o.val == 0:
                out.append(Out(o.st, None, some(('rem', o.st.peek[('lit', (v[1], w))]))))
            elif o.val == 2:
                out.append(Out(o.st, None, NONE))
        return out
    raise Unsupported('strip_prefix')


# iterators
@h('iter', 'into_iter', 'iter_mut', 'drain_all')
def _iter(c):
    v = c.r(0)
    if v[0] in ('iter', 'chars', 'tchars', 'titer', 'charidx'):
        return ret(c.st, c.args[0])
    if v[0] == 'seq' and c.name == 'iter_mut':
        raise Unsupported('iter_mut')
    return ret(c.st, ('iter', tuple(get_segs(c, v))))


@h('chars', 'iter_elements')
def _chars(c):
    v = c.r(0)
    l = literal(v)
    if l is not None:
        return ret(c.st, ('iter', tuple(('e', ('chrlit', ch)) for ch in l)))
    if v[0] == 'rem':
        return ret(c.st, ('chars', v[1]))
    t = single_text(v)
    if t is not None:
        if t[1] is None:
            return ret(c.st, ('chars', t[0]))
        return ret(c.st, ('tchars', t[0], t[1]))
    if v[0] == 'sym':
        raise NeedInline(v[1])
    raise Unsupported('characters of %s' % v[0])


@h('char_indices', 'iter_indices')
def _charidx(c):
    v = c.r(0)
    if v[0] == 'rem':
        return ret(c.st, ('charidx', v[1], v[1]))
    raise Unsupported('char_indices of %s' % v[0])


@h('next', 'peek')
def _next(c):
    ev = c.ev
    v = c.r(0)
    ref = c.args[0]
    if v[0] == 'chars':
        out = []
        for s, q in peek_char(c.st, v[1]):
            if q is None:
                out.append(Out(s, None, NONE))
            else:
                if c.name == 'next' and ref[0] == 'mref':
                    s = ev.write(s, ref, ('chars', q))
                out.append(Out(s, None, some(('chr', q))))
        return out
    if v[0] == 'charidx':
        out = []
        for s, q in peek_char(c.st, v[2]):
            if q is None:
                out.append(Out(s, None, NONE))
            else:
                off = lin_add(addr(v[2]), addr(v[1]), -1)
                if c.name == 'next' and ref[0] == 'mref':
                    s = ev.write(s, ref, ('charidx', v[1], q))
                out.append(Out(s, None, some(('tup', (off, ('chr', q))))))
        return out
    if v[0] == 'tchars' and v[1] is not v[2]:
        cell = ref[0] == 'mref' and c.name == 'next' and ev.loopstack and ref[1] in ev.loopstack[-1][1] and root_cell(ev, c.st, ref)
        if cell and c.st.cells[cell][0] == 'tchars':
            raise NeedText(cell)
        # looked up ahead from where the text starts
        out = []
        ch = ev.chain(v[1], v[2])
        if ch is None:
            raise Unsupported('first character of a text')
        for s, e in split_empty(ev, c.st, ch):
            if e:
                out.append(Out(s, None, NONE))
                continue
            for s2, q in peek_char(s, v[1]):
                if q is not None:
                    if c.name == 'next' and ref[0] == 'mref':
                        s2 = ev.write(s2, ref, ('opq', 'the characters after the first'))
                    out.append(Out(s2, None, some(('chr', q))))
        return out
    if v[0] == 'adt' and v[1].startswith('std::ops::Range'):
        segs = range_segs(c, v)
    else:
        segs = get_segs(c, v)
    segs = ev.segs(c.st, segs)
    if c.name == 'next' or segs and segs[0][0] == 's':
        widen(c, ref, segs, False)
    out = []
    for s, r in ev.first(c.st, segs):
        if r is None:
            if c.name == 'next' and ref[0] == 'mref':
                s = ev.write(s, ref, ('iter', ()))
            out.append(Out(s, None, NONE))
        else:
            if c.name == 'next' and ref[0] == 'mref':
                s = ev.write(s, ref, ('iter', tuple(r[1])))
            out.append(Out(s, None, some(r[0])))
    return out


def widen(c, ref, segs, back):
    """Taking elements off a repeated part inside a loop: the loop runs over it."""
    ev = c.ev
    if not segs:
        return
    e = segs[-1] if back else segs[0]
    if e[0] == 'stop':
        raise Unsupported('iterator advanced twice in one iteration')
    if e[0] == 's' and ev.loopstack and ref[0] == 'mref' and ref[1] in ev.loopstack[-1][1]:
        cell = root_cell(ev, c.st, ref)
        if c.st.cells[cell][0] not in ('iter', 'seq'):
            raise Unsupported('range loop over a repeated part')
        raise NeedWiden(cell, e[1], back)


def root_cell(ev, st, ref):
    cell, path = ref[1], ref[2]
    v = st.cells[cell]
    while v[0] == 'mref':
        cell = v[1]
        v = st.cells[cell]
    return cell


@h('next_back')
def _next_back(c):
    v = c.r(0)
    segs = get_segs(c, v)
    widen(c, c.args[0], c.ev.segs(c.st, segs), True)
    out = []
    for s, r in c.ev.last(c.st, segs):
        if r is None:
            out.append(Out(s, None, NONE))
        else:
            s = c.ev.write(s, c.args[0], ('iter', tuple(r[1])))
            out.append(Out(s, None, some(r[0])))
    return out


@h('nth')
def _nth(c):
    v = c.r(0)
    n = c.ev.numv(c.r(1))
    if v[0] in ('chars', 'tchars'):
        raise Unsupported('nth character')
    out = []
    for s, r in c.ev.nth(c.st, get_segs(c, v), n[2]):
        if r is None:
            out.append(Out(s, None, NONE))
        else:
            if c.args[0][0] == 'mref':
                s = c.ev.write(s, c.args[0], ('iter', tuple(r[1])))
            out.append(Out(s, None, some(r[0])))
    return out


@h('rev')
def _rev(c):
    return ret(c.st, ('iter', rev_segs(c.ev.segs(c.st, get_segs(c, c.args[0])))))


@h('skip')
def _skip(c):
    n = c.ev.numv(c.r(1))
    if n is None or n[1]:
        raise Unsupported('skip')
    acc = [(c.st, c.ev.segs(c.st, get_segs(c, c.args[0])))]
    done = []
    for _ in range(n[2]):
        nx = []
        for s, sg in acc:
            for s2, r in c.ev.first(s, sg):
                if r is None:
                    done.append(Out(s2, None, ('iter', ())))
                else:
                    nx.append((s2, r[1]))
        acc = nx
    return done + [Out(s, None, ('iter', tuple(sg))) for s, sg in acc]


@h('step_by')
def _step(c):
    n = c.ev.numv(c.r(1))
    segs = c.ev.segs(c.st, get_segs(c, c.args[0]))
    if n is None or n[1] or any(s[0] != 'e' for s in segs):
        raise Unsupported('step_by')
    return ret(c.st, ('iter', tuple(segs[::n[2]])))


@h('chain')
def _chain(c):
    a, b = c.r(0), c.r(1)
    if a[0] in ('tchars', 'titer') or b[0] in ('tchars', 'titer'):
        # characters of several texts one after the other
        ps = ()
        for v in (a, b):
            if v[0] == 'titer':
                ps = ps + v[1]
            elif v[0] == 'tchars':
                ps = ps + tuple(as_pieces(c.ev, c.st, text(v[1], v[2])))
            else:
                for sg in c.ev.segs(c.st, get_segs(c, v)):
                    if sg[0] != 'e':
                        raise Unsupported('characters of a list')
                    ps = ps + tuple(as_pieces(c.ev, c.st, sg[1]))
        return ret(c.st, ('titer', ps))
    return ret(c.st, ('iter', tuple(get_segs(c, c.args[0])) + tuple(get_segs(c, c.args[1]))))


@h('once')
def _once(c):
    return ret(c.st, ('iter', (('e', c.args[0]),)))


@h('empty')
def _empty(c):
    return ret(c.st, ('iter', ()))


@h('enumerate')
def _enum(c):
    segs = c.ev.segs(c.st, get_segs(c, c.args[0]))
    out = []
    n = 0
    star = False
    for sg in segs:
        if sg[0] == 'e':
            out.append(('e', ('tup', (num(n) if not star else ('enumix', n), sg[1]))))
            n += 1
        else:
            star = True
            L, slot = sg[1], sg[2]
            ns = ('enum', slot, n)
            for a in L.alts:
                a.pushes[ns] = tuple(('e', ('tup', (('enumix', n), e[1]))) for e in a.pushes.get(slot, ()))
            out.append(('s', L, ns, sg[3]))
    return ret(c.st, ('iter', tuple(out)))


def closure_segs(c, f, st, e):
    out = []
    for o in c.call(f, [e], st):
        if o.ctl is not None:
            raise Unsupported('closure leaves an iterator chain')
        out.append((o.st, o.val))
    return out


@h('filter')
def _filter(c):
    v = c.r(0)
    if v[0] == 'adt' and v[1] == OPTION:
        if v[2] == 0:
            return ret(c.st, v)
        return bindouts(c.call(c.args[1], [v[3][0]]),
                        lambda s, r: [Out(s2, None, v if b else NONE) for s2, b in c.ev.truth(s, r)])

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            for s2, b in c.ev.truth(s1, r):
                out.append((s2, (('e', e),) if b else ()))
        return out
    return [Out(s, None, ('iter', sg)) for s, sg in c.ev.map_segs(c.st, get_segs(c, c.args[0]), f)]


@h('filter_map')
def _filter_map(c):
    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            r = need(r, s1, c.ev)
            out.append((s1, (('e', r[3][0]),) if good(r) else ()))
        return out
    return [Out(s, None, ('iter', sg)) for s, sg in c.ev.map_segs(c.st, get_segs(c, c.args[0]), f)]


@h('flat_map')
def _flat_map(c):
    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            c2 = C(c.ev, s1, c.f, c.args, c.x, c.fr)
            out.append((s1, tuple(get_segs(c2, r))))
        return out
    return [Out(s, None, ('iter', sg)) for s, sg in c.ev.map_segs(c.st, get_segs(c, c.args[0]), f)]


@h('flatten')
def _flatten(c):
    v = c.r(0)
    if v[0] == 'adt' and v[1] in (OPTION, RESULT):
        if not good(v):
            return ret(c.st, v)
        return ret(c.st, v[3][0])

    def f(s, e):
        c2 = C(c.ev, s, c.f, c.args, c.x, c.fr)
        return [(s, tuple(get_segs(c2, e)))]
    return [Out(s, None, ('iter', sg)) for s, sg in c.ev.map_segs(c.st, get_segs(c, v), f)]


@h('take_while')
def _take_while(c):
    v = c.r(0)
    if v[0] == 'chars' and c.args[0][0] != 'mref':
        s, q = skip(c.st, v[1], pred_charset(c, c.args[1]))
        return ret(s, ('tchars', v[1], q))
    raise Unsupported('take_while')


@h('skip_while')
def _skip_while(c):
    v = c.r(0)
    if v[0] == 'chars' and c.args[0][0] != 'mref':
        s, q = skip(c.st, v[1], pred_charset(c, c.args[1]))
        return ret(s, ('chars', q))
    raise Unsupported('skip_while')


@h('map_while', 'scan', 'zip', 'windows', 'chunks', 'product', 'max', 'min', 'partition', 'unzip', 'group_by', 'inspect')
def _unsup(c):
    raise Unsupported('iterator method ' + c.name)


@h('any')
def _any(c):
    v = c.r(0)
    if v[0] == 'tchars':
        s = pred_charset(c, c.args[1])
        d = rx.Dfa([[(cs.compl(s), 0), (s, 1)], [(cs.ALL, 1)]], [False, True])
        return [Out(s2, None, mkbool(r)) for s2, r in in_lang(c.ev, c.st, text(v[1], v[2]), d)]

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            out.extend(c.ev.truth(s1, r))
        return out
    return [Out(s, None, mkbool(r is not None)) for s, r in c.ev.search(c.st, get_segs(c, v), f)]


@h('all')
def _all(c):
    v = c.r(0)
    if v[0] == 'tchars':
        s = pred_charset(c, c.args[1])
        d = rx.Dfa([[(s, 0)]], [True])
        return [Out(s2, None, mkbool(r)) for s2, r in in_lang(c.ev, c.st, text(v[1], v[2]), d)]

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            out.extend((s2, not b) for s2, b in c.ev.truth(s1, r))
        return out
    return [Out(s, None, mkbool(r is None)) for s, r in c.ev.search(c.st, get_segs(c, v), f)]


@h('find')
def _find(c):
    v = c.r(0)
    if v[0] in ('str', 'rem'):
        return find_text(c, v, c.r(1))
    if v[0] == 'regex':
        return [Out(o.st, None, NONE if not o.val[1] else some(o.val[1][0][1])) for o in regex_find(c)]
    if v[0] in ('chars', 'charidx'):
        mv = c.args[0][0] == 'mref'
        wrap = (lambda w: w) if v[0] == 'chars' else (lambda w: ('tup', (('opq', 'offset'), w)))
        out = []
        for s, p, q in scan(c.st, v[-1], pred_charset(c, c.args[1], wrap)):
            if mv:
                s = c.ev.write(s, c.args[0], v[:-1] + (q or p,))
            w = ('chr', q)
            if v[0] == 'charidx':
                w = ('tup', (lin_add(addr(p), addr(v[1]), -1), w))
            out.append(Out(s, None, NONE if q is None else some(w)))
        return out

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            out.extend(c.ev.truth(s1, r))
        return out
    return [Out(s, None, NONE if r is None else some(r[0])) for s, r in c.ev.search(c.st, get_segs(c, v), f)]


@h('position')
def _position(c):
    v = c.r(0)
    if v[0] == 'chars':
        # the number of characters is the number of bytes if all of them are ASCII
        st = pred_charset(c, c.args[1])
        if not cs.subset(cs.compl(st), ((0, 127),)):
            raise Unsupported('position in the input')
        out = []
        for s, p, q in scan(c.st, v[1], st):
            if c.args[0][0] == 'mref':
                s = c.ev.write(s, c.args[0], ('chars', q or p))
            out.append(Out(s, None, NONE if q is None else some(lin_add(addr(p), addr(v[1]), -1))))
        return out
    if v[0] not in ('seq', 'iter'):
        raise Unsupported('position')

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            out.extend(c.ev.truth(s1, r))
        return out
    return [Out(s, None, NONE if r is None else some(('opq', 'index'))) for s, r in c.ev.search(c.st, get_segs(c, v), f)]


@h('sum')
def _sum(c):
    def f(s, e):
        v = c.ev.read(s, e)
        segs = c.ev.units(v if v[0] == 'lenof' else c.ev.numv(v) or UNIT, None)
        if segs is None:
            raise Unsupported('sum of varying numbers')
        return [(s, segs)]
    segs = c.ev.segs(c.st, get_segs(c, c.args[0]))
    if all(g[0] == 'e' for g in segs):
        v = num(0)
        for g in segs:
            n = c.ev.numv(c.ev.read(c.st, g[1]))
            if n is None:
                break
            v = lin_add(v, n)
        else:
            return ret(c.st, v)
    return [Out(s, None, lenof(c.ev, s, sg)) for s, sg in c.ev.map_segs(c.st, segs, f)]


@h('find_map')
def _find_map(c):
    vals = {}

    def f(s, e):
        out = []
        for s1, r in closure_segs(c, c.args[1], s, e):
            r = need(r, s1, c.ev)
            out.append((s1, good(r)))
        return out
    raise Unsupported('find_map')


@h('fold')
def _fold(c):
    v = c.r(0)
    if v[0] == 'tchars':
        ch = ('tch', v[1], v[2])
        init = c.ev.read(c.st, c.args[1])
        acc = ('acc', 'text', 'fold')
        outs = c.call(c.args[2], [('str', (acc,)), ch])
        if init[0] != 'str' or len(outs) != 1 or outs[0].ctl is not None or outs[0].st.poss != c.st.poss \
                or outs[0].st.cells != c.st.cells or c.ev.read(outs[0].st, outs[0].val) != ('str', (acc, ('v', ch))):
            raise Unsupported('fold over the characters of a text')
        return ret(c.st, ('str', norm_pieces(init[1] + as_pieces(c.ev, c.st, text(v[1], v[2])))))
    return do_fold(c, c.args[1], c.args[2], get_segs(c, c.args[0]), False)


@h('rfold')
def _rfold(c):
    return do_fold(c, c.args[1], c.args[2], rev_segs(c.ev.segs(c.st, get_segs(c, c.args[0]))), False)


def do_fold(c, init, f, segs, _):
    """Fold as a synthetic loop over the elements."""
    ev = c.ev
    kept = ev.marks()
    try:
        return do_fold1(c, init, f, segs, False)
    except Unsupported as u:
        ev.undo(kept)
        if ev.exploded(init):
            try:
                return do_fold1(c, init, f, segs, True)
            except Unsupported:
                ev.undo(kept)
        if not _:
            # a loop that keeps more than the accumulator
            try:
                return [Out(s, None, acc) for s, acc, r in drive_fold(c, init, f, segs, lambda s, v: [(s, v, None)])]
            except Unsupported:
                ev.undo(kept)
        if _ >= 2:
            raise u
    # the first step may differ from the others
    out = []
    for s, r in ev.first(c.st, segs):
        if r is None:
            out.append(Out(s, None, init))
            continue
        for o in c.call(f, [init, r[0]], s):
            if o.ctl is not None:
                raise Unsupported('closure leaves a fold')
            c2 = C(ev, o.st, c.f, c.args, c.x, c.fr)
            out.extend(do_fold(c2, o.val, f, r[1], _ + 1))
    return out


def do_fold1(c, init, f, segs, explode):
    ev = c.ev
    segs = ev.segs(c.st, segs)
    states = [(c.st, init)]
    for sg in segs:
        nx = []
        for s, acc in states:
            if sg[0] == 'e':
                for o in c.call(f, [acc, sg[1]], s):
                    if o.ctl is not None:
                        raise Unsupported('closure leaves a fold')
                    nx.append((o.st, o.val))
                continue
            L, slot, rev = sg[1], sg[2], sg[3]
            sync = Loop()
            cell = ('cell', sync.id)
            newalts = []
            for a in L.alts:
                base = ev.in_alt(s, L, L.alts.index(a))
                vals = a.pushes.get(slot, ())
                if rev:
                    vals = rev_segs(vals)
                init_acc = ev.acc_open(sync, cell, init, explode)
                cur = [(base, init_acc)]
                for v in vals:
                    n2 = []
                    for s1, a1 in cur:
                        if v[0] == 's':
                            c2 = C(ev, s1, c.f, c.args, c.x, c.fr)
                            n2.extend((o.st, o.val) for o in do_fold(c2, a1, f, (v,), False))
                            continue
                        for o in c.call(f, [a1, v[1]], s1):
                            if o.ctl is not None:
                                raise Unsupported('closure leaves a fold')
                            n2.append((o.st, o.val))
                    cur = n2
                for s1, a1 in cur:
                    ev.stateless(base, s1)
                    na, _n = ev.alt_from(a, base, s1)
                    na = na.copy(pushes=dict(na.pushes), steps=dict(na.steps))
                    for kk, i0, w in ev.acc_parts(cell, init, a1, explode):
                        na.steps[(sync, kk)] = w
                        if i0[0] == 'seq':
                            if w[0] != 'seq' or w[1][:1] != (('acc', sync, kk),):
                                raise Unsupported('list is not only appended to')
                            na.pushes[(sync, kk)] = rev_segs(w[1][1:]) if rev else w[1][1:]
                    newalts.append(na)
            L2 = ev.sub_loop(L, alts=newalts)
            s2 = s.setloop(L, (('star', L2),))
            ev.loops.append((ev.cur.key[0] if ev.cur else '?', ev.where(c.x, c.fr), 'fold', len(newalts)))
            posts = [s2]
            for kk, v, _ in ev.acc_parts(cell, acc, acc, explode):
                px = []
                for s3 in posts:
                    if v[0] == 'seq':
                        px.append(s3.setcell(kk, ('seq', v[1] + (('s', L2, (sync, kk), rev),))))
                    else:
                        px.extend(ev.final_sync(s3, L2, sync, kk, v, rev, c.x, c.fr))
                posts = px
            for s3 in posts:
                s3, v = ev.acc_close(s3, cell, acc, explode)
                nx.append((s3, v))
        states = nx
    return [Out(s, None, acc) for s, acc in states]


def drive(c, segs, body):
    """body(state, element) -> [(state, None | value)] for one element after the
    other, as a `for` loop that is left with the first value:
    [(state, None | value)]"""
    ev = c.ev
    name = Loop().id
    cell, lab = ('cell', name), ('drive', name)

    def step(st, fr):
        c2 = C(ev, st, c.f, [('mref', cell, ())], c.x, c.fr)
        c2.name = 'next'
        out = []
        for o in H['next'](c2):
            if o.val == NONE:
                out.append(Out(o.st, ('break', (c.fr, lab), NONE), None))
                continue
            for s, v in body(o.st, o.val[3][0]):
                out.append(Out(s, None, UNIT) if v is None else Out(s, ('break', (c.fr, lab), some(v)), None))
        return out
    x = {'k': 'Loop', 'e': step, 's': c.x['s'], 't': c.x['t'], '_bound': set()}
    res = []
    for o in ev.ev_loop(x, c.st.setcell(cell, ('iter', tuple(segs))), c.fr, lab):
        if o.ctl is None or o.ctl[:2] != ('break', (c.fr, lab)):
            raise Unsupported('loop over a list left by %s' % (o.ctl,))
        s = o.st.copy()
        s.cells = {k: v for k, v in s.cells.items() if k != cell}
        v = o.ctl[2]
        res.append((s, v[3][0] if v[3] else None))
    return res


def drive_fold(c, init, f, segs, stop):
    """Fold as a loop with the accumulator in a variable; stop(state, value) ->
    [(state, accumulator, None) or (state, None, result)]."""
    ev = c.ev
    cell = ('cell', Loop().id)

    def body(st, e):
        out = []
        for o in c.call(f, [st.cells[cell], e], st):
            if o.ctl is not None:
                raise Unsupported('closure leaves a fold')
            for s, acc, r in stop(o.st, o.val):
                out.append((s.setcell(cell, acc), None) if r is None else (s, r))
        return out
    c2 = C(ev, c.st.setcell(cell, init), c.f, c.args, c.x, c.fr)
    res = []
    for s, r in drive(c2, segs, body):
        acc = s.cells[cell]
        s = s.copy()
        s.cells = {k: v for k, v in s.cells.items() if k != cell}
        res.append((s, acc, r))
    return res


# functions that call themselves on the rest of a list
def rec_list(ev, st, body, args):
    """The argument that is a list with a repeated part."""
    ls = []
    for i, a in enumerate(args):
        v = ev.read(st, a)
        if v[0] in ('seq', 'iter') and any(g[0] == 's' for g in ev.segs(st, v[1])):
            ls.append(i)
    if len(ls) > 1:
        raise Unsupported('recursive helper %s over several lists' % body['key'])
    return ls[0] if ls else None


def rec_call(ev, st, args):
    """The inner call of the step a recursion is analysed by."""
    r = ev.recs[-1]
    vals = [ev.read(st, a) for a in args]
    v = vals[r['li']]
    if v[0] not in ('seq', 'iter') or tuple(v[1]) != r['rest']:
        raise Unsupported('recursion not on the rest of the list')
    others = vals[:r['li']] + vals[r['li'] + 1:]
    if r['acc'] is None:
        return ret(st, ('rec', r['id'], tuple(others)))
    if others != r['others']:
        raise Unsupported('recursion with other arguments')
    return ret(st, r['acc'])


def rec_fold(ev, st, body, args, parent, li):
    """f(x, xs..) = step(x, f(xs..)), or f(acc, x, xs..) = f(step(acc, x), xs..),
    from either end of the list, is a fold."""
    vals = [ev.read(st, a) for a in args]
    if any(ev.has_closure(v) for v in vals) or any(t['k'] == 'ref' and t['mut'] for t in (ev.ty(p['t']) for p in body['params'])):
        raise Unsupported('recursive helper %s with a state' % body['key'])
    kind, segs = vals[li][0], ev.segs(st, vals[li][1])
    others = vals[:li] + vals[li + 1:]
    x, fr = {'k': 'Call', 's': body['exprs'][body['root']]['s'], 't': body['exprs'][body['root']]['t']}, None
    c = C(ev, st, None, args, x, fr)
    stop, dummy = ('stop', body['key']), ('e', ('dummy', body['key']))

    def call(s, oth, lst, rec):
        oth = list(oth)
        ev.recs.append(rec)
        try:
            outs = ev.call_body1(s, body, oth[:li] + [(kind, tuple(lst))] + oth[li:], parent)
        finally:
            ev.recs.pop()
        for o in outs:
            if o.ctl is not None:
                raise Unsupported('recursive helper that fails')
        return outs

    def pack(vs):
        return vs[0] if len(vs) == 1 else ('tup', tuple(vs))

    def unpack(acc):
        if len(others) == 1:
            return [acc]
        if acc[0] != 'tup':
            raise Unsupported('arguments of a recursion')
        return acc[1]

    def attempt(tail, front, some_left):
        ident = Loop().id
        rest = (dummy, stop) if some_left and front else (stop, dummy) if some_left else (stop,)

        def step(s, a):
            acc, e = a
            rec = {'body': body, 'li': li, 'rest': rest, 'id': ident, 'others': others, 'acc': None if tail else acc}
            lst = (('e', e),) + rest if front else rest + (('e', e),)
            outs = call(s, unpack(acc) if tail else others, lst, rec)
            if not tail:
                return outs
            if any(o.val[:2] != ('rec', ident) for o in outs):
                raise Unsupported('recursive helper that stops early')
            return [Out(o.st, None, pack(o.val[2])) for o in outs]
        # where the recursion ends
        ends = [(st, None)]
        if some_left:
            ends = (ev.last if front else ev.first)(st, segs)
        res = []
        for s, r in ends:
            end = () if r is None else (('e', r[0]),)
            left = segs if not some_left else () if r is None else r[1]
            c2 = C(ev, s, None, args, x, fr)
            order = tuple(left) if front == tail else rev_segs(ev.segs(s, left))
            if tail:
                for o in do_fold(c2, pack(others), ('py', step), order, False):
                    res.extend(call(o.st, unpack(o.val), end, None))
            else:
                for o in call(s, others, end, None):
                    c3 = C(ev, o.st, None, args, x, fr)
                    res.extend(do_fold(c3, o.val, ('py', step), order, False))
        return res
    first = None
    for some_left in (False, True):
        for front in (True, False):
            for tail in (False, True):
                kept = ev.marks()
                try:
                    return attempt(tail, front, some_left)
                except Unsupported as u:
                    ev.undo(kept)
                    first = first or u
    raise Unsupported('recursive helper %s: %s' % (body['key'], first))


@h('try_fold', 'for_each', 'try_for_each')
def _tf(c):
    segs = c.ev.segs(c.st, get_segs(c, c.args[0]))
    if c.name == 'for_each':
        def body(st, e):
            return [(o.st, None) for o in c.call(c.args[1], [e], st)]
        return [Out(s, None, UNIT) for s, _ in drive(c, segs, body)]
    t = c.ev.ty(c.x['t'])
    if t['k'] != 'adt' or t['p'] not in (OPTION, RESULT):
        raise Unsupported('iterator method ' + c.name)
    wrap = some if t['p'] == OPTION else ok

    def stop(st, v):
        v = need(v, st, c.ev)
        return [(st, v[3][0], None) if good(v) else (st, None, v)]
    if c.name == 'try_fold':
        init, f = c.args[1], c.args[2]
    else:
        init, f = UNIT, None
        raise Unsupported('iterator method ' + c.name)
    return [Out(s, None, wrap(acc) if r is None else r) for s, acc, r in drive_fold(c, init, f, segs, stop)]


@h('reduce')
def _reduce(c):
    out = []
    for s, r in c.ev.first(c.st, get_segs(c, c.args[0])):
        if r is None:
            out.append(Out(s, None, NONE))
        else:
            c2 = C(c.ev, s, c.f, c.args, c.x, c.fr)
            out.extend(Out(o.st, None, some(o.val)) for o in do_fold(c2, r[0], c.args[1], r[1], False))
    return out


@h('count')
def _count(c):
    v = c.r(0)
    if v[0] == 'tchars':
        d = event_dfa(c.ev, c.st, v[1], v[2])
        if d is not None and all(cs.subset(s, ((0, 127),)) for tr in d.trans for s, _ in tr):
            return ret(c.st, lin_add(addr(v[2]), addr(v[1]), -1))
        raise Unsupported('number of characters')
    return ret(c.st, lenof(c.ev, c.st, get_segs(c, v)))


@h('collect', 'from_iter')
def _collect(c):
    v = c.r(0)
    t = c.ev.ty(c.x['t'])
    n = t['p'] if t['k'] == 'adt' else ''
    if n.endswith('Vec') or n.endswith('VecDeque') or n.endswith('Box'):
        return ret(c.st, ('seq', tuple(get_segs(c, v))))
    if n.endswith('HashSet') or n.endswith('BTreeSet'):
        # only membership is known of it
        return ret(c.st, ('cset', tuple(get_segs(c, v))))
    if n.endswith('String'):
        if v[0] == 'titer':
            return ret(c.st, mkstr(v[1]))
        if v[0] == 'tchars':
            return ret(c.st, text(v[1], v[2]))
        ps = ()
        segs = c.ev.segs(c.st, get_segs(c, v))
        if any(s[0] != 'e' for s in segs):
            return ret(c.st, ('str', (('v', ('concat', ('seq', tuple(segs)))),)))
        for sg in segs:
            ps = ps + tuple(as_pieces(c.ev, c.st, sg[1]))
        return ret(c.st, mkstr(ps))
    if n in (OPTION, RESULT):
        segs = c.ev.segs(c.st, get_segs(c, v))
        if all(s[0] == 'e' for s in segs):
            vals = []
            for sg in segs:
                w = need(sg[1], c.st, c.ev)
                if not good(w):
                    return ret(c.st, w)
                vals.append(w[3][0])
            return ret(c.st, ok(seq(vals)) if n == RESULT else some(seq(vals)))
    raise Unsupported('collect into %s' % n)


@h('concat', 'join')
def _concat(c):
    segs = c.ev.segs(c.st, get_segs(c, c.args[0]))
    sep = literal(c.r(1)) if len(c.args) > 1 else ''
    if all(s[0] == 'e' for s in segs):
        vals = [c.ev.read(c.st, s[1]) for s in segs]
        if vals and vals[0][0] == 'seq':
            out = ()
            for v in vals:
                out = out + v[1]
            return ret(c.st, ('seq', out))
        ps = ()
        for k, v in enumerate(vals):
            if k and sep:
                ps = ps + (('l', sep),)
            ps = ps + tuple(as_pieces(c.ev, c.st, v))
        return ret(c.st, mkstr(ps))
    t = c.ev.ty(c.x['t'])
    if t['k'] == 'adt' and t['p'].endswith('Vec') and not sep:
        def f(s, e):
            c2 = C(c.ev, s, c.f, c.args, c.x, c.fr)
            return [(s, tuple(get_segs(c2, e)))]
        return [Out(s, None, ('seq', tuple(sg))) for s, sg in c.ev.map_segs(c.st, segs, f)]
    return ret(c.st, ('str', (('v', ('join', sep, ('seq', tuple(segs)))),)))


# text building
@h('add')
def _add(c):
    a, b = c.r(0), c.r(1)
    if a[0] in ('lin', 'bool') and b[0] == 'lin':
        return ret(c.st, lin_add(a, b))
    return ret(c.st, mkstr(tuple(as_pieces(c.ev, c.st, a)) + tuple(as_pieces(c.ev, c.st, b))))


@h('add_assign')
def _add_assign(c):
    a, b = c.r(0), c.r(1)
    if a[0] == 'lin':
        return ret(c.ev.write(c.st, c.args[0], lin_add(a, c.ev.numv(b))), UNIT)
    return _push_str(c)


@h('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex')
def _arg(c):
    return ret(c.st, ('fmtarg', c.name[4:], c.r(0)))


def fmt_template(v):
    """Decode the compiled format template: list of ('l',text) / ('a',n,spec)."""
    if v[0] == 'seq':
        bs = [e[1][2] for e in v[1]]
    elif v[0] == 'opq':
        raise Unsupported('format template')
    else:
        raise Unsupported('format template')
    out = []
    i = 0
    n = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 128:
            out.append(('l', bytes(bs[i + 1:i + 1 + b]).decode('utf8')))
            i += 1 + b
        elif b == 128:
            ln = bs[i + 1] | bs[i + 2] << 8
            out.append(('l', bytes(bs[i + 3:i + 3 + ln]).decode('utf8')))
            i += 3 + ln
        else:
            spec = []
            i += 1
            if b & 1:
                spec.append(('flags', tuple(bs[i:i + 4])))
                i += 4
            if b & 2:
                spec.append(('width', tuple(bs[i:i + 2])))
                i += 2
            if b & 4:
                spec.append(('prec', tuple(bs[i:i + 2])))
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('a', n, tuple(spec)))
            n += 1
    return out


def fmt_pieces(ev, st, v):
    if v[0] == 'str':
        return v[1]
    if v[0] != 'fmt':
        raise Unsupported('formatting')
    args = v[2]
    args = [e[1] for e in args[1]] if args[0] == 'seq' else []
    ps = ()
    for t in fmt_template(v[1]):
        if t[0] == 'l':
            ps = ps + (t,)
        else:
            a = args[t[1]]
            if a[0] != 'fmtarg':
                raise Unsupported('formatting')
            if a[1] == 'display' and not t[2]:
                ps = ps + tuple(as_pieces(ev, st, a[2]))
            else:
                ps = ps + (('v', ('debug', a[1], t[2], ev.read(st, a[2]))),)
    return ps


@h('format')
def _format(c):
    return ret(c.st, mkstr(fmt_pieces(c.ev, c.st, c.r(0))))


H['from_str'] = lambda c: (ret(c.st, c.r(0)) if 'Arguments' in c.p else _parse(c))
H['new_const'] = lambda c: ret(c.st, c.r(0) if c.r(0)[0] == 'str' else ('fmt', c.r(0), seq([])))
H['new_v1'] = lambda c: ret(c.st, ('fmt', c.r(0), c.r(1)))


# characters
@h('as_char')
def _as_char(c):
    return ret(c.st, c.r(0))


CHARP = {
    'is_alphabetic': 'alphabetic', 'is_numeric': 'numeric', 'is_alphanumeric': 'alphanumeric', 'is_uppercase': 'uppercase',
    'is_lowercase': 'lowercase', 'is_whitespace': 'whitespace', 'is_control': 'control',
}
CHARS = {
    'is_ascii_alphabetic': cs.ALPHA, 'is_ascii_digit': cs.DIGIT, 'is_ascii_alphanumeric': cs.ALNUM,
    'is_ascii_uppercase': cs.UPPER, 'is_ascii_lowercase': cs.LOWER, 'is_ascii_hexdigit': cs.HEX,
    'is_ascii_whitespace': cs.of(' \t\n\r\x0c'), 'is_ascii': ((0, 127),), 'is_dec_digit': cs.DIGIT, 'is_hex_digit': cs.HEX,
    'is_oct_digit': cs.rng('0', '7'), 'is_alpha': cs.ALPHA, 'is_alphanum': cs.ALNUM,
    'is_ascii_punctuation': cs.of('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
    'is_ascii_graphic': ((33, 126),), 'is_ascii_control': ((0, 31), (127, 127)),
}


def _charpred(c):
    n = c.name
    s = CHARS.get(n)
    if s is None:
        s = cs.by_pred(CHARP[n])
    if n in ('is_alpha', 'is_alphanum') and 'char' in str((c.f['res'] or {}).get('p')):
        s = cs.by_pred('alphabetic' if n == 'is_alpha' else 'alphanumeric')
    return [Out(s2, None, mkbool(r)) for s2, r in test_char(c.ev, c.st, c.args[0], s)]


for _n in list(CHARP) + list(CHARS):
    H[_n] = _charpred


@h('is_digit')
def _is_digit(c):
    n = c.ev.numv(c.r(1))[2]
    s = cs.of(''.join(d + d.upper() for d in '0123456789abcdefghijklmnopqrstuvwxyz'[:n]))
    return [Out(s2, None, mkbool(r)) for s2, r in test_char(c.ev, c.st, c.args[0], s)]


@h('find_token')
def _find_token(c):
    l = literal(c.r(0))
    if l is None:
        v = c.r(0)
        if v[0] == 'seq':
            return _contains(c)
        raise Unsupported('find_token')
    return [Out(s, None, mkbool(r)) for s, r in test_char(c.ev, c.st, c.args[1], cs.of(l))]


@h('from_str_radix')
def _from_str_radix(c):
    radix = c.ev.numv(c.r(1))[2]
    if not 2 <= radix <= 36:
        return [c.ev.panic(c.st, 'radix', c.x, c.fr)]
    t = c.ev.ty(c.x['t'])
    it = c.ev.ty(t['a'][0])['n']
    return parse_num(c, c.r(0), radix, it)


INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def parse_num(c, v, radix, it):
    w = INTS.get(it)
    if w is None:
        raise Unsupported('parsing %s' % it)
    signed = it[0] == 'i'
    mx = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    mn = -(1 << (w - 1)) if signed else 0
    d = rx.numeral_dfa(radix, signed, mx, mn)
    l = literal(v)
    if l is not None:
        if rx.accepts(d, l):
            return ret(c.st, ok(num(int(l, radix))))
        return ret(c.st, err(('opq', 'ParseIntError')))
    val = ('num', ('parsed', radix, v if v[0] != 'chr' else text(v[1].parent, v[1])))
    res = []
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 't':
        ch = c.ev.chain(v[1][0][1], v[1][0][2])
        if ch is not None and len(ch) > 1:
            return parse_chain(c, ch, d, val)
    for s, r in in_lang(c.ev, c.st, v, d):
        res.append(Out(s, None, ok(val) if r else err(('opq', 'ParseIntError'))))
    return res


def parse_chain(c, ch, d, val):
    """Membership of a sequence of single characters in a language: fork on
    the characters one at a time."""
    if any(q.ev[0] != 'ch' for q in ch):
        raise Unsupported('language test on composed text')
    out = []

    def go(st, k, q):
        if k == len(ch):
            out.append(Out(st, None, ok(val) if d.acc[q] else err(('opq', 'ParseIntError'))))
            return
        rest = [(st, False)]
        cur = charset_of(st, ch[k])
        used = cs.EMPTY
        byt = {}
        for s, t in d.trans[q]:
            byt[t] = cs.union(byt.get(t, cs.EMPTY), s)
        for t, s in byt.items():
            a = cs.inter(cur, s)
            used = cs.union(used, s)
            if a:
                go(st.setrefine(ch[k], a), k + 1, t)
        b = cs.diff(cur, used)
        if b:
            out.append(Out(st.setrefine(ch[k], b), None, err(('opq', 'ParseIntError'))))
    go(c.st, 0, 0)
    return out


@h('parse')
def _parse(c):
    t = c.ev.ty(c.x['t'])
    tt = c.ev.ty(t['a'][0])
    if tt['k'] in ('int', 'uint'):
        return parse_num(c, need(c.args[0], c.st, c.ev), 10, tt['n'])
    raise Unsupported('parse')


@h('convert')
def _convert(c):
    v = c.r(0)
    if 'Convert' not in c.f['p'] or v[0] != 'adt' or v[1] != NOMERR:
        raise Unsupported('convert')
    return ret(c.st, v)


@h('parse_to')
def _parse_to(c):
    t = c.ev.ty(c.x['t'])
    tt = c.ev.ty(t['a'][0])
    if t['p'] != OPTION or tt['k'] not in ('int', 'uint'):
        raise Unsupported('parse_to')
    return [o if o.ctl is not None else Out(o.st, None, some(o.val[3][0]) if o.val[2] == 0 else NONE)
            for o in parse_num(c, need(c.args[0], c.st, c.ev), 10, tt['n'])]


@h('from_u32')
def _from_u32(c):
    v = c.r(0)
    if v[0] == 'lin' and not v[1]:
        n = v[2]
        return ret(c.st, some(('chrlit', chr(n))) if n < 0x110000 and not 0xD800 <= n <= 0xDFFF else NONE)
    raise Unsupported('char::from_u32')


@h('as_ptr')
def _as_ptr(c):
    v = c.r(0)
    t = single_text(v)
    if t is None:
        raise Unsupported('pointer into composed text')
    return ret(c.st, addr(t[0]))


@h('offset')
def _offset(c):
    a, b = single_text(c.r(0)), single_text(c.r(1))
    return ret(c.st, lin_add(addr(b[0]), addr(a[0]), -1))


# comparisons through traits
@h('eq')
def _eq(c):
    return [Out(s, None, mkbool(r)) for s, r in equal(c.ev, c.st, c.args[0], c.args[1])]


@h('ne')
def _ne(c):
    return [Out(s, None, mkbool(not r)) for s, r in equal(c.ev, c.st, c.args[0], c.args[1])]


def _ord(op):
    def f(c):
        return binop(c.ev, c.st, op, c.r(0), c.r(1), c.x, c.fr)
    return f


for _o, _k in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    H[_o] = _ord(_k)


ORD = 'std::cmp::Ordering'


@h('cmp', 'partial_cmp')
def _cmp(c):
    a, b = c.ev.numv(c.r(0)), c.ev.numv(c.r(1))
    if a is None or b is None:
        raise Unsupported('cmp')
    out = []
    w = (lambda v: some(v)) if c.name == 'partial_cmp' else (lambda v: v)
    for s, eq in compare_num(c.ev, c.st, 'Eq', a, b):
        if eq:
            out.append(Out(s, None, w(('adt', ORD, 1, ()))))
            continue
        for s2, gt in compare_num(c.ev, s, 'Ge', a, b):
            out.append(Out(s2, None, w(('adt', ORD, 2 if gt else 0, ()))))
    return out


@h('discriminant_value', 'discriminant')
def _disc(c):
    v = adtv(c)
    if v[0] != 'adt':
        raise Unsupported('discriminant')
    return ret(c.st, num(v[2]))


@h('then', 'then_some')
def _then(c):
    if 'bool' not in c.p:
        raise Unsupported(c.p)
    out = []
    for s, b in c.ev.truth(c.st, c.args[0]):
        if not b:
            out.append(Out(s, None, NONE))
        elif c.name == 'then_some':
            out.append(Out(s, None, some(c.args[1])))
        else:
            out.extend(o if o.ctl is not None else Out(o.st, None, some(o.val)) for o in c.call(c.args[1], [], s))
    return out


@h('not')
def _not(c):
    return [Out(s, None, mkbool(not b)) for s, b in c.ev.truth(c.st, c.args[0])]


@h('unreachable', 'panic', 'panic_fmt', 'panic_display', 'panic_str', 'unreachable_display', 'begin_panic', 'panic_explicit', 'assert_failed',
   'panic_bounds_check', 'unimplemented', 'todo', 'panic_2015', 'panic_const', 'unreachable_default_msg', 'unreachable_2015', 'unreachable_unchecked', 'panic_nounwind')
def _panic(c):
    c.ev.site('panic', c.x, c.fr)
    return [c.ev.panic(c.st, 'panic', c.x, c.fr)]


@h('exit', 'abort')
def _exit(c):
    if not c.p.startswith('std::process'):
        raise Unsupported(c.p)
    c.ev.effects.append((c.ev.cur.key[0] if c.ev.cur else '?', c.ev.where(c.x, c.fr), c.p))
    return [Out(c.st, ('exit', c.args), None)]


# nom input traits
CMPR = 'nom::CompareResult'


def lit_fork(st, p, s):
    q = st.peek.get(('lit', (p, s)))
    if q is not None and q in st.poss:
        return [Out(st, None, 0)]
    if st.peek.get(('nolit', (p, s))):
        return [Out(st, None, 2)]
    if s == '':
        st = st.setpeek(('lit', (p, s)), p)
        return [Out(st, None, 0)]
    s1, q = st.newpos(p, ('lit', s))
    s1 = s1.setpeek(('lit', (p, s)), q)
    s2 = neg_event(st, p, ('lit', s)).setpeek(('nolit', (p, s)), True)
    return [Out(s1, None, 0), Out(s2, None, 2)]


@h('compare')
def _compare(c):
    v = c.r(0)
    l = literal(c.r(1))
    if v[0] != 'rem' or l is None:
        raise Unsupported('compare')
    out = []
    for o in lit_fork(c.st, v[1], l):
        out.append(Out(o.st, None, ('adt', CMPR, o.val, ())))
        if o.val == 2:
            out.append(Out(o.st, None, ('adt', CMPR, 1, ())))
    return out


@h('take_split')
def _take_split(c):
    v = c.r(0)
    n = c.ev.numv(c.r(1))
    s, q = resolve(c.ev, c.st, v[1], n)
    return ret(s, ('tup', (('rem', q), text(v[1], q))))


H['nom::InputTake::take'] = lambda c: (lambda r: ret(r[0], text(c.r(0)[1], r[1])))(resolve(c.ev, c.st, c.r(0)[1], c.ev.numv(c.r(1))))


@h('slice')
def _slice(c):
    return slice_text(c.ev, c.st, c.r(0), c.r(1), c.x, c.fr)


@h('slice_index')
def _slice_index(c):
    v = c.r(0)
    n = c.ev.numv(c.r(1))
    if v[0] != 'rem' or n is None or n[1] or n[2] > 64:
        raise Unsupported('slice_index')
    p = v[1]
    states = [(c.st, p)]
    out = []
    for _ in range(n[2]):
        nx = []
        for s, q in states:
            for s2, r in peek_char(s, q):
                if r is None:
                    out.append(Out(s2, None, NONE))
                else:
                    nx.append((s2, r))
        states = nx
    for s, q in states:
        out.append(Out(s, None, some(lin_add(addr(q), addr(p), -1))))
    return out


@h('find_substring')
def _find_substring(c):
    v = c.r(0)
    l = literal(c.r(1))
    if v[0] != 'rem' or l is None:
        raise Unsupported('find_substring')
    return until_fork(c.st, v[1], l)


def until_fork(st, p, l):
    s1, q = st.newpos(p, ('until', l))
    s1, r = s1.newpos(q, ('lit', l))
    s1 = s1.setpeek(('lit', (q, l)), r)
    s2 = neg_event(st, p, ('until', l))
    return [Out(s1, None, some(lin_add(addr(q), addr(p), -1))), Out(s2, None, NONE)]


def find_text(c, v, e):
    if v[0] == 'rem':
        l = literal(e) if e[0] == 'str' else None
        if l is not None:
            return until_fork(c.st, v[1], l)
        out = []
        for s, p, q in scan(c.st, v[1], pred_charset(c, e)):
            out.append(Out(s, None, NONE if q is None else some(lin_add(addr(p), addr(v[1]), -1))))
        return out
    raise Unsupported('find')


def scan(st, p, s):
    """First character of set s from p on: [(state, its position, position behind it or
    None at the end of the input)]."""
    s1, p = skip(st, p, cs.compl(s))
    out = []
    for s2, q in peek_char(s1, p):
        if q is None:
            out.append((s2, p, None))
        else:
            out.extend((s3, p, q) for s3, r in split_char(s2, q, s) if r)
    return out


def skip(st, p, s):
    """Longest run of characters of s from p on."""
    q = st.peek.get(('run', (p, s)))
    if q is not None and q in st.poss:
        return st, q
    s1, q = st.newpos(p, ('many', s, 0))
    return s1.setpeek(('run', (p, s)), q), q


@h('trim_start_matches', 'trim_left_matches')
def _trim_start(c):
    v = c.r(0)
    e = c.r(1)
    if v[0] == 'rem' and e[0] != 'str':
        s, q = skip(c.st, v[1], pred_charset(c, e))
        return ret(s, ('rem', q))
    raise Unsupported('trimming')


def _split_pos(mn):
    def f(c):
        v = c.r(0)
        s = cs.compl(pred_charset(c, c.args[1]))
        if v[0] != 'rem':
            raise Unsupported('split_at_position')
        return many_fork(c.st, v[1], s, mn)
    return f


def many_fork(st, p, s, mn):
    s1, q = st.newpos(p, ('many', s, mn))
    out = [Out(s1, None, ok(('tup', (('rem', q), text(p, q)))))]
    if mn > 0:
        s2, r = st.newpos(p, ('ch',))
        b = s2.setrefine(r, s)
        s3 = st.fact('neg', p, (Br(r, b, len(st.facts), len(st.poss)),))
        out.append(Out(s3, None, NOM_ERROR))
    return out


H['split_at_position'] = _split_pos(0)
H['split_at_position1'] = _split_pos(1)


@h('at_eof')
def _at_eof(c):
    return ret(c.st, TRUE)


def _nomset(name, mn):
    s = SETS[name]

    def f(c):
        v = c.r(0)
        if v[0] != 'rem':
            raise Unsupported('nom function on %s' % v[0])
        return many_fork(c.st, v[1], s, mn)
    return f


for _n in SETS:
    H['nom::' + _n] = _nomset(_n, 1)
    H['nom::' + _n + '1'] = _nomset(_n, 1)
    H['nom::' + _n + '0'] = _nomset(_n, 0)


@h('nom::anychar')
def _anychar(c):
    v = c.r(0)
    out = []
    for s, q in peek_char(c.st, v[1]):
        out.append(Out(s, None, NOM_ERROR if q is None else ok(('tup', (('rem', q), ('chr', q))))))
    return out


@h('nom::newline')
def _newline(c):
    v = c.r(0)
    return one_char(c, v, cs.of('\n'))


@h('nom::tab')
def _tab(c):
    return one_char(c, c.r(0), cs.of('\t'))


def one_char(c, v, s):
    out = []
    for st, q in peek_char(c.st, v[1]):
        if q is None:
            out.append(Out(st, None, NOM_ERROR))
            continue
        for s2, r in split_char(st, q, s):
            out.append(Out(s2, None, ok(('tup', (('rem', q), ('chr', q)))) if r else NOM_ERROR))
    return out


@h('nom::need_more', 'nom::need_more_err')
def _need_more(c):
    return ret(c.st, NOM_ERROR)


@h('nom::rest')
def _rest(c):
    raise Unsupported('rest')


# regex
def regex_find(c):
    v = c.r(0)
    t = c.r(1)
    p = single_text(t)
    if p is None or p[1] is not None:
        raise Unsupported('regex on composed text')
    p = p[0]
    d, anch = rx.compile(v[1])
    if not anch:
        raise Unsupported('regex %r is not anchored at the current position' % v[1])
    s1, q = c.st.newpos(p, ('re', d))
    out = [Out(s1, None, ('iter', (('e', ('match', p, q)),)))]
    if not d.acc[0]:
        out.append(Out(neg_event(c.st, p, ('re', d)), None, ('iter', ())))
    return out


@h('find_iter')
def _find_iter(c):
    return regex_find(c)


@h('is_match')
def _is_match(c):
    v = c.r(0)
    t = c.r(1)
    st = single_text(t)
    if st is not None and st[1] is not None:
        d, anch = rx.compile(v[1])
        if not anch:
            raise Unsupported('regex is not anchored')
        # some prefix matches
        tr = [list(x) if not d.acc[i] else [(cs.ALL, i)] for i, x in enumerate(d.trans)]
        return [Out(s, None, mkbool(r)) for s, r in in_lang(c.ev, c.st, t, rx.Dfa(tr, d.acc))]
    return [Out(o.st, None, mkbool(bool(o.val[1]))) for o in regex_find(c)]


@h('start')
def _start(c):
    v = c.r(0)
    if v[0] == 'match':
        return ret(c.st, num(0))
    raise Unsupported('start')


@h('end')
def _end(c):
    v = c.r(0)
    if v[0] == 'match':
        return ret(c.st, lin_add(addr(v[2]), addr(v[1]), -1))
    raise Unsupported('end')


H['regex::Match::as_str'] = lambda c: ret(c.st, text(c.r(0)[1], c.r(0)[2]))


@h('saturating_sub', 'checked_sub', 'wrapping_sub', 'abs_diff')
def _num_sub(c):
    a, b = c.ev.numv(c.r(0)), c.ev.numv(c.r(1))
    if a is None or b is None:
        raise Unsupported(c.name)
    v = lin_add(a, b, -1)
    t = c.ev.ty(c.fr.body['exprs'][c.x['args'][0]]['t'])
    res = []
    for s, okk in (decide(c.ev, c.st, v, '>=') if t['k'] == 'uint' else within(c.ev, c.st, v, t)):
        if okk:
            res.append(Out(s, None, some(v) if c.name == 'checked_sub' else v))
        elif c.name == 'checked_sub':
            res.append(Out(s, None, NONE))
        elif t['k'] == 'uint' and c.name == 'saturating_sub':
            res.append(Out(s, None, num(0)))
        elif c.name == 'abs_diff' and t['k'] == 'uint':
            res.append(Out(s, None, lin_scale(v, -1)))
        else:
            raise Unsupported(c.name)
    return res


@h('saturating_add', 'checked_add', 'wrapping_add')
def _num_add(c):
    a, b = c.ev.numv(c.r(0)), c.ev.numv(c.r(1))
    if a is None or b is None:
        raise Unsupported(c.name)
    v = lin_add(a, b)
    res = []
    for s, okk in within(c.ev, c.st, v, c.ev.ty(c.fr.body['exprs'][c.x['args'][0]]['t'])):
        if okk:
            res.append(Out(s, None, some(v) if c.name == 'checked_add' else v))
        elif c.name == 'checked_add':
            res.append(Out(s, None, NONE))
        else:
            raise Unsupported(c.name)
    return res


@h('max_value', 'min_value')
def _max_value(c):
    t = c.ev.ty(c.x['t'])
    n = t.get('n', '')
    w = 64 if n.endswith('size') else int(''.join(x for x in n if x.isdigit()) or 0)
    if not w:
        raise Unsupported('bounds of %s' % n)
    if t['k'] == 'uint':
        return ret(c.st, num((1 << w) - 1 if c.name == 'max_value' else 0))
    return ret(c.st, num((1 << (w - 1)) - 1 if c.name == 'max_value' else -(1 << (w - 1))))
