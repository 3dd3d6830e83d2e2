"""Abstract evaluation of the two command line tools.

A tool's main function is evaluated on an unknown command line, file system and
syntax tree.  Every test on something unknown forks; a path ends with the
conditions it was taken under, the output it writes and how it ends.  Loops are
evaluated once, on a generic element: what an iteration writes or adds to a
list becomes a comprehension over the thing iterated over.  The paths are then
compared, condition by condition, with those the property demands.

Terms for unknown things ('u', kind, ...):
  nargs, arg i         the command line; flag f, opt o: as clap reads it
  text p               the content of the file p
  parse t              what ast::file answers on text t
  f t v i              field i of t, known to be variant v (None: a tuple)
  el s                 the element of s an iteration is about
  rec f args           the value of a recursive function
  walk p               the entries below directory p
  pure f args          the value of any other function without effects
Lists ('lst', pieces): ('e', v) | ('all', term) | ('for', term, cases), with
cases ((conditions, pieces), ...)."""
import re as _re

import purity
from ev import Ev, Out, strip
from prims import fmt_template
from val import *

CF = 'std::ops::ControlFlow'
KINDS = frozenset(['dir', 'symdir', 'file', 'symfile', 'other', 'missing'])
NARGS = frozenset(range(1, 10))          # 9: nine or more
BOOL = frozenset([0, 1])
ANY = ('any',)


class Probe(Exception):
    def __init__(self, ref):
        Exception.__init__(self)
        self.ref = ref


class ProbeIx(Exception):
    """An index is compared with the length of this list."""

    def __init__(self, of):
        self.of = of


def U(*a):
    return ('u',) + a


def fld(t, v, i):
    """Field i of term t as variant v."""
    if t[1] == 'utf8' and v == 1:
        return t[2]
    if t[1] == 'open' and v == 0:
        return ('file', t[2])
    if t[1] == 'readbytes' and v == 0:
        return U('bytes', t[2])
    return U('f', t, v, i)


def lst(pieces):
    out = []
    for p in pieces:
        if p[0] == 'for':
            cs = tuple(c for c in p[2])
            if not any(c[1] for c in cs):
                continue
            if len(cs) == 1 and not cs[0][0] and cs[0][1] == (('e', U('el', p[1])),):
                p = ('all', p[1])
        out.append(p)
    return ('lst', tuple(out))


def mkstr(ps):
    out = []
    for p in ps:
        if p[0] == 'v' and p[1][0] == 'str':
            for q in p[1][1]:
                if q[0] == 'l' and out and out[-1][0] == 'l':
                    out[-1] = ('l', out[-1][1] + q[1])
                else:
                    out.append(q)
        elif p[0] == 'l' and out and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + p[1])
        elif p != ('l', ''):
            out.append(p)
    if len(out) == 1 and out[0][0] == 'v' and out[0][1][0] == 'u':
        return out[0][1]
    return ('str', tuple(out))


def aspieces(v):
    if v[0] == 'str':
        return v[1]
    return (('v', v),)


# ---- conditions ------------------------------------------------------------------
def narrow(cases, t, allowed):
    """cases with t restricted to allowed; None if that is impossible."""
    cur = cases.get(t)
    new = allowed if cur is None else cur & allowed
    if not new:
        return None
    if new == cur:
        return cases
    d = dict(cases)
    d[t] = new
    return d if feasible(d) else None


def feasible(d):
    for t, a in d.items():
        if t[1] == 'open' and a == frozenset([0]):
            # a file that is opened exists
            k = d.get(U('kind', t[2]))
            if k is not None and not (k - {'missing'}):
                return False
        if t[1] == 'eq' and a == frozenset([1]):
            # a text equal to another one that is known is valid UTF-8
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == 'str' and d.get(U('utf8', x)) == frozenset([0]):
                    return False
    return True


def join(a, b):
    d = a
    for t, v in (b.items() if isinstance(b, dict) else b):
        d = narrow(d, t, v)
        if d is None:
            return None
    return d


def mentions(v, w):
    return v == w or (isinstance(v, tuple) and any(mentions(x, w) for x in v))


def leaves(v, path=(), kinds=('lst', 'str')):
    """The lists and texts inside a value, with their places; everything else
    inside it must not hold any."""
    if v[0] in kinds:
        return [(path, v)]
    if v[0] in ('adt', 'tup'):
        return [l for i, x in enumerate(v[-1]) for l in leaves(x, path + (i,), kinds)]
    return [(path, v)]


def hold(v, paths, path=()):
    """v without what is at paths."""
    if path in paths:
        return ('held',)
    if v[0] in ('adt', 'tup'):
        return v[:-1] + (tuple(hold(x, paths, path + (i,)) for i, x in enumerate(v[-1])),)
    return v


def at(v, path):
    for i in path:
        if v is None or v[0] not in ('adt', 'tup') or i >= len(v[-1]):
            return None
        v = v[-1][i]
    return v


class Path:
    def __init__(self, cases, eff, end, val=None):
        self.cases, self.eff, self.end, self.val = cases, eff, end, val


class Tool(Ev):
    def __init__(self, prog):
        Ev.__init__(self, prog)
        self.mode = 'tool'
        self.file = None
        for k, b in prog.bodies.items():
            if k == '::ast::file':
                self.file = k
        self.recs = self.recursive()
        self.defs = {}
        self.templates = {}       # recursive function -> what its mutable arguments look like
        self.active = []
        self.calls_seen = set()
        self.probing = False
        self.counting = False

    # ---- recursion -----------------------------------------------------------
    def recursive(self):
        g = {}
        for k, b in self.prog.bodies.items():
            if '::ast::' in k:
                continue
            out = set()
            for x in b['exprs']:
                if x['k'] == 'Closure':
                    out.add(x['key'])
                if x.get('fn') is not None:
                    f = self.prog.fns[x['fn']]
                    kk = f['key'] or (f['res'] or {}).get('key')
                    if kk:
                        out.add(kk)
            g[k] = out
        res = set()
        for k in g:
            seen, work = set(), list(g[k])
            while work:
                m = work.pop()
                if m in seen:
                    continue
                seen.add(m)
                work.extend(g.get(m, ()))
            if k in seen and self.prog.bodies[k]['kind'] == 'fn':
                res.add(k)
        return res

    def rec_def(self, key):
        """[Path] of a recursive function on unknown arguments; a parameter that
        is a list under construction starts empty and is returned as well."""
        if key in self.defs:
            return self.defs[key]
        self.defs[key] = None
        body = self.prog.bodies[key]
        st = State()
        st.cases = {}
        args, outs = [], []
        for i, p in enumerate(body['params']):
            t = self.ty(p['t'])
            if t['k'] == 'ref' and t['mut']:
                c = ('param', i)
                st = st.setcell(c, self.templates[key][i])
                args.append(('mref', c, ()))
                outs.extend(('mref', c, q) for q, _ in leaves(self.templates[key][i]))
            else:
                args.append(U('param', i))
        ps = []
        for o in self.call_body(st, body, args, None):
            v = o.val
            if o.ctl is not None:
                raise Unsupported('a recursive function that does not return')
            v = self.flat(o.st, v)
            v = ('tup', (v,) + tuple(self.flat(o.st, c) for c in outs))
            if o.st.eff:
                raise Unsupported('a recursive function with output')
            ps.append(Path(o.st.cases, (), 'ok', v))
        self.defs[key] = ps
        return ps

    def flat(self, st, v):
        """v without references to local places."""
        v = self.read(st, v)
        if v[0] == 'tup':
            return ('tup', tuple(self.flat(st, x) for x in v[1]))
        if v[0] == 'adt':
            return v[:3] + (tuple(self.flat(st, x) for x in v[3]),)
        if v[0] == 'it':
            return ('lst', v[1])
        return v

    # ---- conditions ------------------------------------------------------------
    def is_iresult(self, ti):
        return False

    def split(self, st, t, universe):
        """[(state, value)] for every value t can have."""
        cur = st.cases.get(t, universe)
        res = []
        for v in sorted(cur, key=repr):
            d = narrow(st.cases, t, frozenset([v]))
            if d is not None:
                s = st.copy()
                s.cases = d
                res.append((s, v))
        return res

    def among(self, st, t, universe, yes):
        """[(state, bool)]: whether t is one of yes."""
        cur = st.cases.get(t, universe)
        res = []
        for b, part in ((True, cur & yes), (False, cur - yes)):
            if part:
                d = narrow(st.cases, t, frozenset(part))
                if d is not None:
                    s = st.copy()
                    s.cases = d
                    res.append((s, b))
        return res

    def truth(self, st, v):
        v = self.read(st, v)
        if v[0] == 'bool':
            return [(st, v[1])]
        if v[0] == 'u':
            if v[1] == 'is':
                return self.among(st, U('kind', v[2]), KINDS, frozenset(v[3]))
            if v[1] == 'not':
                return [(s, not b) for s, b in self.truth(st, v[2])]
            return [(s, bool(b)) for s, b in self.split(st, v, BOOL)]
        raise Unsupported('condition %s' % (v[0],))

    def variant(self, st, v, adt, i):
        """[(state, payload or None)]: whether v is variant i of adt; payload is
        the value to take fields of."""
        v = self.read(st, v)
        if v[0] == 'adt':
            return [(st, v if v[2] == i else None)]
        if v[0] == 'u':
            n = len(self.prog.adts[adt]['variants'])
            res = []
            for s, b in self.among(st, v, frozenset(range(n)), frozenset([i])):
                res.append((s, ('adt', adt, i, self.fields(v, adt, i)) if b else None))
            return res
        raise Unsupported('variant of %s' % (v[0],))

    def fields(self, v, adt, i):
        a = self.prog.adts[adt]
        return tuple(fld(v, i, n) for n in range(len(a['variants'][i]['fields'])))

    def match(self, st, pat, val, fr, ref):
        if pat['k'] == 'slice':
            return self.slice_match(st, pat, self.read(st, val), fr)
        if pat['k'] == 'variant':
            v = self.read(st, val)
            if val[0] == 'mref':
                ref = val
            if v[0] == 'u':
                res = []
                for s, w in self.variant(st, v, pat['adt'], pat['v']):
                    if w is None:
                        res.append((s, False))
                    else:
                        res.extend(self.match_subs(s, pat['subs'], w, fr, ref))
                return res
            if v[0] == 'opq':
                raise Unsupported('pattern on %s' % (v,))
        return Ev.match(self, st, pat, val, fr, ref)

    def slice_match(self, st, pat, v, fr):
        if v[0] != 'args':
            raise Unsupported('slice pattern')
        pre, suf, mid = pat['pre'], pat['suf'], pat['mid']
        if suf:
            raise Unsupported('slice pattern')
        n = len(pre) + v[1]
        yes = frozenset(k for k in NARGS if (k == n if mid is None else k >= n))
        if n > 8:
            raise Unsupported('slice pattern')
        res = []
        for s, b in self.among(st, U('nargs'), NARGS, yes):
            if not b:
                res.append((s, False))
                continue
            states = [s]
            for i, q in enumerate(pre):
                nx = []
                for s2 in states:
                    for s3, m in self.match(s2, q, U('arg', v[1] + i), fr, None):
                        if m:
                            nx.append(s3)
                        else:
                            res.append((s3, False))
                states = nx
            if mid is not None:
                nx = []
                for s2 in states:
                    nx.extend(s3 for s3, m in self.match(s2, mid, ('args', n), fr, None) if m)
                states = nx
            res.extend((s2, True) for s2 in states)
        return res

    def match_const(self, st, pat, v):
        return self.equal(st, v, self.const_value(pat['value']))

    def match_range(self, st, pat, v):
        def lim(b):
            return None if b is None else self.const_value(b)[2]
        lo, hi, incl = lim(pat['lo']), lim(pat['hi']), pat.get('incl', True)
        v = self.read(st, v)
        if v[0] != 'lin':
            raise Unsupported('range pattern')
        return self.number(st, v, lambda n: (lo is None or n >= lo) and (hi is None or n < hi or (incl and n == hi)))

    def number(self, st, v, f):
        """[(state, bool)] for a test on a number made of the argument count."""
        if not v[1]:
            return [(st, bool(f(v[2])))]
        if len(v[1]) != 1 or v[1][0][0] != U('nargs'):
            raise Unsupported('test on a number')
        k = v[1][0][1]
        if len(set(bool(f(k * n + v[2])) for n in range(9, 40))) != 1:
            raise Unsupported('test on the number of arguments')
        return self.among(st, U('nargs'), NARGS, frozenset(n for n in NARGS if f(k * n + v[2])))

    def equal(self, st, a, b):
        """[(state, bool)]"""
        a, b = self.read(st, a), self.read(st, b)
        if a == b:
            return [(st, True)]
        if a[0] == 'lin' and b[0] == 'lin':
            return self.number(st, lin_add(a, b, -1), lambda n: n == 0)
        if a[0] == 'bool' and b[0] == 'bool':
            return [(st, a[1] == b[1])]
        if a[0] == 'bool' or b[0] == 'bool':
            k, u = (a, b) if a[0] == 'bool' else (b, a)
            return [(s, x == k[1]) for s, x in self.truth(st, u)]
        if b[0] == 'adt' and a[0] != 'adt':
            a, b = b, a
        if a[0] == 'adt':
            res = []
            for s, w in self.variant(st, b, a[1], a[2]):
                if w is None:
                    res.append((s, False))
                    continue
                states = [s]
                for x, y in zip(a[3], w[3]):
                    nx = []
                    for s2 in states:
                        for s3, e in self.equal(s2, x, y):
                            if e:
                                nx.append(s3)
                            else:
                                res.append((s3, False))
                    states = nx
                res.extend((s2, True) for s2 in states)
            return res
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            raise Unsupported('comparison of tuples')
        if a[0] == 'str' and b[0] == 'str' and all(p[0] == 'l' for p in a[1] + b[1]):
            return [(st, a == b)]
        if a[0] in ('u', 'str') and b[0] in ('u', 'str'):
            if a[0] == 'str' or (b[0] != 'str' and repr(b) < repr(a)):
                a, b = b, a
            return [(s, bool(x)) for s, x in self.split(st, U('eq', a, b), BOOL)]
        raise Unsupported('comparison of %s and %s' % (a[0], b[0]))

    def binop(self, st, op, a, b, x, fr):
        op = {'==': 'Eq', '!=': 'Ne', '<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge', '&': 'BitAnd', '|': 'BitOr', '^': 'BitXor',
              '+': 'Add', '-': 'Sub'}.get(op, op)
        if a[0] == 'lin' and b[0] == 'lin':
            w = self.compare_ix(op, lin_add(a, b, -1))
            if w is not None:
                return [Out(st, None, mkbool(w))]
        if op in ('Eq', 'Ne'):
            return [Out(s, None, mkbool(e == (op == 'Eq'))) for s, e in self.equal(st, a, b)]
        if op in ('Lt', 'Le', 'Gt', 'Ge') and a[0] == 'lin' and b[0] == 'lin':
            f = {'Lt': lambda n: n < 0, 'Le': lambda n: n <= 0, 'Gt': lambda n: n > 0, 'Ge': lambda n: n >= 0}[op]
            return [Out(s, None, mkbool(e)) for s, e in self.number(st, lin_add(a, b, -1), f)]
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] in ('bool', 'u') and b[0] in ('bool', 'u'):
            return [Out(s2, None, mkbool({'BitAnd': p and q, 'BitOr': p or q, 'BitXor': p != q}[op]))
                    for s, p in self.truth(st, a) for s2, q in self.truth(s, b)]
        if op in ('Add', 'AddWithOverflow') and a[0] == 'lin' and b[0] == 'lin':
            return [Out(st, None, lin_add(a, b))]
        if op in ('Sub', 'SubWithOverflow') and a[0] == 'lin' and b[0] == 'lin':
            return [Out(st, None, lin_add(a, b, -1))]
        raise Unsupported('operator %s' % op)

    def compare_ix(self, op, d):
        """An index against the length of the list it runs through."""
        if op not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') or len(d[1]) != 2 or d[2] != 0 or any(t[0] != 'u' for t, _ in d[1]):
            return None
        c = {t[1]: (t, k) for t, k in d[1]}
        if set(c) != {'ix', 'len'} or c['ix'][1] + c['len'][1] != 0 or abs(c['ix'][1]) != 1:
            return None
        ix, of = c['ix'][0][2], c['len'][0][2]
        if ix is None and self.counting:
            raise ProbeIx(of)
        if ix != of or of not in self.active:
            return None
        n = -c['ix'][1]
        return {'Eq': False, 'Ne': True, 'Lt': n < 0, 'Le': n <= 0, 'Gt': n > 0, 'Ge': n >= 0}[op]

    def field(self, st, v, i):
        v = self.read(st, v)
        if v[0] == 'u':
            a = st.cases.get(v)
            if a is not None and len(a) == 1:
                return fld(v, list(a)[0], i)
            return fld(v, None, i)
        if v[0] in ('str', 'file') and i == 0:
            return v
        return Ev.field(self, st, v, i)

    def x_Array(self, x, st, fr):
        return self.seqev(x['a'], st, fr, lambda s, vs: [Out(s, None, lst([('e', v) for v in vs]))])

    def x_Index(self, x, st, fr):
        return self.seqev([x['e'], x['i']], st, fr, lambda s, vs: self.index(s, vs[0], vs[1], x, fr))

    def index(self, st, v, i, x, fr):
        v, i = self.read(st, v), self.read(st, i)
        if v[0] == 'args' and i[0] == 'lin' and not i[1]:
            res = []
            for s, b in self.has_arg(st, v[1] + i[2]):
                res.append(Out(s, None, U('arg', v[1] + i[2])) if b else self.panic(s, 'index', x, fr))
            return res
        if v[0] == 'args' and i[0] == 'adt' and i[1].endswith('RangeFrom') and i[3][0][0] == 'lin' and not i[3][0][1]:
            n = i[3][0][2]
            res = []
            for s, b in self.has_arg(st, v[1] + n - 1):
                res.append(Out(s, None, ('args', v[1] + n)) if b else self.panic(s, 'index', x, fr))
            return res
        if v[0] == 'lst' and i[0] == 'lin' and not i[1] and all(p[0] == 'e' for p in v[1]):
            if i[2] < len(v[1]):
                return [Out(st, None, v[1][i[2]][1])]
            return [self.panic(st, 'index', x, fr)]
        if v[0] == 'u' and i == ('lin', ((U('ix', v), 1),), 0) and v in self.active:
            return [Out(st, None, U('el', v))]
        raise Unsupported('indexing')

    def has_arg(self, st, n):
        if n > 8:
            raise Unsupported('argument %d' % n)
        return self.among(st, U('nargs'), NARGS, frozenset(k for k in NARGS if k > n))

    # ---- calls -----------------------------------------------------------------
    def call_fn(self, st, idx, args, x, fr):
        f = self.prog.fns[idx]
        if f['ctor'] is not None:
            return [Out(st, None, self.mk_ctor(f, args))]
        key, res = f['key'], f['res']
        if not key and res and res.get('key') and res['key'] in self.prog.bodies and not res.get('derived'):
            key = res['key']
        if key and key in self.prog.bodies and self.prog.bodies[key]['kind'] != 'closure':
            if key == self.file:
                self.calls_seen.add(key)
                return [Out(st, None, U('parse', self.value(st, args[0])))]
            if key in self.recs:
                return self.call_rec(st, key, args)
            return self.call_body(st, self.prog.bodies[key], args, None)
        return call(self, st, f, args, x, fr)

    def call_rec(self, st, key, args):
        vs, refs, shape = [], [], {}
        for i, a in enumerate(args):
            t = self.ty(self.prog.bodies[key]['params'][i]['t'])
            if t['k'] == 'ref' and t['mut']:
                v = self.read(st, a)
                if a[0] != 'mref' or any(w[0] != 'lst' for _, w in leaves(v)):
                    raise Unsupported('a recursive function that changes what it is given')
                shape[i] = v
                for q, _ in leaves(v):
                    shape[i] = self.update(st, shape[i], q, ('lst', ()))
                    refs.append(('mref', a[1], a[2] + q))
                vs.append(('out',))
            else:
                vs.append(self.flat(st, a))
        if self.templates.setdefault(key, shape) != shape:
            raise Unsupported('a recursive function that changes several kinds of things')
        vs = tuple(vs)
        for n, r in enumerate(refs):
            cur = self.read(st, r)
            st = self.write(st, r, lst(cur[1] + (('all', U('rec', key, vs, n + 1)),)))
        t = self.ty(self.prog.bodies[key]['ret'])
        v = UNIT if t['k'] == 'tuple' and not t['a'] else U('rec', key, vs, 0)
        return [Out(st, None, v)]

    def value(self, st, v):
        v = self.flat(st, v)
        if v[0] == 'str':
            return mkstr(v[1])
        return v

    # ---- iteration ---------------------------------------------------------------
    def pieces(self, st, v, where='iterator'):
        """Pieces of anything that can be iterated over: [(state, pieces)]."""
        v = self.read(st, v)
        if v[0] in ('lst', 'it'):
            return [(st, v[1])]
        if v[0] == 'adt' and v[1] == OPTION:
            return [(st, (('e', v[3][0]),) if v[2] == 1 else ())]
        if v[0] == 'adt' and v[1] == RESULT:
            return [(st, (('e', v[3][0]),) if v[2] == 0 else ())]
        if v[0] == 'u':
            return [(st, (('all', v),))]
        if v[0] == 'walkdir':
            return [(st, (('all', U('walk', v[1], v[2])),))]
        if v[0] == 'adt' and v[1] == 'std::ops::Range' and v[3][0] == num(0) and v[3][1][0] == 'lin':
            k = v[3][1]
            if len(k[1]) == 1 and k[1][0][0][1] == 'len' and k[1][0][1] == 1 and k[2] == 0:
                return [(st, (('ix', k[1][0][0][2]),))]
        raise Unsupported('%s over %s' % (where, v[0]))

    def over(self, st, pieces, body):
        """Run body(state, element) -> [Out] for every element.  Outcomes without
        control go on with the next element; others leave.  Lists held in cells
        may grow.  Returns the outcomes, those without control at the end."""
        live = [st]
        left = []
        for p in pieces:
            nx = []
            for s in live:
                if p[0] == 'e':
                    outs = body(s, p[1])
                else:
                    outs = self.generic(s, p, body)
                for o in outs:
                    if o.ctl is None:
                        nx.append(o.st)
                    else:
                        left.append(o)
            live = nx
        return [Out(s, None, UNIT) for s in live] + left

    def generic(self, st, p, body):
        src = p[1]
        el = U('el', src)
        if src in self.active:
            raise Unsupported('a loop within a loop over the same thing')
        if p[0] == 'ix':
            # every index of the list, in order
            given = body
            body = lambda s, v: given(s, ('lin', ((U('ix', src), 1),), 0))
            p = ('all', src)
        if p[0] == 'all':
            p = ('for', src, (((), (('e', el),)),))
        self.active.append(src)
        try:
            # the lists the body does not touch are what they are; the others
            # hold anything at the start of an iteration
            marked = {}
            while True:
                alts = []
                start = st.copy()
                start.eff = ()
                for (c, q), v in marked.items():
                    start.cells[c] = self.update(start, start.cells[c], q, (v[0], (('old', (c, q)),)))
                for conds, ps in p[2]:
                    d = join(start.cases, conds)
                    if d is None:
                        continue
                    s = start.copy()
                    s.cases = d
                    alts.extend(self.over(s, ps, body))
                more = {}
                for c, v in st.cells.items():
                    for q, w in leaves(v):
                        if w[0] in ('lst', 'str') and (c, q) not in marked and any(
                                c in o.st.cells and at(o.st.cells[c], q) != w for o in alts):
                            more[c, q] = w
                if not more:
                    break
                marked.update(more)
        finally:
            self.active.pop()
        base = dict(st.cases)
        cases, leave = [], []
        pushes = {c: [] for c in marked}
        for o in alts:
            conds = tuple(sorted(((t, a) for t, a in o.st.cases.items() if base.get(t) != a), key=repr))
            for c, v in st.cells.items():
                w = o.st.cells.get(c)
                if v == ('opq', 'uninit') or w is None or c[0] == 'now':
                    continue
                qs = set(q for c2, q in marked if c2 == c)
                if w != v and hold(w, qs) != hold(v, qs):
                    raise Unsupported('a loop that changes a variable')
            for (c, q), v in marked.items():
                w = at(o.st.cells.get(c), q)
                if w is None or w[0] != v[0] or not w[1] or w[1][0] != ('old', (c, q)) or ('old', (c, q)) in w[1][1:]:
                    raise Unsupported('a loop that replaces a list')
                pushes[c, q].append((conds, w[1][1:]))
            end = None if o.ctl is None else o.ctl[0] if o.ctl[0] != 'exit' else 'exit%s' % (o.ctl[1],)
            cases.append((conds, o.st.eff, end))
            if o.ctl is not None:
                leave.append((conds, o))
        eff = any(c[1] or c[2] for c in cases)
        out = []
        done = st.copy()
        for (c, q), v in marked.items():
            ps = tuple(pushes[c, q])
            if any(w for _, w in ps):
                if v[0] == 'str':
                    raise Unsupported('text put together in a loop')
                done.cells[c] = self.update(done, done.cells[c], q, lst(v[1] + (('for', src, ps),)))
        if eff:
            done.eff = st.eff + (('loop', src, tuple(cases)),)
        if leave:
            d = narrow(st.cases, U('left', src), frozenset([0]))
            if d is None:
                raise Unsupported('a second loop over the same thing')
            done.cases = d
        out.append(Out(done, None, UNIT))
        for conds, o in leave:
            s = o.st.copy()
            keep = dict(st.cases)
            for t, a in conds:
                if not mentions(t, el):
                    keep[t] = a
            s.cases = narrow(keep, U('left', src), frozenset([1]))
            if s.cases is None:
                raise Unsupported('a second loop over the same thing')
            for (c, q), v in marked.items():
                w = at(s.cells.get(c), q)
                if w is not None and w[0] == v[0] and w[1][:1] == (('old', (c, q)),):
                    touched = any(x for _, x in pushes[c, q])
                    s.cells[c] = self.update(s, s.cells[c], q, ('opq', 'list of a loop that was left') if touched else v)
            s.eff = st.eff + (('loop', src, tuple(cases)), ('leave', conds))
            out.append(Out(s, o.ctl, o.val))
        return out

    def counted(self, x, st, fr, lab):
        """A loop that counts from nothing to the length of a list, or None."""
        for c in [c for c, v in st.cells.items() if v == num(0)]:
            saved, self.counting = self.counting, True
            try:
                self.ev(x['e'], st.setcell(c, ('lin', ((U('ix', None), 1),), 0)), fr)
                continue
            except ProbeIx as p:
                of = p.of
            except (Unsupported, Probe):
                continue
            finally:
                self.counting = saved
            here = ('lin', ((U('ix', of), 1),), 0)
            end = ('lin', ((U('len', of), 1),), 0)

            def step(s, v):
                outs = []
                for o in self.ev(x['e'], s.setcell(c, v), fr):
                    if o.ctl is None or o.ctl == ('cont', lab):
                        if o.st.cells.get(c) != lin_add(v, num(1)):
                            raise Unsupported('an index that does not advance by one')
                        o = Out(o.st.setcell(c, num(0)), None, UNIT)
                    else:
                        o = Out(o.st.setcell(c, ('opq', 'index')), o.ctl, o.val)
                    outs.append(o)
                return outs
            res = []
            for o in self.over(st, (('ix', of),), step):
                if o.ctl is not None:
                    res.append(o)
                    continue
                for o2 in self.ev(x['e'], o.st.setcell(c, end), fr):
                    if o2.ctl is None or o2.ctl == ('cont', lab):
                        raise Unsupported('a loop that goes on after its last element')
                    res.append(o2)
            return res
        return None

    def ev_loop(self, x, st, fr, label):
        lab = (fr, label)
        try:
            return self.ev_loop1(x, st, fr, lab)
        except Unsupported:
            if self.probing or self.counting:
                raise
            r = self.counted(x, st, fr, lab)
            if r is None:
                raise
            return r

    def ev_loop1(self, x, st, fr, lab):
        saved = self.probing
        self.probing = True
        try:
            self.ev(x['e'], st, fr)
            raise Unsupported('loop without iterator', self.where(x, fr))
        except Probe as p:
            ref = p.ref
        finally:
            self.probing = saved
        self.probing = False
        try:
            now = ('now',) + ref[1:]

            def step(s, v):
                outs = []
                for o in self.ev(x['e'], s.setcell(now, v), fr):
                    if o.ctl is not None and o.ctl == ('cont', lab):
                        o = Out(o.st, None, UNIT)
                    if o.ctl is None and o.st.cells.get(now) != ('used',):
                        raise Unsupported('an iteration that does not advance')
                    outs.append(o)
                return outs
            res = []
            for s, ps in self.pieces(st, ref):
                for o in self.over(s, ps, step):
                    if o.ctl is not None:
                        res.append(o)
                        continue
                    for o2 in self.ev(x['e'], o.st.setcell(now, ('end',)), fr):
                        if o2.ctl is None or o2.ctl == ('cont', lab):
                            raise Unsupported('a loop that goes on after its last element')
                        res.append(o2)
            for o in res:
                o.st = o.st.copy()
                o.st.cells.pop(now, None)
            return res
        finally:
            self.probing = saved

    def merge(self, s0, mark, outs):
        return outs


# ---- functions of std, walkdir and clap ---------------------------------------------
IDENT = {'clone', 'to_string', 'to_owned', 'deref', 'deref_mut', 'as_ref', 'as_str', 'borrow', 'into', 'as_mut',
         'to_path_buf', 'as_path', 'as_os_str', 'to_os_string', 'into_os_string', 'into_string', 'as_slice', 'into_boxed_str',
         'as_mut_str', 'iter_elements', 'by_ref', 'borrow_mut', 'into_owned', 'as_deref', 'cloned', 'copied', 'into_vec',
         'into_boxed_slice', 'into_path', 'fuse', 'as_inner', 'into_inner', 'lock', 'stdout', 'black_box', 'to_vec',
         'into_path_buf', 'as_mut_slice', 'branch_unused'}


def call(ev, st, f, args, x, fr):
    p = strip(f['p'])
    name = f['name']
    r = lambda i: ev.read(st, args[i])
    one = lambda v, s=st: [Out(s, None, v)]
    res = (f['res'] or {}).get('p', '')

    def apply(s, g, *a):
        return ev.call_value(s, g, list(a), x, fr)

    def bools(rs):
        return [Out(s, None, mkbool(b)) for s, b in rs]

    def then(outs, g):
        out = []
        for o in outs:
            if o.ctl is not None:
                out.append(o)
            else:
                out.extend(g(o.st, o.val))
        return out

    def fail(s):
        return [ev.panic(s, name, x, fr)]

    # output
    if p in ('std::io::stdout', 'std::io::stderr'):
        return one(('opq', p[9:]))
    if name in ('write_fmt', 'write_all') and r(0) in (('opq', 'stdout'), ('opq', 'stderr')):
        if r(0)[1] == 'stdout':
            ps = tuple(fmt(ev, st, r(1)) if name == 'write_fmt' else aspieces(ev.value(st, args[1])))
            st = st.copy()
            st.eff = st.eff + (('print', ps),)
            if len(st.eff) > 1 and st.eff[-2][0] == 'print':
                st.eff = st.eff[:-2] + (('print', st.eff[-2][1] + ps),)
        return one(ok(UNIT), st)
    if name in ('_print', '_eprint'):
        if name == '_eprint':
            return one(UNIT)
        ps = tuple(fmt(ev, st, r(0)))
        s = st.copy()
        if s.eff and s.eff[-1][0] == 'print':
            s.eff = s.eff[:-1] + (('print', s.eff[-1][1] + ps),)
        else:
            s.eff = s.eff + (('print', ps),)
        return one(UNIT, s)
    if name in ('new_display', 'new_debug'):
        return one(('fmtarg', name[4:], ev.flat(st, args[0])))
    if p == 'std::fmt::Arguments::new':
        return one(('fmt', r(0), r(1)))
    if name == 'from_str' and 'Arguments' in p or name == 'new_const':
        return one(r(0))
    if name == 'format' and p.startswith(('std::fmt', 'alloc::fmt')):
        return one(mkstr(fmt(ev, st, r(0))))
    if name == 'must_use':
        return one(args[0])
    if p.startswith('std::process') and name in ('exit', 'abort'):
        c = r(0) if args else num(134)
        if c[0] != 'lin' or c[1]:
            raise Unsupported('exit status')
        return [Out(st, ('exit', c[2]), None)]
    if name in ('panic', 'panic_fmt', 'panic_display', 'panic_str', 'begin_panic', 'unreachable', 'panic_explicit',
                'unreachable_display', 'panic_bounds_check', 'assert_failed'):
        return fail(st)

    # command line
    if p == 'std::env::args' or p == 'std::env::args_os':
        return one(('args', 0))
    if args and r(0)[0] == 'args':
        v = r(0)
        off = v[1]
        if name in ('collect', 'iter', 'into_iter', 'as_slice', 'deref', 'as_ref', 'skip_unused', 'clone', 'cloned', 'to_vec'):
            return one(v)
        if name == 'len' or name == 'count':
            return one(('lin', ((U('nargs'), 1),), -off))
        if name == 'is_empty':
            return bools([(s, not b) for s, b in ev.has_arg(st, off)])
        if name == 'index':
            return ev.index(st, v, r(1), x, fr)
        if name in ('skip',):
            n = r(1)
            if n[0] == 'lin' and not n[1]:
                return one(('args', off + n[2]))
        if name in ('get', 'nth', 'first', 'next'):
            n = r(1) if len(args) > 1 else num(0)
            if n[0] != 'lin' or n[1]:
                raise Unsupported('argument')
            k = off + n[2]
            out = []
            for s, b in ev.has_arg(st, k):
                if name in ('nth', 'next') and args[0][0] == 'mref':
                    s = ev.write(s, args[0], ('args', k + 1))
                out.append(Out(s, None, some(U('arg', k)) if b else NONE))
            return out
        raise Unsupported('%s on the arguments' % name)
    if p.startswith('clap::'):
        return clap(ev, st, p, name, args, r, one)

    # file system
    if p.startswith('std::fs::') or 'std::fs::' in res or p.startswith('std::io::'):
        w = fs(ev, st, p, name, args, r, one)
        if w is not None:
            return w
    if p.startswith('walkdir::') or (args and r(0)[0] == 'walkdir') or (
            name == 'file_name' and args and r(0)[0] == 'u' and r(0)[1] in ('f', 'el') and 'DirEntry' in p):
        v = r(0) if args else None
        if name == 'new' and p.startswith('walkdir::WalkDir'):
            return one(('walkdir', ev.value(st, args[0]), ()))
        if v[0] == 'walkdir':
            if name in ('into_iter', 'iter'):
                return one(('it', (('all', U('walk', v[1], v[2])),)))
            if name in ('min_depth', 'max_depth', 'follow_links', 'sort_by', 'sort_by_key', 'sort_by_file_name',
                        'contents_first', 'same_file_system', 'filter_entry', 'follow_root_links'):
                k = r(1) if len(args) > 1 and r(1)[0] in ('lin', 'bool') else None
                dflt = {'follow_links': FALSE, 'contents_first': FALSE, 'same_file_system': FALSE,
                        'follow_root_links': TRUE, 'min_depth': num(0)}
                if name in dflt and k == dflt[name]:
                    return one(v)
                if name in ('max_open',):
                    return one(v)
                return one(('walkdir', v[1], v[2] + ((name, k),)))
            if name == 'max_open':
                return one(v)
        if name == 'path' or name == 'into_path':
            return one(U('path', v))
        if name == 'file_type':
            return one(('ftype', U('path', v)))
        if name == 'metadata':
            return one(ok(('ftype', U('path', v))))
        if name == 'file_name':
            return one(U('pure', 'file_name', U('path', v)))
        if name == 'path_is_symlink':
            return one(U('is', U('path', v), ('symdir', 'symfile')))
        if name == 'depth':
            return one(U('pure', 'depth', v))
    if args and r(0)[0] in ('ftype', 'meta'):
        # an entry's own type: links are not followed
        k, path = r(0)
        sets = {'is_dir': ('dir', 'symdir') if k == 'meta' else ('dir',),
                'is_file': ('file', 'symfile') if k == 'meta' else ('file',),
                'is_symlink': () if k == 'meta' else ('symdir', 'symfile')}
        if name in sets:
            return one(U('is', path, sets[name])) if sets[name] else one(FALSE)
        if name == 'file_type':
            return one(r(0))
    if p.startswith('std::path::Path') or 'OsStr' in p or p.startswith('std::ffi'):
        v = ev.value(st, args[0]) if args else None
        if name in ('new', 'from'):
            return one(v)
        if name == 'is_dir':
            return one(U('is', v, ('dir', 'symdir')))
        if name == 'is_file':
            return one(U('is', v, ('file', 'symfile')))
        if name == 'exists':
            return one(U('is', v, ('dir', 'symdir', 'file', 'symfile', 'other')))
        if name == 'is_symlink':
            return one(U('is', v, ('symdir', 'symfile')))
        if name == 'metadata':
            return meta(ev, st, v)
        if name == 'to_str':
            if v[0] == 'str':
                return one(some(v))
            if v[1] in ('arg', 'opt') or (v[1] == 'f' and v[2][1] == 'opt'):
                return one(some(v))
            return one(U('utf8', v))
        if name in ('to_string_lossy', 'display'):
            return [Out(s, None, v if b else U('pure', 'lossy', v)) for s, b in
                    ev.among(st, U('utf8', v), BOOL, frozenset([1]))]
        if name == 'extension':
            return one(U('ext', v))
        if name in IDENT:
            return one(args[0] if args[0][0] == 'mref' else v)

    # comparisons
    if name in ('eq', 'ne') and len(args) == 2:
        return bools([(s, b == (name == 'eq')) for s, b in ev.equal(st, args[0], args[1])])
    if name == 'not' and p.startswith('std::ops'):
        return bools([(s, not b) for s, b in ev.truth(st, args[0])])

    # ? operator
    if name == 'branch' and 'Try' in p:
        isres = 'result::Result' in res
        if not isres and 'option::Option' not in res:
            raise Unsupported('? on %s' % res)
        okv = 0 if isres else 1
        out = []
        for s, w in ev.variant(st, args[0], RESULT if isres else OPTION, okv):
            if w is not None:
                out.append(Out(s, None, ('adt', CF, 0, (w[3][0],))))
            elif isres:
                for s2, w2 in ev.variant(s, args[0], RESULT, 1):
                    if w2 is not None:
                        out.append(Out(s2, None, ('adt', CF, 1, (w2,))))
            else:
                out.append(Out(s, None, ('adt', CF, 1, (NONE,))))
        return out
    if name == 'from_residual':
        return one(args[0])
    if name == 'from_output':
        return one(ok(args[0]) if ev.ty(x['t'])['p'] == RESULT else some(args[0]))

    # Option and Result
    if p.startswith(('std::option::Option', 'std::result::Result')):
        w = option(ev, st, RESULT if 'Result' in p else OPTION, name, args, apply, then, fail, one)
        if w is not None:
            return w

    # lists and iterators
    w = lists(ev, st, p, name, args, r, one, apply, then, x, fr)
    if w is not None:
        return w
    if name in IDENT:
        if args[0][0] == 'mref' and name not in ('clone', 'to_string', 'to_owned', 'into_owned', 'cloned', 'copied', 'to_vec'):
            return one(args[0])
        return one(r(0))
    if name == 'from' and len(args) == 1:
        return one(args[0])
    if name == 'new' and p.startswith('std::boxed') or name in ('new', 'from') and len(args) == 1 and 'Box' in p:
        return one(args[0])
    if name == 'new' and 'BufReader' in p:
        return one(args[0])
    if name == 'drop' or name == 'flush':
        return one(UNIT if name == 'drop' else ok(UNIT))
    if name == 'is_empty' and r(0)[0] == 'u':
        v = r(0)
        if v[1] == 'f' and v[2][1] == 'f' and v[2][2][1] == 'parse' and v[3] is None and v[4] == 0:
            return one(TRUE)             # what is left after a successful parse (C04)
        return one(U('pure', 'is_empty', v))
    if name in ('push_str', 'push', 'add', 'add_assign', 'write_str', 'push_string') and args:
        cur = r(0)
        if cur[0] in ('str', 'u') and r(1)[0] in ('str', 'u', 'chrlit'):
            b = strlit(r(1)[1]) if r(1)[0] == 'chrlit' else r(1)
            new = mkstr(aspieces(cur) + aspieces(b))
            if args[0][0] == 'mref':
                return one(UNIT, ev.write(st, args[0], new if new[0] == 'str' else ('str', (('v', new),))))
            return one(new)
    if name == 'from_utf8' and r(0)[0] == 'u' and r(0)[1] == 'bytes':
        return readres(ev, st, r(0)[2])
    # anything else: a function of its arguments, if it is one
    if any(a[0] == 'mref' and ev.ty(fr.body['exprs'][e]['t'])['k'] == 'ref' and ev.ty(fr.body['exprs'][e]['t'])['mut']
           for a, e in zip(args, x.get('args', ()))) or any(a[0] == 'clo' for a in args):
        raise Unsupported('call of %s is not modelled' % f['p'])
    if purity.judge(f) is None:
        return one(U('pure', f['p']) + tuple(ev.value(st, a) for a in args))
    raise Unsupported('call of %s is not modelled' % f['p'])


def fmt(ev, st, v):
    if v[0] in ('str', 'u'):
        return aspieces(v)
    if v[0] != 'fmt':
        raise Unsupported('formatting')
    a = v[2]
    if a[0] != 'lst' or any(q[0] != 'e' for q in a[1]):
        raise Unsupported('formatting')
    a = [q[1] for q in a[1]]
    ps = ()
    for t in fmt_template(tmpl(v[1])):
        if t[0] == 'l':
            ps = ps + (t,)
            continue
        g = a[t[1]]
        if g[0] != 'fmtarg':
            raise Unsupported('formatting')
        w = g[2]
        if g[1] == 'display' and not t[2] and w[0] in ('str', 'u'):
            ps = ps + tuple(aspieces(w))
        else:
            ps = ps + (('v', ('show', g[1], t[2], w)),)
    return mkstr_pieces(ps)


def mkstr_pieces(ps):
    v = mkstr(ps)
    return v[1] if v[0] == 'str' else (('v', v),)


def tmpl(v):
    if v[0] == 'lst':
        return ('seq', v[1])
    return v


def readres(ev, st, p):
    """The Result of reading file p as text."""
    out = []
    for s, b in ev.among(st, U('read', p), BOOL, frozenset([1])):
        out.append(Out(s, None, ok(U('text', p)) if b else err(U('readerror', p))))
    return out


def meta(ev, st, v):
    out = []
    for s, b in ev.among(st, U('kind', v), KINDS, frozenset(['missing'])):
        out.append(Out(s, None, err(U('metaerror', v)) if b else ok(('meta', v))))
    return out


def fs(ev, st, p, name, args, r, one):
    if name == 'open' and p.endswith('File::open'):
        v = ev.value(st, args[0])
        return [Out(s, None, ok(('file', v)) if k == 0 else err(U('openerror', v))) for s, k in ev.split(st, U('open', v), BOOL)]
    if name in ('metadata', 'symlink_metadata') and args and r(0)[0] in ('u', 'str'):
        v = ev.value(st, args[0])
        if name == 'metadata':
            return meta(ev, st, v)
        return [Out(s, None, err(U('metaerror', v)) if b else ok(('ftype', v))) for s, b in
                ev.among(st, U('kind', v), KINDS, frozenset(['missing']))]
    if name == 'new' and 'BufReader' in p:
        return one(args[0])
    if name == 'read_to_string' and len(args) == 2:
        f = r(0)
        if f[0] != 'file':
            raise Unsupported('reading from %s' % (f[0],))
        out = []
        for o in readres(ev, st, f[1]):
            if o.val[2] == 0:
                cur = ev.read(o.st, args[1])
                if cur[0] != 'str':
                    raise Unsupported('reading into %s' % (cur[0],))
                new = mkstr(cur[1] + (('v', o.val[3][0]),))
                # the text stays a string that can grow
                s = ev.write(o.st, args[1], new if new[0] == 'str' else ('str', (('v', new),)))
                if args[0][0] == 'mref':
                    s = ev.write(s, args[0], ('opq', 'file at its end'))
                out.append(Out(s, None, ok(U('size', f[1]))))
            else:
                out.append(Out(o.st, None, o.val))
        return out
    if name == 'read_to_end' and len(args) == 2 and r(0)[0] == 'file' and r(1) == ('lst', ()):
        # reading can fail here or, for text that is not UTF-8, later
        f = r(0)[1]
        s = ev.write(st, args[1], U('bytes', f))
        out = [Out(s, None, ok(U('size', f)))]
        d = narrow(st.cases, U('read', f), frozenset([0]))
        if d is not None:
            s = st.copy()
            s.cases = d
            out.append(Out(s, None, err(U('readerror', f))))
        return out
    if name == 'read_to_string' and len(args) == 1:
        v = ev.value(st, args[0])
        if v[0] == 'file':
            return readres(ev, st, v[1])
        out = []
        for s, k in ev.split(st, U('open', v), BOOL):
            if k:
                out.append(Out(s, None, err(U('openerror', v))))
            else:
                out.extend(readres(ev, s, v))
        return out
    if name == 'read' and p == 'std::fs::read':
        v = ev.value(st, args[0])
        return [Out(s, None, ok(U('bytes', v)) if k == 0 else err(U('openerror', v))) for s, k in ev.split(st, U('open', v), BOOL)]
    return None


# clap: what the command line means, whatever the arguments are called inside
def clap(ev, st, p, name, args, r, one):
    if name in ('with_name', 'new') and 'Arg' in p and 'ArgMatches' not in p:
        return one(('claparg', lit(r(0)), frozenset()))
    if name == 'new' and 'App' in p:
        return one(('clapapp', ()))
    v = r(0) if args else None
    if v is not None and v[0] == 'claparg':
        if name in ('help', 'value_name', 'long_help', 'display_order', 'hidden'):
            return one(v)
        k = r(1) if len(args) > 1 else UNIT
        k = lit(k) if k[0] == 'str' else k
        if name in ('short', 'long'):
            k = k.lstrip('-')
        if name in ('takes_value', 'required', 'multiple') and k == FALSE:
            return one(v)
        return one(('claparg', v[1], v[2] | {(name, k)}))
    if v is not None and v[0] == 'clapapp':
        if name in ('version', 'author', 'about', 'long_about', 'name', 'bin_name', 'before_help', 'after_help', 'usage'):
            return one(v)
        if name == 'arg':
            a = r(1)
            return one(('clapapp', v[1] + (a,)))
        if name == 'args':
            a = r(1)
            if a[0] == 'lst' and all(q[0] == 'e' for q in a[1]):
                return one(('clapapp', v[1] + tuple(q[1] for q in a[1])))
        if name == 'get_matches':
            return one(('clapmatches', v[1]))
    if v is not None and v[0] == 'clapmatches':
        spec = canonical(v[1])
        n = lit(r(1)) if len(args) > 1 else None
        if n in spec:
            if name == 'value_of':
                return one(U('opt', spec[n], len(spec)))
            if name == 'is_present':
                t = U('flag', spec[n], len(spec))
                if any(k == 'index' for k, _ in spec[n]):
                    return [Out(s, None, mkbool(w is not None)) for s, w in
                            ev.variant(st, U('opt', spec[n], len(spec)), OPTION, 1)]
                return one(t)
    raise Unsupported('call of %s is not modelled' % p)


def lit(v):
    if v[0] == 'str' and all(q[0] == 'l' for q in v[1]):
        return ''.join(q[1] for q in v[1])
    if v[0] == 'chrlit':
        return v[1]
    raise Unsupported('name of an argument')


def canonical(args):
    """name -> what the argument is on the command line."""
    out = {}
    n = 0
    used = set(k[2] for a in args for q, k in a[2] if q == 'index' and k[0] == 'lin')
    for a in args:
        at = dict(a[2])
        if not ({'short', 'long'} & set(at)) and 'index' not in at:
            n += 1
            while n in used:
                n += 1
            at['index'] = num(n)
        out[a[1]] = tuple(sorted(at.items(), key=repr))
    return out


def option(ev, st, adt, name, args, apply, then, fail, one):
    okv = 1 if adt == OPTION else 0
    v = args[0] if args else None

    def cases():
        """[(state, payload or None, error value)]"""
        out = []
        for s, w in ev.variant(st, v, adt, okv):
            if w is not None:
                out.append((s, w[3][0], None))
            elif adt == OPTION:
                out.append((s, None, NONE))
            else:
                for s2, w2 in ev.variant(s, v, adt, 1):
                    if w2 is not None:
                        out.append((s2, None, w2))
        return out
    wrap = some if adt == OPTION else ok
    res = []
    if name in ('is_some', 'is_ok', 'is_none', 'is_err'):
        yes = name in ('is_some', 'is_ok')
        return [Out(s, None, mkbool((g is not None) == yes)) for s, g, _ in cases()]
    if name in ('unwrap', 'expect'):
        for s, g, _ in cases():
            res.extend([Out(s, None, g)] if g is not None else fail(s))
        return res
    if name in ('unwrap_err', 'expect_err') and adt == RESULT:
        for s, g, e in cases():
            res.extend([Out(s, None, e[3][0])] if g is None else fail(s))
        return res
    if name in ('map', 'and_then', 'map_or', 'map_or_else', 'filter', 'is_some_and', 'is_ok_and', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default',
                'or_else', 'or', 'map_err', 'ok', 'err', 'ok_or', 'ok_or_else', 'and', 'is_none_or', 'inspect', 'inspect_err'):
        for s, g, e in cases():
            if g is not None:
                if name == 'map':
                    res.extend(then(apply(s, args[1], g), lambda s2, w: [Out(s2, None, wrap(w))]))
                elif name == 'and_then':
                    res.extend(apply(s, args[1], g))
                elif name == 'and':
                    res.append(Out(s, None, args[1]))
                elif name in ('map_or', 'map_or_else'):
                    res.extend(apply(s, args[2], g))
                elif name in ('is_some_and', 'is_ok_and', 'is_none_or'):
                    res.extend(apply(s, args[1], g))
                elif name == 'filter':
                    res.extend(then(apply(s, args[1], g),
                                    lambda s2, w: [Out(s3, None, some(g) if b else NONE) for s3, b in ev.truth(s2, w)]))
                elif name in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
                    res.append(Out(s, None, g))
                elif name in ('or', 'or_else', 'map_err', 'inspect_err'):
                    res.append(Out(s, None, wrap(g)))
                elif name == 'ok':
                    res.append(Out(s, None, some(g)))
                elif name == 'err':
                    res.append(Out(s, None, NONE))
                elif name in ('ok_or', 'ok_or_else'):
                    res.append(Out(s, None, ok(g)))
                elif name == 'inspect':
                    res.extend(then(apply(s, args[1], g), lambda s2, w: [Out(s2, None, wrap(g))]))
                continue
            if name in ('map', 'and_then', 'filter', 'and', 'inspect'):
                res.append(Out(s, None, e))
            elif name in ('is_some_and', 'is_ok_and'):
                res.append(Out(s, None, FALSE))
            elif name == 'is_none_or':
                res.append(Out(s, None, TRUE))
            elif name in ('map_or', 'unwrap_or', 'or'):
                res.append(Out(s, None, args[1]))
            elif name in ('map_or_else', 'unwrap_or_else', 'or_else'):
                res.extend(apply(s, args[1], *(() if adt == OPTION else (e[3][0],))))
            elif name == 'map_err':
                res.extend(then(apply(s, args[1], e[3][0]), lambda s2, w: [Out(s2, None, err(w))]))
            elif name == 'inspect_err':
                res.extend(then(apply(s, args[1], e[3][0]), lambda s2, w: [Out(s2, None, e)]))
            elif name == 'ok':
                res.append(Out(s, None, NONE))
            elif name == 'err':
                res.append(Out(s, None, some(e[3][0])))
            elif name == 'ok_or':
                res.append(Out(s, None, err(args[1])))
            elif name == 'ok_or_else':
                res.extend(then(apply(s, args[1]), lambda s2, w: [Out(s2, None, err(w))]))
            else:
                return None
        return res
    if name in ('iter', 'into_iter'):
        return [Out(s, None, ('it', (('e', g),) if g is not None else ())) for s, g, _ in cases()]
    if name in ('as_ref', 'as_deref', 'as_mut', 'cloned', 'copied', 'clone'):
        return one(v)
    if name == 'flatten':
        for s, g, e in cases():
            res.append(Out(s, None, g if g is not None else e))
        return res
    return None


def lists(ev, st, p, name, args, r, one, apply, then, x, fr):
    def gen(s, f):
        """A list of pieces made from every element of the first argument by
        f(state, element) -> [Out(list of pieces)]."""
        out = []
        for s1, ps in ev.pieces(s, args[0], name):
            acc = ('acc', len(ev.active), id(f))
            s2 = s1.setcell(acc, ('lst', ()))

            def body(s3, v):
                res = []
                for o in f(s3, v):
                    if o.ctl is None:
                        s4 = o.st.copy()
                        s4.cells[acc] = ('lst', s4.cells[acc][1] + tuple(o.val))
                        o = Out(s4, None, UNIT)
                    res.append(o)
                return res
            for o in ev.over(s2, ps, body):
                if o.ctl is not None:
                    out.append(o)
                    continue
                s5 = o.st.copy()
                v = s5.cells.pop(acc)
                out.append(Out(s5, None, ('it', v[1])))
        return out

    if name == 'index' and p.startswith('std::ops') and len(args) == 2 and r(1)[0] == 'lin':
        return ev.index(st, args[0], args[1], x, fr)
    if name == 'len' and args and r(0)[0] == 'u':
        return one(('lin', ((U('len', r(0)), 1),), 0))
    if name == 'get' and len(args) == 2 and r(0)[0] == 'u' and r(1) == ('lin', ((U('ix', r(0)), 1),), 0) and r(0) in ev.active:
        return one(some(U('el', r(0))))
    if name == 'next' and args and 'Iterator' in p:
        ref = args[0]
        if ref[0] != 'mref':
            raise Unsupported('next')
        if ev.probing:
            raise Probe(ref)
        v = st.cells.get(('now',) + ref[1:])
        if v == ('used',):
            raise Unsupported('an iteration that advances twice')
        if v == ('end',):
            return one(NONE)
        if v is not None:
            return one(some(v), st.setcell(('now',) + ref[1:], ('used',)))
        it = ev.read(st, ref)
        if it[0] in ('it', 'lst') and (not it[1] or it[1][0][0] == 'e'):
            if not it[1]:
                return one(NONE)
            return one(some(it[1][0][1]), ev.write(st, ref, ('it', it[1][1:])))
        raise Unsupported('next')
    if name in ('into_iter', 'iter', 'iter_mut') and args:
        v = r(0)
        if v[0] == 'walkdir' or v[0] in ('lst', 'it', 'u') or (v[0] == 'adt' and v[1] in (OPTION, RESULT, 'std::ops::Range')):
            if v[0] == 'u' and v[1] in ('opt', 'utf8', 'ext'):
                return None
            out = []
            for s, ps in ev.pieces(st, v):
                out.append(Out(s, None, ('it', ps)))
            return out
        return None
    if name in ('box_assume_init_into_vec_unsafe', 'into_vec', 'into_boxed_slice'):
        return one(r(0))
    if name == 'write_box_via_move':
        return one(r(1))
    if name == 'new_uninit':
        return one(('opq', 'box'))
    if name in ('new', 'with_capacity', 'default'):
        t = ev.ty(x['t'])
        if t['k'] == 'adt' and t['p'].endswith('::Vec'):
            return one(('lst', ()))
        if t['k'] == 'adt' and t['p'].endswith('::String'):
            return one(('str', ()))
        return None
    if not args:
        if name == 'empty' and 'iter' in p:
            return one(('it', ()))
        return None
    if name == 'once' and 'iter' in p:
        return one(('it', (('e', args[0]),)))
    if name == 'push' and r(0)[0] == 'lst':
        return one(UNIT, ev.write(st, args[0], lst(r(0)[1] + (('e', ev.flat(st, args[1])),))))
    if name in ('extend', 'append', 'extend_from_slice') and r(0)[0] == 'lst':
        out = []
        for s, ps in ev.pieces(st, args[1]):
            s = ev.write(s, args[0], lst(ev.read(s, args[0])[1] + tuple(ps)))
            if name == 'append' and args[1][0] == 'mref':
                s = ev.write(s, args[1], ('lst', ()))
            out.append(Out(s, None, UNIT))
        return out
    iterish = r(0)[0] in ('it', 'lst') or ('Iterator' in p)
    if not iterish:
        if name in ('concat',) and r(0)[0] == 'u':
            iterish = True
        else:
            return None
    if name == 'map':
        return gen(st, lambda s, v: then(apply(s, args[1], v), lambda s2, w: [Out(s2, None, (('e', ev.flat(s2, w)),))]))
    if name == 'inspect':
        return gen(st, lambda s, v: then(apply(s, args[1], v), lambda s2, w: [Out(s2, None, (('e', v),))]))
    if name == 'filter':
        return gen(st, lambda s, v: then(apply(s, args[1], v),
                                         lambda s2, w: [Out(s3, None, (('e', v),) if b else ()) for s3, b in ev.truth(s2, w)]))
    if name in ('flat_map', 'filter_map', 'flatten', 'concat'):
        def sub(s2, w):
            w = ev.read(s2, w)
            if w[0] == 'u' and (name == 'filter_map' or optional(ev, fr, x, w)):
                return [Out(s3, None, (('e', k[3][0]),) if k is not None else ()) for s3, k in ev.variant(s2, w, OPTION, 1)]
            return [Out(s3, None, tuple(q)) for s3, q in ev.pieces(s2, w)]
        if name in ('flatten', 'concat'):
            return gen(st, lambda s, v: sub(s, v))
        return gen(st, lambda s, v: then(apply(s, args[1], v), sub))
    if name in ('for_each', 'try_for_each'):
        out = []
        for s, ps in ev.pieces(st, args[0]):
            def body(s2, v):
                res = []
                for o in apply(s2, args[1], v):
                    if o.ctl is None and name == 'try_for_each':
                        for s3, w in ev.variant(o.st, o.val, RESULT, 0):
                            if w is not None:
                                res.append(Out(s3, None, UNIT))
                            else:
                                for s4, w2 in ev.variant(s3, o.val, RESULT, 1):
                                    if w2 is not None:
                                        res.append(Out(s4, ('break', 'try', w2), None))
                    else:
                        res.append(o)
                return res
            for o in ev.over(s, ps, body):
                if o.ctl is not None and o.ctl[:2] == ('break', 'try'):
                    o = Out(o.st, None, o.ctl[2])
                elif o.ctl is None and name == 'try_for_each':
                    o = Out(o.st, None, ok(UNIT))
                out.append(o)
        return out
    if name == 'fold':
        out = []
        for s, ps in ev.pieces(st, args[0]):
            c = ('fold', len(ev.active), id(x))
            s = s.setcell(c, ev.flat(s, args[1]))

            def body(s2, v):
                res = []
                for o in apply(s2, args[2], s2.cells[c], v):
                    if o.ctl is None:
                        o = Out(o.st.setcell(c, ev.flat(o.st, o.val)), None, UNIT)
                    res.append(o)
                return res
            for o in ev.over(s, ps, body):
                if o.ctl is None:
                    s3 = o.st.copy()
                    v = s3.cells.pop(c)
                    o = Out(s3, None, v)
                out.append(o)
        return out
    if name == 'chain':
        return [Out(s2, None, ('it', tuple(a) + tuple(b))) for s, a in ev.pieces(st, args[0]) for s2, b in ev.pieces(s, args[1])]
    if name == 'collect':
        t = ev.ty(x['t'])
        if t['k'] == 'adt' and t['p'].endswith('::Vec'):
            return [Out(s, None, lst(q)) for s, q in ev.pieces(st, args[0])]
        raise Unsupported('collect into something other than a list')
    if name in ('cloned', 'copied', 'by_ref', 'fuse', 'peekable', 'as_slice', 'to_vec', 'clone', 'deref', 'deref_mut', 'as_ref',
                'to_owned', 'borrow', 'into_boxed_slice', 'as_mut_slice', 'into', 'from'):
        return one(args[0] if args[0][0] == 'mref' and name in ('by_ref', 'deref_mut', 'as_mut_slice') else r(0))
    if name == 'is_empty':
        q = r(0)[1]
        if not q:
            return one(TRUE)
        if any(k[0] == 'e' for k in q):
            return one(FALSE)
        return one(U('pure', 'is_empty', ('lst', q)))
    raise Unsupported('%s on a list' % name)


def optional(ev, fr, x, w):
    return w[1] in ('opt', 'utf8', 'ext')


# ---- what the tools are to do --------------------------------------------------------
def paths(ev, key):
    """Every way the function can go: [Path]."""
    st = State()
    st.cases = {}
    out = []
    for o in ev.call_body(st, ev.prog.bodies[key], [], None):
        if o.ctl is not None and o.ctl[0] not in ('panic', 'exit'):
            raise Unsupported('control leaves main: %r' % (o.ctl,))
        if o.ctl is not None:
            out.append(Path(o.st.cases, o.st.eff, 'ok' if o.ctl == ('exit', 0) else 'fail'))
            continue
        v = ev.read(o.st, o.val)
        if v[0] == 'adt' and v[1] == RESULT or v[0] == 'u':
            for s, w in ev.variant(o.st, v, RESULT, 0):
                out.append(Path(s.cases, s.eff, 'ok' if w is not None else 'fail'))
        else:
            out.append(Path(o.st.cases, o.st.eff, 'ok'))
    return out


class Differs(Exception):
    pass


class Compare:
    def __init__(self, ev, defs):
        self.ev = ev
        self.defs = defs           # reference recursive functions: name -> [Path]
        self.assumed = set()
        self.pairs = 0

    def covered(self, got, want, d):
        """Every case the property speaks of is one the code has."""
        for b in want:
            e = join(d, b)
            if e is not None and not any(join(e, a) is not None for a in got):
                raise Differs('%s: no way to go on' % self.when(e))

    def paths(self, got, want, ctx=None):
        for a in got:
            for b in want:
                d = join(a.cases, b.cases)
                if d is not None and ctx:
                    d = join(d, ctx)
                if d is None:
                    continue
                self.pairs += 1
                if a.end != b.end:
                    raise Differs('%s: it %s' % (self.when(d), 'fails' if a.end == 'fail' else 'does not fail'))
                self.effects(a.eff, b.eff, d)
                if b.val is not None:
                    self.same(a.val, b.val, d)

    def effects(self, a, b, d):
        if b == ANY:
            return
        if len(a) != len(b):
            raise Differs('%s: it %s instead of %s' % (self.when(d), self.sayall(a), self.sayall(b)))
        for x, y in zip(a, b):
            if x[0] != y[0]:
                raise Differs('%s: it %s instead of %s' % (self.when(d), self.sayall(a), self.sayall(b)))
            if x[0] == 'print':
                self.pieces_of_text(x[1], y[1], d)
            elif x[0] == 'loop':
                self.same(x[1], y[1], d)
                self.covered([c[0] for c in x[2]], [c[0] for c in y[2]], d)
                for ca, ea, xa in x[2]:
                    for cb, eb, xb in y[2]:
                        e = join(d, ca)
                        e = join(e, cb) if e is not None else None
                        if e is None:
                            continue
                        self.pairs += 1
                        if (xa is None) != (xb is None):
                            raise Differs('%s: the loop %s' % (self.when(e), 'stops' if xa else 'goes on'))
                        self.effects(ea, eb, e)
            elif x[0] == 'leave':
                pass

    def pieces_of_text(self, a, b, d):
        a, b = mkstr_pieces(a), mkstr_pieces(b)
        if len(a) != len(b):
            raise Differs('%s: it prints %s instead of %s' % (self.when(d), self.say(('str', a)), self.say(('str', b))))
        for x, y in zip(a, b):
            self.same(x, y, d)

    def same(self, a, b, d):
        if a == b:
            return
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and a[0] == 'u' and b[0] == 'u' and a[1] == 'rec' and b[1] == 'rec':
                if len(a[3]) == len(b[3]) or True:
                    self.rec(a, b, d)
                    return
            if a and b and a[0] == 'lst' and b[0] == 'lst':
                self.lists(a[1], b[1], d)
                return
            if len(a) == len(b) and not (a and a[0] == 'u' and b[0] == 'u' and a[1] != b[1]):
                for x, y in zip(a, b):
                    self.same(x, y, d)
                return
        raise Differs('%s: %s instead of %s' % (self.when(d), self.say(a), self.say(b)))

    def lists(self, a, b, d):
        if len(a) != len(b):
            raise Differs('%s: the list is made of %s instead of %s' % (self.when(d), self.say(('lst', a)), self.say(('lst', b))))
        for x, y in zip(a, b):
            x, y = self.unall(x, y), self.unall(y, x)
            if x[0] != y[0]:
                raise Differs('%s: the list holds %s instead of %s' % (self.when(d), self.say(x), self.say(y)))
            if x[0] == 'for':
                self.same(x[1], y[1], d)
                self.covered([c[0] for c in x[2]], [c[0] for c in y[2]], d)
                for ca, pa in x[2]:
                    for cb, pb in y[2]:
                        e = join(d, ca)
                        e = join(e, cb) if e is not None else None
                        if e is None:
                            continue
                        self.pairs += 1
                        self.lists(pa, pb, e)
            else:
                self.same(x[1], y[1], d)

    def unall(self, x, y):
        if x[0] == 'all' and y[0] == 'for':
            return ('for', x[1], (((), (('e', U('el', x[1])),)),))
        return x

    def rec(self, a, b, d):
        """Two recursive functions: the same arguments and the same definition."""
        _, _, ka, va, oa = a
        _, _, kb, vb, ob = b
        ia = [i for i, v in enumerate(va) if v != ('out',)]
        ib = [i for i, v in enumerate(vb) if v != ('out',)]
        if len(ia) != len(ib):
            raise Differs('arguments of %s' % ka)
        for i, j in zip(ia, ib):
            self.same(va[i], vb[j], d)
        k = (ka, kb, oa, ob)
        if k in self.assumed:
            return
        self.assumed.add(k)
        pa, pb = self.ev.rec_def(ka), self.defs[kb]
        if pa is None:
            raise Unsupported('recursion')
        self.ev.touched_defs = True
        m = {U('param', i): U('param', n) for n, i in enumerate(ia)}
        got = [Path({subterm(t, m): c for t, c in p.cases.items()}, (), 'ok', subterm(p.val[1][oa], m)) for p in pa]
        want = [Path(p.cases, (), 'ok', p.val[1][ob]) for p in pb]
        self.covered([p.cases for p in got], [p.cases for p in want], {})
        self.paths(got, want)

    # ---- words ---------------------------------------------------------------------
    def when(self, d):
        w = []
        for t, a in sorted(d.items(), key=repr):
            w.append('%s in %s' % (self.say(t), sorted(a, key=repr)))
        return 'when ' + ' and '.join(w) if w else 'always'

    def sayall(self, e):
        if e == ANY:
            return 'does anything'
        return '; '.join(self.sayeff(x) for x in e) or 'does nothing'

    def sayeff(self, e):
        if e[0] == 'print':
            return 'prints %s' % self.say(('str', e[1]))
        if e[0] == 'loop':
            return 'for each of %s {%s}' % (self.say(e[1]), ' | '.join(self.sayall(x[1]) for x in e[2]))
        return 'leaves the loop'

    def say(self, v):
        if not isinstance(v, tuple) or not v:
            return str(v)
        if v[0] == 'u':
            if v[1] == 'f':
                return '%s.%s' % (self.say(v[2]), v[4])
            return '%s(%s)' % (v[1], ', '.join(self.say(x) for x in v[2:]))
        if v[0] == 'str':
            return ' + '.join(repr(q[1]) if q[0] == 'l' else self.say(q[1]) for q in v[1]) or "''"
        if v[0] == 'lst':
            return '[%s]' % ', '.join(self.say(q) for q in v[1])
        if v[0] == 'e':
            return self.say(v[1])
        if v[0] == 'all':
            return 'all of %s' % self.say(v[1])
        if v[0] == 'for':
            return 'for each of %s: %s' % (self.say(v[1]), ' | '.join(self.say(('lst', c[1])) for c in v[2]))
        if v[0] == 'show':
            return '%s of %s' % (v[1], self.say(v[3]))
        return '(%s)' % ' '.join(self.say(x) for x in v)


def subterm(v, m):
    if v in m:
        return m[v]
    if isinstance(v, tuple):
        return tuple(subterm(x, m) for x in v)
    return v


def variant_index(prog, adt, name):
    for p, a in prog.adts.items():
        if p.split('::')[-1] == adt and a['local']:
            for i, v in enumerate(a['variants']):
                if v['name'] == name:
                    return i
    raise Unsupported('no variant %s::%s' % (adt, name))


F = frozenset
PRETTY = (('flags', (32, 0, 128, 96)),)


def show(v, spec=PRETTY):
    return ('v', ('show', 'debug', spec, v))


def report_on(p, quiet):
    """Paths of reporting on file p, after conditions quiet: bool."""
    ok_ = {U('open', p): F([0]), U('read', p): F([1])}
    t = U('parse', U('text', p))
    good, bad = dict(ok_, **{}), dict(ok_)
    good[t], bad[t] = F([0]), F([1])
    tree = fld(fld(t, 0, 0), None, 1)
    res = [Path({U('open', p): F([1])}, ANY, 'fail'), Path({U('open', p): F([0]), U('read', p): F([0])}, ANY, 'fail')]
    if quiet:
        res.append(Path(good, (('print', (show(p, ()), ('l', ' parsed successfully\n'))),), 'ok'))
        res.append(Path(bad, (('print', (show(p, ()), ('l', ' failed to parse\n'))),), 'ok'))
    else:
        res.append(Path(good, (('print', (show(tree), ('l', '\n'))),), 'ok'))
        res.append(Path(bad, (('print', (show(fld(t, 1, 0)), ('l', '\n'))),), 'ok'))
    return res


def want_dump(prog):
    opt = U('opt', (('index', num(1)),), 2)
    flag = U('flag', (('long', 'quiet'), ('short', 'q')), 2)
    p = fld(opt, 1, 0)
    kind = U('kind', p)
    res = [Path({opt: F([0])}, (), 'ok'), Path({opt: F([1]), kind: F(['missing'])}, ANY, 'fail')]
    for q in (0, 1):
        base = {opt: F([1]), flag: F([q])}
        for r in report_on(p, q):
            d = join(dict(base, **{}), {kind: F(['file', 'symfile'])})
            d = join(d, r.cases)
            if d is not None:
                res.append(Path(d, r.eff, r.end))
        src = U('walk', p, ())
        el = U('el', src)
        entry = U('path', fld(el, 0, 0))
        ext = U('ext', entry)
        alts, leave = [], []
        alts.append((((el, F([1])),), ANY, 'x'))
        isok = (el, F([0]))
        ek = U('kind', entry)
        reg = (ek, F(['file', 'symfile']))
        alts.append(((isok, (ek, F(['dir']))), (), None))
        alts.append(((isok, reg, (ext, F([0]))), (), None))
        eq = U('eq', fld(ext, 1, 0), strlit('elm'))
        alts.append(((isok, reg, (ext, F([1])), (eq, F([0]))), (), None))
        for r in report_on(entry, q):
            c = (isok, reg, (ext, F([1])), (eq, F([1])), (U('utf8', entry), F([1]))) + tuple(r.cases.items())
            alts.append((c, r.eff, None if r.end == 'ok' else 'x'))
        d = dict(base)
        d[kind] = F(['dir', 'symdir'])
        d1, d2 = dict(d), dict(d)
        d1[U('left', src)] = F([0])
        d2[U('left', src)] = F([1])
        res.append(Path(d1, (('loop', src, tuple(alts)),), 'ok'))
        res.append(Path(d2, (('loop', src, tuple(alts)), ('leave',)), 'fail'))
    return res, {}


def want_check(prog):
    p = U('arg', 1)
    t = U('parse', U('text', p))
    tree = fld(fld(t, 0, 0), None, 1)
    # names(export set)
    sub = variant_index(prog, 'ExportSet', 'SubsetExport')
    fun = variant_index(prog, 'ExportSet', 'FunctionExport')
    n = max(len(a['variants']) for q, a in prog.adts.items() if q.split('::')[-1] == 'ExportSet' and a['local'])
    x = U('param', 0)
    items = fld(x, sub, 0)
    names = [
        Path({x: F([sub])}, (), 'ok', ('tup', (lst([('for', items, (((), (('all', U('rec', 'names', (U('el', items),), 0)),)),))]),))),
        Path({x: F([fun])}, (), 'ok', ('tup', (lst([('e', fld(x, fun, 0))]),))),
        Path({x: F(range(n)) - {sub, fun}}, (), 'ok', ('tup', (lst([]),))),
    ]
    imp = variant_index(prog, 'Statement', 'ImportStatement')
    m = max(len(a['variants']) for q, a in prog.adts.items() if q.split('::')[-1] == 'Statement' and a['local'])
    el = U('el', tree)
    exposed = fld(el, imp, 2)
    result = lst([('for', tree, (
        (((el, F([imp])), (exposed, F([1]))), (('all', U('rec', 'names', (fld(exposed, 1, 0),), 0)),)),
        (((el, F([imp])), (exposed, F([0]))), ()),
        (((el, F(range(m)) - {imp}),), ()),
    ))])
    na = U('nargs')
    got = {na: F(range(2, 10))}
    ok_ = dict(got)
    ok_.update({U('open', p): F([0]), U('read', p): F([1])})
    res = [
        Path({na: F([1])}, ANY, 'fail'),
        Path(dict(got, **{}), (), 'ok'),
    ][:1]
    res.append(Path(dict(list(got.items()) + [(U('open', p), F([1]))]), ANY, 'fail'))
    res.append(Path(dict(list(got.items()) + [(U('open', p), F([0])), (U('read', p), F([0]))]), ANY, 'fail'))
    res.append(Path(dict(list(ok_.items()) + [(t, F([0]))]), (('print', (show(result), ('l', '\n'))),), 'ok'))
    res.append(Path(dict(list(ok_.items()) + [(t, F([1]))]), (('print', (show(fld(t, 1, 0)), ('l', '\n'))),), 'ok'))
    return res, {'names': names}


def decide(prog, want, rep, what):
    ev = Tool(prog)
    try:
        got = paths(ev, '::main')
        exp, defs = want(prog)
        rep.ob('paths:' + what, len(got) >= 3, 'main of %s has only %d paths' % (what, len(got)))
        c = Compare(ev, defs)
        try:
            c.covered([p.cases for p in got], [p.cases for p in exp], {})
            rep.ob('covered:' + what, True, '')
        except Differs as x:
            rep.ob('covered:' + what, False, '%s does something else %s' % (what, x), key='tool:' + what)
        for g in got:
            try:
                c.paths([g], exp)
                rep.ob('path:%s:%s' % (what, c.when(g.cases)[:200]), True, '')
                rep.samples.append('%s: %s' % (c.when(g.cases), c.sayall(g.eff)))
            except Differs as x:
                bad = str(x)
                rep.ob('path:' + what, False, '%s does something else %s' % (what, bad), key='tool:' + what)
        rep.info['paths_of_main'] = len(got)
        rep.info['path_pairs_compared'] = c.pairs
        rep.info['functions_analysed'] = sorted(ev.visited)
    except (Unsupported, Probe) as x:
        w = getattr(x, 'where', None)
        rep.violation('tool:' + what, '%s is not analysable: %s (%s)' % (what, getattr(x, 'msg', x), w))
    except (KeyError, IndexError, TypeError) as x:
        import os
        if os.environ.get('SA_DEBUG'):
            raise
        rep.violation('tool:' + what, '%s is not analysable: %r' % (what, x))
    return ev
