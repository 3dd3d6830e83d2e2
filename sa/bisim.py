"""Running compiled rules against each other: see lang.py for the model."""
import charset as cs
from val import *
from lang import *

TRUE_ = 'TRUE'
BASE = (cs.of('\n'), cs.of(' '))


class TooBig(Exception):
    pass


class Mismatch:
    def __init__(self, word, what, a, b):
        self.word, self.what, self.a, self.b = word, what, a, b


def lin_regs(l):
    return set(a for a, _ in l[1])


class Run:
    """resolve(rule key) -> ('cut', name) or a Rule."""

    def __init__(self, comp, resolve, first, limit=200000):
        self.comp = comp
        self.resolve = resolve
        self.first = first           # cut name -> charset of first characters
        self.limit = limit
        self.bdd = Bdd()
        self.tab = {}
        self.conts = []
        self.frames = {}
        self.framel = [None]
        self.cons = {}
        self.consl = []
        self.memo = {}
        self.smemo = {}
        self.sigmemo = {}
        self.sigtab = {}
        self.weak = set()        # cut rules a lookahead was answered with an unknown for
        self.opaqued = set()     # cut rules a lookahead could not be followed through
        self.regmemo = {}
        self.setmemo = {}
        self.mtmemo = {}
        self.busy = set()
        self.cutcalls = set()
        self.entered = 0
        self.numbers = False     # whether C was consulted

    # ---- interning -----------------------------------------------------------
    def cont(self, *t):
        i = self.tab.get(t)
        if i is None:
            i = len(self.conts)
            self.tab[t] = i
            self.conts.append(t)
        return i

    def frame(self, *t):
        i = self.frames.get(t)
        if i is None:
            i = len(self.framel)
            self.frames[t] = i
            self.framel.append(t)
        return i

    def con(self, C):
        i = self.cons.get(C.key)
        if i is None:
            i = len(self.consl)
            self.cons[C.key] = i
            self.consl.append(C)
        return i

    # ---- numbers ----------------------------------------------------------------
    def ev(self, l, env):
        out = ('lin', (), l[2])
        d = dict(env)
        for a, c in l[1]:
            if a not in d:
                raise LangError('number %r is not available' % (a[0],))
            out = lin_add(out, d[a], c)
        return out

    @staticmethod
    def restrict(env, live):
        return tuple(x for x in env if x[0] in live)

    @staticmethod
    def setenv(env, items, live):
        d = dict(env)
        d.update(items)
        return tuple(sorted(((k, v) for k, v in d.items() if k in live), key=lambda x: (x[0][0], repr(x[0]))))

    def canon(self, l, C):
        """Normal form of a number under what C knows."""
        if not l[1]:
            return l
        self.numbers = True
        out = ('lin', (), l[2])
        vs = sorted(C.vars() | {'0'} | set(a for a, _ in l[1]), key=lambda x: (x != '0', repr(x)))
        for a, c in l[1]:
            done = False
            for b in vs:
                if b == a:
                    break
                lo, hi = C.get(a, b), C.get(b, a)
                if lo is not None and hi is not None and lo == -hi:
                    out = lin_add(out, num(lo), c)
                    if b != '0':
                        out = lin_add(out, ('lin', ((b, 1),), 0), c)
                    done = True
                    break
            if not done:
                out = lin_add(out, ('lin', ((a, 1),), 0), c)
        return out

    # ---- derivatives ------------------------------------------------------------------
    # self.L is the letter being read: ('c', class), ('call', key), 'END', 'EOF'.
    # An item is a place in a graph not yet entered; reading a letter runs
    # through everything that consumes nothing, evaluates lookaheads one letter
    # further and consumes the letter.

    def item(self, node, env, up, lab, mon, look, sub=None):
        """Interned item, or TRUE_ for a lookahead with nothing left to ask."""
        while sub is None and not (node.tests or node.looks or node.eofs or (node.marks and not look)):
            k = node.kind
            if k == 'eps' or (k == 'lit' and not node.data):
                node = node.nxt
            elif k == 'true':
                return TRUE_
            elif k == 'pop':
                _, n, up2, lab2 = self.framel[up]
                if n.kind == 'star':
                    node, up, lab, sub = n, up2, lab2, 'core'
                else:
                    node, up, lab = n.nxt, up2, lab2
            elif k == 'ret' and look and up:
                node, env, up, lab = self.leave(node, env, up, look)
            else:
                break
        if sub is None or sub == 'core':
            env = self.restrict(env, node.live)
        return self.cont(node, sub, env, up, lab, mon, look)

    def leave(self, node, env, up, look):
        """Continue after the call that `node` returns from."""
        shapes, nums, t = node.data
        _, n, senv, up2, lab2 = self.framel[up]
        call = n.data[2]
        items = {}
        if not look:
            for proj, v, pi in shapes:
                items[('s', call, proj)] = self.shape(t, v, env)
        for proj, l in nums:
            items[('n', call, proj)] = self.ev(l, env)
        return n.nxt, self.setenv(senv, items, n.nxt.live), up2, lab2

    def adv(self, c):
        """[(item | TRUE_ | DONE, pending marks, (labels, demands), condition)]"""
        t = self.conts[c]
        if t[0] == 'DONE':
            return [(c, (), None, 1)] if self.L == 'END' else []
        return self.enter(*t)

    def enter(self, node, sub, env, up, lab, mon, look):
        L = self.L
        k = (node.id, sub, env, up, lab, mon, look, L, self.newreg)
        r = self.memo.get(k)
        if r is not None:
            return r
        k2 = k + (self.C,)
        r = self.memo.get(k2)
        if r is not None:
            self.numbers = True
            return r
        if k in self.busy:
            raise LangError('a loop iteration may consume nothing')
        self.busy.add(k)
        outer = self.numbers
        self.numbers = False
        try:
            r = self.enter_(node, sub, env, up, lab, mon, look)
            dep = self.numbers
        finally:
            self.busy.discard(k)
            self.numbers = self.numbers or outer
        if look and len(r) > 1:
            d = {}
            for c, p, a, b in r:
                d[c] = self.bdd.or_(d.get(c, 0), b)
            r = [(c, (), None, b) for c, b in d.items()]
        self.memo[k2 if dep else k] = r
        self.entered += 1
        if self.entered > self.limit * 100:
            raise TooBig('closures')
        return r

    def go(self, node, env, up, lab, mon, look):
        return self.enter(node, None, self.restrict(env, node.live), up, lab, mon, look)

    def var(self, k):
        return self.cont('V', k)

    def look_item(self, n, env):
        """Condition: lookahead n holds from here, one letter evaluated."""
        if self.L == 'END':
            c = self.item(n, env, 0, frozenset(), None, True)
            return 1 if c == TRUE_ else self.bdd.var(self.var(('L', c)))
        return self.or_looks(self.go(n, env, 0, frozenset(), None, True))

    def or_looks(self, res):
        out = 0
        for c, p, a, b in res:
            if c != TRUE_:
                b = self.bdd.and_(b, self.bdd.var(self.var(('L', c))))
            out = self.bdd.or_(out, b)
            if out == 1:
                break
        return out

    def shape(self, t, v, env):
        d = dict(env)

        def sym(x):
            y = d.get(('s', x[1], x[2]))
            if y is None:
                raise LangError('value of a call is not available')
            return y

        def lin(x):
            return self.canon(self.ev(self.comp.lin(t, x), env), self.consl[self.C])
        return self.comp.shape(t, v, sym, lin)

    def enter_(self, node, sub, env, up, lab, mon, look):
        bdd = self.bdd
        cond = 1
        pend = ()
        if sub is None:
            C = self.consl[self.C]
            for l, op, pol in node.tests:
                self.numbers = True
                if decide(self.canon(self.ev(l, env), C), op, C) != pol:
                    return []
            for e in node.eofs:
                v = self.letter(self.var('EOF'))
                cond = bdd.and_(cond, v if e else bdd.not_(v))
            for pol, brs in node.looks:
                if cond == 0:
                    return []
                b = 0
                for n in brs:
                    b = bdd.or_(b, self.look_item(n, env))
                    if b == 1:
                        break
                cond = bdd.and_(cond, b if pol else bdd.not_(b))
            if cond == 0:
                return []
            if not look:
                for pi, v, t in node.marks:
                    pend += ((pi, self.shape(t, v, env)),)
        res = self.body(node, sub, env, up, lab, mon, look)
        if cond == 1 and not pend:
            return res
        out = []
        for c, p, a, b in res:
            b = bdd.and_(cond, b)
            if b:
                out.append((c, pend + p, a, b))
        return out

    def letter(self, v):
        """Condition variable v after the current letter (as itself at END)."""
        if self.L == 'END':
            return self.bdd.var(v)
        return self.step_var(v)

    def step_var(self, v):
        L = self.L
        k = (v, L, self.newreg)
        r = self.smemo.get(k)
        if r is not None:
            return r
        k2 = k + (self.C,)
        r = self.smemo.get(k2)
        if r is not None:
            self.numbers = True
            return r
        outer = self.numbers
        self.numbers = False
        try:
            r = self.step_var_(v)
            self.smemo[k2 if self.numbers else k] = r
        finally:
            self.numbers = self.numbers or outer
        return r

    def step_var_(self, v):
        k = self.conts[v][1]
        L = self.L
        if k == 'EOF':
            return 1 if L == 'EOF' else 0
        if k[0] == 'O':
            return self.bdd.var(v)
        if k[0] == 'L':
            return self.or_looks(self.adv(k[1]))
        if L == 'EOF':
            return 0
        if k[0] == 'in':
            if L[0] == 'call':
                return self.overlap(L[1][0], k[1])
            return 1 if cs.inter(k[1], L[1]) else 0
        if k[0] == 'dfa':
            if L[0] == 'call':
                return 0
            d, q = k[1], k[2]
            for s, q2 in d.trans[q]:
                if cs.inter(s, L[1]):
                    return 1 if d.acc[q2] else self.bdd.var(self.var(('dfa', d, q2)))
            return 0
        raise LangError('look %r' % (k,))

    def overlap(self, name, S):
        f = self.first(name)
        if not cs.inter(f, S):
            return 0
        if not cs.diff(f, S):
            return 1
        self.weak.add(name)
        return self.bdd.var(self.var(('O', (), ('set', S))))

    def consumed(self, node, env, up, lab, mon, look, sub=None, labels=None, dem=(), pend=()):
        c = self.item(node, env, up, lab, mon, look, sub)
        return (c, pend, None if look else (labels, dem), 1)

    def body(self, node, sub, env, up, lab, mon, look):
        k = node.kind
        L = self.L
        ch = L[1] if isinstance(L, tuple) and L[0] == 'c' else None
        if k == 'eps':
            return self.go(node.nxt, env, up, lab, mon, look)
        if k == 'true':
            return [(TRUE_, (), None, 1)]
        call_letter = look and isinstance(L, tuple) and L[0] == 'call'
        if call_letter and k == 'set':
            return self.cond_true(self.sym_body(node, sub, env, up, ()) if mon is None else self.sym(node, sub, env, up, mon))
        if call_letter and ((k == 'lit' and node.data) or (k == 'any' and node.data) or k == 'until'):
            return self.cond_true(self.sym_body(node, sub, env, up, ()) if mon is None and sub is None else self.sym(node, sub, env, up, mon))
        if k == 'set':
            if ch is None or not cs.inter(node.data, ch):
                return []
            return [self.consumed(node.nxt, self.bound(node, env, ch), up, lab, self.advance_mon(mon, ch), look,
                                  labels=lab | node.labels)]
        if k == 'any':
            i = sub or 0
            if node.data == 0:
                return self.go(node.nxt, env, up, lab, mon, look)
            if ch is None:
                return []
            m2 = self.advance_mon(mon, ch)
            if i + 1 < node.data:
                return [self.consumed(node, env, up, lab, m2, look, i + 1, lab | node.labels)]
            return [self.consumed(node.nxt, env, up, lab, m2, look, labels=lab | node.labels)]
        if k == 'lit':
            i = sub or 0
            if not node.data:
                return self.go(node.nxt, env, up, lab, mon, look)
            if ch is None or not cs.has(ch, ord(node.data[i])):
                return []
            m2 = self.advance_mon(mon, ch)
            if i + 1 < len(node.data):
                return [self.consumed(node, env, up, lab, m2, look, i + 1, lab | node.labels)]
            return [self.consumed(node.nxt, self.bound(node, env, ch), up, lab, m2, look, labels=lab | node.labels)]
        if k == 'many':
            S, mn, r = node.data
            cnt = sub or 0
            out = []
            if call_letter and r != 'empty' and S:
                o = self.overlap(L[1][0], S)
                if o:
                    out.extend(self.cond_true(self.bdd.and_(o, self.sym_body(node, sub, env, up, ()) if mon is None and sub is None else
                                                            self.sym(node, sub if sub is not None else 0, env, up, mon))))
            if r != 'empty' and ch is not None and cs.inter(S, ch):
                out.append(self.consumed(node, env, up, lab, self.advance_mon(mon, ch), look,
                                         min(cnt + 1, max(mn, 1)), lab | node.labels))
            if cnt >= mn and not (cnt == 0 and r == 'nonempty'):
                c = self.bdd.not_(self.letter(self.var(('in', S)))) if S else 1
                out.extend(self.guarded(c, node, env, up, lab, mon, look))
            return out
        if k == 'dfa':
            d, r = node.data
            first = sub is None
            q = 0 if first else sub[1]
            out = []
            if call_letter and d.trans[q]:
                # the language may go on inside the call
                return self.cond_true(self.unknown((), ('sig', self.sig(node, sub, env, up, mon))))
            if ch is not None and not (first and r == 'empty'):
                for s, q2 in d.trans[q]:
                    if cs.inter(s, ch):
                        out.append(self.consumed(node, env, up, lab, self.advance_mon(mon, ch), look,
                                                 ('q', q2), lab | node.labels))
            if d.acc[q] and not (first and r == 'nonempty'):
                c = 1
                if d.trans[q]:
                    c = self.bdd.not_(self.letter(self.var(('dfa', d, q))))
                out.extend(self.guarded(c, node, env, up, lab, mon, look))
            return out
        if k == 'until':
            here = self.look_item(self.untilnode(node), ())
            out = []
            if ch is not None:
                x = self.consumed(node, env, up, lab, self.advance_mon(mon, ch), look, 0, lab | node.labels)
                nb = self.bdd.not_(here)
                if nb:
                    out.append(x[:3] + (nb,))
            out.extend(self.guarded(here, node, env, up, lab, mon, look))
            return out
        if k == 'alt' or k == 'star':
            f = self.frame('B', node, up, lab)
            out = []
            for n in node.data:
                out.extend(self.go(n, env, f, lab | node.labels, mon, look))
            if k == 'star':
                out.extend(self.go(node.nxt, env, up, lab, mon, look))
            return out
        if k == 'pop':
            _, n, up2, lab2 = self.framel[up]
            if n.kind == 'alt':
                return self.go(n.nxt, env, up2, lab2, mon, look)
            return self.enter(n, 'core', self.restrict(env, n.live), up2, lab2, mon, look)
        if k == 'call':
            return self.body_call(node, env, up, lab, mon, look)
        if k == 'ret':
            if not up:
                if L != 'END':
                    return []
                shapes, nums, t = node.data
                C = self.consl[self.C]
                sh = tuple((pi, self.shape(t, v, env)) for _, v, pi in shapes)
                nm = tuple((proj, self.canon(self.ev(n, env), C)) for proj, n in nums)
                return [(self.cont('DONE', sh, nm), (), None, 1)]
            n2, e2, up2, lab2 = self.leave(node, env, up, look)
            return self.go(n2, e2, up2, lab2, mon, look)
        if k == 'mstart':
            if mon is not None:
                raise LangError('nested language test')
            return self.go(node.nxt, env, up, lab, (node.data[0], 0), look)
        if k == 'mend':
            d, pol = node.data
            q = mon[1]
            acc = q is not None and d.acc[q]
            return [(TRUE_, (), None, 1)] if acc == pol else []
        raise LangError('node %s' % k)

    def guarded(self, c, node, env, up, lab, mon, look):
        if c == 0:
            return []
        out = []
        for x, p, a, b in self.go(node.nxt, env, up, lab, mon, look):
            b = self.bdd.and_(c, b)
            if b:
                out.append((x, p, a, b))
        return out

    def body_call(self, node, env, up, lab, mon, look):
        L = self.L
        key, args, call, demands, needs = node.data
        r = self.resolve(key)
        C = self.consl[self.C]
        if isinstance(r, tuple) and r[0] == 'cut':
            if mon is not None:
                raise LangError('text of a recursive parser is tested')
            if any(n != () for n in needs):
                raise LangError('part of the result of %s is a number' % r[1])
            if L in ('END', 'EOF'):
                return []
            ck = (r[1], tuple(self.canon(self.ev(a, env), C) for a in args))
            if L[0] == 'call':
                if L[1] == ck:
                    items = {}
                    ann = []
                    if not look:
                        for pi, path in demands:
                            items[('s', call, path)] = ('X', r[1]) + path
                            ann.append((pi, path))
                    if needs:
                        items[('n', call, ())] = ('lin', ((self.newreg, 1),), 0)
                    e2 = self.setenv(self.restrict(env, node.nxt.live), items, node.nxt.live)
                    return [self.consumed(node.nxt, e2, up, lab, mon, look, labels=lab | node.labels,
                                          dem=tuple(sorted(ann, key=repr)))]
                if look and (L[1][0] == ck[0] or cs.inter(self.first(ck[0]), self.first(L[1][0]))):
                    return self.oracle(node, env, up, lab, mon, ck)
                return []
            if look and cs.inter(self.first(ck[0]), L[1]):
                return self.oracle(node, env, up, lab, mon, ck)
            return []
        pe = {('p', i): self.ev(a, env) for i, a in enumerate(args)}
        if look:
            demands = ()
        f = self.frame('C', node, self.restrict(env, node.nxt.live), up, lab)
        out = []
        for n in self.comp.rule(r, demands, needs):
            out.extend(self.enter(n, None, self.setenv((), pe, n.live), f, lab | node.labels, mon, look))
        return out

    def oracle(self, node, env, up, lab, mon, ck):
        """A lookahead reaches a recursive parser that is not the next letter."""
        return self.cond_true(self.sym(node, None, env, up, mon))

    def cond_true(self, b):
        return [(TRUE_, (), None, b)] if b else []

    # ---- lookaheads that run ahead of the letters -------------------------------
    # sym() turns what is left of a lookahead into a condition over unknowns: an
    # unknown says that a token is found at a position, and the position is given
    # by the tokens passed on the way from here.
    def sym(self, node, sub, env, up, mon, path=()):
        bdd = self.bdd
        if mon is not None or (sub is not None and sub != 'core'):
            return self.unknown(path, ('sig', self.sig(node, sub, env, up, mon)))
        cond = 1
        if sub is None:
            for l, op, pol in node.tests:
                l = self.ev(l, env)
                if any(a[0] == 'Q' for a, _ in l[1]):
                    c = self.unknown(path, ('test', l, op))
                    cond = bdd.and_(cond, c if pol else bdd.not_(c))
                else:
                    self.numbers = True
                    C = self.consl[self.C]
                    if decide(self.canon(l, C), op, C) != pol:
                        return 0
            for e in node.eofs:
                c = self.tok(path, 'EOF')
                cond = bdd.and_(cond, c if e else bdd.not_(c))
            for pol, brs in node.looks:
                b = 0
                for n in brs:
                    if b != 1:
                        b = bdd.or_(b, self.sym(n, None, self.restrict(env, n.live), 0, None, path))
                cond = bdd.and_(cond, b if pol else bdd.not_(b))
                if cond == 0:
                    return 0
        return bdd.and_(cond, self.sym_body(node, sub, env, up, path))

    def sym_body(self, node, sub, env, up, path):
        bdd = self.bdd
        k = node.kind

        def go(n, env, up, path):
            return self.sym(n, None, self.restrict(env, n.live), up, None, path)
        if k == 'true':
            return 1
        if k == 'eps':
            return go(node.nxt, env, up, path)
        if k == 'pop':
            _, n, up2, _ = self.framel[up]
            if n.kind == 'alt':
                return go(n.nxt, env, up2, path)
            return self.unknown(path, ('sig', self.sig(n, 'core', env, up2, None)))
        if k == 'ret' and up:
            n, e, up2, _ = self.leave(node, env, up, True)
            return go(n, e, up2, path)
        if k == 'set':
            c = self.tok(path, ('set', node.data))
            return bdd.and_(c, go(node.nxt, env, up, path + ('ch',))) if c else 0
        if k == 'lit':
            c = 1
            for ch in node.data:
                c = bdd.and_(c, self.tok(path, ('set', cs.of(ch))))
                if c == 0:
                    return 0
                path = path + ('ch',)
            return bdd.and_(c, go(node.nxt, env, up, path))
        if k == 'many':
            S, mn, r = node.data
            if mn > 1:
                return self.unknown(path, ('sig', self.sig(node, sub, env, up, None)))
            first = self.tok(path, ('set', S)) if S else 0
            out = 0
            if r != 'empty' and first:
                out = bdd.and_(first, go(node.nxt, env, up, path + (('many', S),)))
            if mn == 0 and r != 'nonempty' and first != 1:
                out = bdd.or_(out, bdd.and_(bdd.not_(first), go(node.nxt, env, up, path)))
            return out
        if k == 'alt':
            f = self.frame('B', node, up, frozenset())
            out = 0
            for n in node.data:
                out = bdd.or_(out, go(n, env, f, path))
            return out
        if k == 'call':
            key, args, call, demands, needs = node.data
            r = self.resolve(key)
            if isinstance(r, tuple) and r[0] == 'cut':
                if any(n != () for n in needs):
                    raise LangError('part of the result of %s is a number' % r[1][0])
                C = self.consl[self.C]
                ck = (r[1], tuple(self.canon(self.ev(a, env), C) for a in args))
                c = self.tok(path, ck)
                if c == 0:
                    return 0
                p2 = path + (ck,)
                items = {('n', call, ()): ('lin', ((('Q', p2), 1),), 0)} if needs else {}
                return bdd.and_(c, go(node.nxt, self.setenv(self.restrict(env, node.nxt.live), items, node.nxt.live), up, p2))
            pe = {('p', i): self.ev(a, env) for i, a in enumerate(args)}
            f = self.frame('C', node, self.restrict(env, node.nxt.live), up, frozenset())
            out = 0
            if len(path) > 12:
                return self.unknown(path, ('sig', self.sig(node, sub, env, up, None)))
            for n in self.comp.rule(r, (), needs):
                out = bdd.or_(out, self.sym(n, None, self.setenv((), pe, n.live), f, None, path))
            return out
        return self.unknown(path, ('sig', self.sig(node, sub, env, up, None)))

    def unknown(self, path, atom):
        (self.opaqued if path or atom[0] == 'sig' else self.weak).update(
            x[0] for x in path if isinstance(x, tuple) and isinstance(x[0], tuple))
        if self.L[0] == 'call':
            (self.opaqued if path or atom[0] == 'sig' else self.weak).add(self.L[1][0])
        if isinstance(atom[0], tuple):
            self.weak.add(atom[0])
        return self.bdd.var(self.var(('O', path, atom)))

    def tok(self, path, atom):
        """Condition: the token is found at the position."""
        if path:
            return self.unknown(path, atom)
        L = self.L
        if L == 'EOF':
            return 1 if atom == 'EOF' else 0
        if atom == 'EOF':
            return 0
        if atom[0] == 'set':
            if L[0] == 'call':
                return self.overlap(L[1][0], atom[1])
            return 1 if cs.inter(atom[1], L[1]) else 0
        if L[0] == 'call':
            if L[1] == atom:
                return 1
            f = self.first(L[1][0])
        else:
            f = L[1]
        if not cs.inter(f, self.first(atom[0])):
            return 0
        return self.unknown(path, atom)

    def bare(self, node, env, up, mon):
        return self.item(node, env, up, frozenset(), mon, True) == TRUE_

    # ---- structure of a lookahead, independent of the names of its parts -----
    def sig(self, node, sub, env, up, mon):
        k = (node, sub, env, up, mon)
        r = self.sigmemo.get(k)
        if r is None:
            r = self.sigmemo[k] = Sig(self).run(*k)
        return r

    def bound(self, node, env, ch):
        if node.bind is not None and ch == BASE[0]:
            return self.setenv(env, {node.bind: ('lin', ((self.newreg, 1),), 0)}, node.nxt.live)
        return env

    untils = {}

    def untilnode(self, node):
        n = self.untils.get(node.data)
        if n is None:
            n = Node('lit', node.data, Node('true'))
            self.untils[node.data] = n
        return n

    def advance_mon(self, mon, m):
        if mon is None or mon[1] is None:
            return mon
        for s, t in mon[0].trans[mon[1]]:
            if cs.inter(s, m):
                return (mon[0], t)
        return (mon[0], None)

    # ---- what can be read next ---------------------------------------------------------
    def heads(self, c):
        """(charsets, recursive parsers) an item or variable distinguishes."""
        k = (c, self.C)
        r = self.setmemo.get(k)
        if r is not None:
            return r
        t = self.conts[c]
        sets, calls = set(), set()
        if t[0] == 'V':
            v = t[1]
            if v == 'EOF' or v[0] == 'O':
                pass
            elif v[0] == 'in':
                sets.add(v[1])
            elif v[0] == 'dfa':
                sets.update(s for s, _ in v[1].trans[v[2]])
            elif v[0] == 'L':
                sets, calls = self.heads(v[1])
        elif t[0] != 'DONE':
            self.walk(t, sets, calls, set())
        r = (frozenset(sets), frozenset(calls))
        self.setmemo[k] = r
        return r

    def walk(self, t, sets, calls, seen):
        node, sub, env, up, lab, mon, look = t
        k = (node, sub, env, up, mon)
        if k in seen:
            return
        seen.add(k)

        def go(n, env, up, mon, sub=None):
            self.walk((n, sub, self.restrict(env, n.live), up, frozenset(), mon, look), sets, calls, seen)
        if sub is None:
            for pol, brs in node.looks:
                for n in brs:
                    go(n, env, 0, None)
        if mon is not None and mon[1] is not None:
            sets.update(s for s, _ in mon[0].trans[mon[1]])
        k = node.kind
        if k == 'eps':
            go(node.nxt, env, up, mon)
        elif k == 'set':
            sets.add(node.data)
        elif k == 'any':
            if node.data == 0:
                go(node.nxt, env, up, mon)
        elif k == 'lit':
            if not node.data:
                go(node.nxt, env, up, mon)
            else:
                sets.add(cs.of(node.data[sub or 0]))
        elif k == 'many':
            sets.add(node.data[0])
            if (sub or 0) >= node.data[1]:
                go(node.nxt, env, up, mon)
        elif k == 'dfa':
            q = sub[1] if sub is not None else 0
            sets.update(s for s, _ in node.data[0].trans[q])
            if node.data[0].acc[q]:
                go(node.nxt, env, up, mon)
        elif k == 'until':
            sets.add(cs.of(node.data[0]))
            go(node.nxt, env, up, mon)
        elif k in ('alt', 'star'):
            f = self.frame('B', node, up, frozenset())
            for n in node.data:
                go(n, env, f, mon)
            if k == 'star':
                go(node.nxt, env, up, mon)
        elif k == 'pop':
            _, n, up2, _ = self.framel[up]
            if n.kind == 'alt':
                go(n.nxt, env, up2, mon)
            else:
                go(n, env, up2, mon, 'core')
        elif k == 'call':
            key, args, call, demands, needs = node.data
            r = self.resolve(key)
            if isinstance(r, tuple) and r[0] == 'cut':
                C = self.consl[self.C]
                sets.add(self.first(r[1]))
                calls.add((r[1], tuple(self.canon(self.ev(a, env), C) for a in args)))
                return
            pe = {('p', i): self.ev(a, env) for i, a in enumerate(args)}
            f = self.frame('C', node, self.restrict(env, node.nxt.live), up, frozenset())
            for n in self.comp.rule(r, () if look else demands, needs):
                self.walk((n, None, self.setenv((), pe, n.live), f, frozenset(), mon, look), sets, calls, seen)
        elif k == 'ret':
            if up:
                n2, e2, up2, _ = self.leave(node, env, up, look)
                go(n2, e2, up2, mon)
        elif k == 'mstart':
            go(node.nxt, env, up, (node.data[0], 0))

    def minterms(self, sets):
        k = frozenset(sets)
        r = self.mtmemo.get(k)
        if r is None:
            r = tuple(cs.minterms([s for s in k if s]))
            self.mtmemo[k] = r
        return r

    # ---- registers ------------------------------------------------------------------
    def regs(self, c):
        r = self.regmemo.get(c)
        if r is not None:
            return r
        t = self.conts[c]
        out = set()

        def env(e):
            for k, v in e:
                if isinstance(v, tuple) and v and v[0] == 'lin':
                    out.update(lin_regs(v))

        def up(f):
            while f:
                fr = self.framel[f]
                if fr[0] == 'C':
                    env(fr[2])
                    f = fr[3]
                else:
                    f = fr[2]
        if t[0] == 'V':
            k = t[1]
            if isinstance(k, tuple) and k[0] == 'L':
                out |= self.regs(k[1])
        elif t[0] == 'DONE':
            for _, l in t[2]:
                out |= lin_regs(l)
        else:
            env(t[2])
            up(t[3])
        out = frozenset(out)
        self.regmemo[c] = out
        return out

    def bdd_regs(self, b):
        out = set()
        for v in self.bdd.support(b):
            out |= self.regs(v)
        return out

    # ---- comparison -------------------------------------------------------------------
    def start(self, rule, demands, needs, nparams):
        """State of a rule about to run on registers P0.."""
        out = {}
        for n in self.comp.rule(rule, demands, needs):
            e = self.setenv((), {('p', i): ('lin', ((('P', i), 1),), 0) for i in range(nparams)}, n.live)
            out[(self.item(n, e, 0, frozenset(), None, False), ())] = 1
        return frozenset(out.items())

    def freeze(self, d):
        return frozenset((k, b) for k, b in d.items() if b)

    def forking(self, f, C):
        """Run f under C, forking where a number test is undecided:
        [(C', result)]"""
        work = [C]
        out = []
        while work:
            c = work.pop()
            self.C = self.con(c)
            try:
                out.append((c, f()))
            except Decide as d:
                fs = forks(c, d.lin, d.op)
                if len(fs) == 1 and fs[0].key == c.key:
                    raise LangError('number test does not settle')
                work.extend(fs)
        return out

    def state_regs(self, S):
        out = set()
        for (c, p), b in S:
            out |= self.regs(c)
            out |= self.bdd_regs(b)
        return out

    def compare(self, ra, rb, demands, needs, nparams):
        """None, or a Mismatch."""
        self.pairs = 0
        self.newreg = None
        self.L = None
        C0 = Cons({})
        self.C = self.con(C0)
        seen = {}
        queue = []

        def push(kind, A, B, C, fresh, parent, letter):
            if A == B:
                return
            if kind == 'main':
                keep = self.state_regs(A) | self.state_regs(B)
            else:
                keep = self.bdd_regs(A) | self.bdd_regs(B)
            if fresh is not None:
                if kind == 'post':
                    keep = keep | {fresh}
                elif fresh not in keep:
                    fresh = None
            C = C.project(keep)
            k = (kind, A, B, C.key, fresh)
            if k in seen:
                return
            seen[k] = (parent, letter)
            queue.append((k, C))
            if len(seen) > self.limit:
                raise TooBig('%d state pairs' % len(seen))

        push('main', self.start(ra, demands, needs, nparams), self.start(rb, demands, needs, nparams), C0, None, None, None)
        i = 0
        while i < len(queue):
            k, C = queue[i]
            i += 1
            self.pairs = i
            kind, A, B, _, fresh = k
            bad = self.expand(k, kind, A, B, C, fresh, push)
            if bad is not None:
                w = []
                x = k
                while x is not None:
                    p, l = seen[x]
                    if l is not None:
                        w.append(l)
                    x = p
                w.reverse()
                return Mismatch(w, bad, k, C)
        return None

    def fresh_cons(self, C, fresh, m):
        """(C', fresh') after knowing the next letter; m None: not a character."""
        if fresh is None:
            return C, None
        if m == BASE[1]:
            return C.add(fresh, '0', 1), None
        c = C.add('0', fresh, 0)
        return c, None

    def splits(self, bs):
        """The tuples of functions that bs becomes when the unknowns are fixed."""
        out = {tuple(bs)}
        while True:
            v = None
            for t in out:
                for b in t:
                    for x in self.bdd.support(b):
                        y = self.conts[x]
                        if y[0] == 'V' and isinstance(y[1], tuple) and y[1][0] == 'O':
                            v = x
                            break
                    if v is not None:
                        break
                if v is not None:
                    break
            if v is None:
                return sorted(out)
            nx = set()
            for t in out:
                for z in (0, 1):
                    nx.add(tuple(self.bdd.subst(b, lambda w: z if w == v else self.bdd.var(w)) for b in t))
            out = nx
            if len(out) > 512:
                raise LangError('too many undetermined lookaheads')

    def pick_reg(self, used):
        for i in range(100):
            if ('R', i) not in used:
                return ('R', i)

    def succ(self, S):
        """{annotation: {(item,pend): bdd}} after the current letter."""
        out = {}
        for (c, p), b in S:
            res = self.adv(c)
            if not res:
                continue
            b2 = self.bdd.subst(b, self.letter) if b != 1 else 1
            if b2 == 0:
                continue
            for c3, p3, a, b3 in res:
                b4 = self.bdd.and_(b2, b3)
                if not b4:
                    continue
                pend = p + p3
                if self.L == 'END':
                    t = self.conts[c3]
                    ann = (t[1], t[2], pend)
                    out[ann] = self.bdd.or_(out.get(ann, 0), b4)
                    continue
                labels, dem = a
                if labels or dem:
                    ann = (tuple(sorted(labels, key=repr)), dem, pend)
                    pend = ()
                else:
                    ann = None
                d = out.setdefault(ann, {})
                d[(c3, pend)] = self.bdd.or_(d.get((c3, pend), 0), b4)
        return out

    def read(self, kind, A, B, L, C, newreg):
        """[(C', [(annotation, a, b)])] after letter L."""
        self.newreg = newreg

        def f():
            self.L = L
            if kind == 'main':
                sa, sb = self.succ(A), self.succ(B)
                none = 0 if L == 'END' else {}
                return [(ann, sa.get(ann, none), sb.get(ann, none)) for ann in dict.fromkeys(list(sa) + list(sb))]
            a, b = self.bdd.subst(A, self.letter), self.bdd.subst(B, self.letter)
            return [('look', a, b)]
        r = self.forking(f, C)
        self.newreg = None
        return r

    def expand(self, k, kind, A, B, C, fresh, push):
        self.C = self.con(C)
        sets, calls = set(BASE), set()
        if kind == 'main':
            vs = set(c for (c, _), _ in A | B)
            for _, b in A | B:
                vs |= self.bdd.support(b)
            used = self.state_regs(A) | self.state_regs(B)
        else:
            vs = self.bdd.support(A) | self.bdd.support(B)
            used = self.bdd_regs(A) | self.bdd_regs(B)
        for v in vs:
            s, c = self.heads(v)
            sets |= s
            calls |= c
        if kind == 'main':
            opts = [C]
            if fresh is not None:
                opts = [x for x in (C.add(fresh, '0', 1), C.add('0', fresh, 0)) if x is not None]
            for C1 in opts:
                for C2, res in self.read(kind, A, B, 'END', C1, None):
                    for ann, a, b in res:
                        push('post', a, b, C2, fresh, k, ('END', ann))
        else:
            C1, _ = self.fresh_cons(C, fresh, None)
            if C1 is not None:
                for C2, res in self.read(kind, A, B, 'EOF', C1, None):
                    for _, a, b in res:
                        for x, y in self.splits((a, b)):
                            if x != y:
                                return 'only in the %s' % ('first' if x else 'second')
        for m in self.minterms(sets):
            C1, f1 = self.fresh_cons(C, fresh, m)
            if C1 is None:
                continue
            nr = None
            if m == BASE[0]:
                f1 = nr = self.pick_reg(used)
                C1 = C1.project(used)
            self.emit(k, kind, A, B, ('c', m), C1, f1, nr, push)
        if calls:
            opts = [C]
            if fresh is not None:
                opts = [x for x in (C.add(fresh, '0', 1), C.add('0', fresh, 0)) if x is not None]
            for C1 in opts:
                for ck in sorted(calls, key=repr):
                    self.emit(k, kind, A, B, ('call', ck), C1, None, self.pick_reg(used), push)
        return None

    def emit(self, k, kind, A, B, L, C, fresh, nr, push):
        for C2, res in self.read(kind, A, B, L, C, nr):
            for ann, a, b in res:
                if kind == 'main':
                    ka, kb = list(a), list(b)
                    for t in self.splits([a[x] for x in ka] + [b[x] for x in kb]):
                        push('main', self.freeze(dict(zip(ka, t))), self.freeze(dict(zip(kb, t[len(ka):]))),
                             C2, fresh, k, L + (ann,))
                else:
                    for x, y in self.splits((a, b)):
                        push('post', x, y, C2, fresh, k, L + (ann,))


class Sig:
    """Serialises what a lookahead still asks for."""

    def __init__(self, run):
        self.r = run
        self.ids = {}
        self.names = {}

    def run(self, node, sub, env, up, mon):
        x = (self.top(node, dict(env)), sub, self.up(up), mon)
        return self.r.sigtab.setdefault(x, len(self.r.sigtab))

    def name(self, a):
        if a[0] == 'p':
            return a
        k = (a[0], a[1]) + tuple(a[2:])
        return (a[0], self.names.setdefault(k, len(self.names)))

    def lin(self, l, env):
        out = ('lin', (), l[2])
        for a, c in l[1]:
            out = lin_add(out, env[a] if a in env else ('lin', ((('?',) + self.name(a), 1),), 0), c)
        return out

    def up(self, f):
        out = []
        while f:
            fr = self.r.framel[f]
            if fr[0] == 'C':
                out.append(('C', self.top(fr[1].nxt, dict(fr[2])), tuple(sorted(map(repr, fr[1].data[4])))))
                f = fr[3]
            else:
                out.append(('B', self.top(fr[1], {})))
                f = fr[2]
        return tuple(out)

    def top(self, n, env):
        self.ids = {}
        return self.node(n, env)

    def node(self, n, env):
        if n is None:
            return None
        if n.kind == 'eps' and not (n.tests or n.looks or n.eofs or n.bind):
            return self.node(n.nxt, env)
        i = self.ids.get(n.id)
        if i is not None:
            return ('ref', i)
        self.ids[n.id] = len(self.ids)
        k = n.kind
        bind = n.bind and self.name(n.bind)
        tests = tuple((self.lin(l, env), o, p) for l, o, p in n.tests)
        looks = tuple((p, tuple(self.node(b, env) for b in bs)) for p, bs in n.looks)
        d = n.data
        if k in ('alt', 'star'):
            d = tuple(self.node(b, env) for b in d)
        elif k == 'call':
            r = self.r.resolve(d[0])
            who = r if isinstance(r, tuple) else ('rule', id(r))
            d = (who, tuple(self.lin(a, env) for a in d[1]), self.names.setdefault(('call', d[2]), len(self.names)))
        elif k == 'dfa':
            d = (d[0], d[1])
        elif k in ('mstart', 'mend'):
            d = (d[0], d[1])
        elif k == 'ret':
            d = tuple((p, self.lin(l, env)) for p, l in d[1])
        return (k, d, bind, tests, looks, n.eofs, self.node(n.nxt, env))
