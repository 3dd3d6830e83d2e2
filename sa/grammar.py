"""Decides that the parser functions implement the reference grammar (spec.py).

Every rule of the reference grammar is compared with the function of the same
path.  Functions that exist on both sides are letters of the compared languages
as long as that settles the question; otherwise they are expanded."""
import os
import time

import charset as cs
import lang
from bisim import Run, TooBig
from lang import Compiler, LangError
from spec import Spec
from val import *

# recursion goes through these; they are never expanded
CORE = {('ast::expression::expression', ()), ('ast::type_::type_annotation', ()), ('ast::type_::type_', ())}
ROOT = ('ast::file', ())


def firsts_of(spec):
    """First characters and nullability of the reference rules."""
    firsts = {k: cs.EMPTY for k in spec.defs}
    nullable = {k: False for k in spec.defs}

    def first_of(st, chain):
        f = cs.EMPTY
        for q in chain:
            a, n = first_ev(st, q)
            f = cs.union(f, a)
            if not n:
                return f, False
        return f, True

    def first_ev(st, q):
        e = q.ev
        r = st.refine.get(q)
        if e[0] == 'lit':
            return (cs.of(e[1][0]), False) if e[1] else (cs.EMPTY, True)
        if e[0] == 'ch':
            return (r if r is not None else cs.ALL), False
        if e[0] == 'many':
            return e[1], e[2] == 0 and r != 'nonempty'
        if e[0] == 'until':
            return cs.ALL, True
        if e[0] == 'call':
            return firsts[e[1].rule], nullable[e[1].rule]
        if e[0] == 'star':
            f = cs.EMPTY
            for a in e[1].alts:
                x, _ = first_of(lang.T(a.facts, a.poss, a.refine, a.loopmap), lang.chain(e[1].start, a.end))
                f = cs.union(f, x)
            return f, True
        raise LangError('event %s in the reference grammar' % e[0])
    ch = True
    while ch:
        ch = False
        for k in spec.defs:
            r = spec.rule(k)
            f, n = cs.EMPTY, False
            for st, q, _ in r.outs:
                a, b = first_of(st, lang.chain(r.root, q))
                f = cs.union(f, a)
                n = n or b
            if f != firsts[k] or n != nullable[k]:
                firsts[k], nullable[k] = f, n
                ch = True
    return firsts, nullable


class Grammar:
    def __init__(self, parser):
        self.parser = parser
        self.ev = parser.ev
        self.prog = parser.prog
        self.spec = Spec(self.prog)
        sp = {}
        for a, v, f in (('Expression', 'Application', 0), ('Type', 'TypeApplication', 1)):
            for p, d in self.prog.adts.items():
                if p.split('::')[-1] == a and d['local']:
                    for i, x in enumerate(d['variants']):
                        if x['name'] == v:
                            sp[(p, i)] = f
        self.comp = Compiler(sp)
        self.anchors()
        self.firsts, self.nullable = firsts_of(self.spec)
        self.results = {}
        self.log = []

    # ---- names ---------------------------------------------------------------
    def anchors(self):
        """spec key -> function key and back."""
        self.impl = {}
        self.anchor = {}
        last = {}
        for k in self.parser.rules:
            last.setdefault(k[0].split('::')[-1], set()).add(k[0])
        # a rule the grammar itself does not go through stays what its function
        # says: nothing would be known about it otherwise
        reached = self.reach(ROOT)
        for sk, (n, _) in self.spec.defs.items():
            if sk not in reached:
                continue
            path = '::' + sk[0]
            cands = [k for k in self.parser.rules if k[0] == path]
            if not cands:
                l = last.get(path.split('::')[-1], ())
                if len(l) == 1:
                    cands = [k for k in self.parser.rules if k[0] in l]
            for k in cands:
                if self.argnames(k) == sk[1] and sum(1 for a in k[1] if a is None) == n:
                    if k not in self.anchor and sk not in self.impl:
                        self.impl[sk] = k
                        self.anchor[k] = sk
        for sk in self.spec.defs:
            self.anchor[sk] = sk

    def argnames(self, k):
        out = []
        for a in k[1]:
            if a is None:
                continue
            if a[0] == 'adt' and not a[3] and a[1] in self.prog.adts:
                out.append(self.prog.adts[a[1]]['variants'][a[2]]['name'])
            else:
                out.append(repr(a))
        return tuple(out)

    # ---- comparison --------------------------------------------------------------
    def reach(self, sk):
        """Reference rules used by sk, itself included."""
        seen, work = set(), [sk]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            work.extend(self.uses(k))
        return seen

    def uses(self, sk):
        r = self.spec.rule(sk)
        if not hasattr(r, 'uses'):
            out = set()
            for st, q, v in r.outs:
                self.calls_in(st.poss, st.facts, out)
            r.uses = out
        return r.uses

    def calls_in(self, poss, facts, out):
        for p in poss:
            if p.ev[0] == 'call':
                out.add(p.ev[1].rule)
            elif p.ev[0] == 'star':
                for a in p.ev[1].alts:
                    self.calls_in(a.poss, a.facts, out)
        for f in facts:
            if f[0] in ('neg', 'or'):
                for b in f[2]:
                    self.calls_in(b.poss(), b.facts(), out)

    def compare(self, sk, cut, own=frozenset(), limit=6000, budget=60.0):
        """None when the function of sk does what sk says.  cut: rules that are
        letters; own: rules whose function is expanded as it is written.  Letters
        a lookahead cannot be followed through are expanded until the question
        is settled."""
        t0 = time.time()
        cut = set(cut)
        while True:
            res, run = self.compare1(sk, cut, own, limit, t0 + budget)
            n = run.pairs if run is not None else 0
            self.log.append((sk, n, res, len(cut)))
            if res is None or run is None:
                return res
            more = (run.opaqued & cut) - CORE or (run.weak & cut) - CORE
            leaf = set(k for k in more if not self.reach(k) & CORE)
            more = leaf or more
            if os.environ.get('SA_DEBUG'):
                print('   expand', [k[0].split('::')[-1] for k in more], res)
            if not more or time.time() - t0 > budget / 2:
                return res
            cut -= more

    def compare1(self, sk, cut, own, limit, deadline=None):
        ik = self.impl.get(sk)
        if ik is None:
            return 'there is no function for it', None

        def resolve(k):
            a = self.anchor.get(k)
            if a is not None and a in cut:
                return ('cut', a)
            if a is not None and a not in own:
                return self.spec.rule(a)
            r = self.spec.rule(k) if k in self.spec.defs else self.ev.rule(k)
            if r.error:
                raise r.error
            return r
        ri, rs = self.ev.rule(ik), self.spec.rule(sk)
        if ri.error:
            return 'not analysable: %s (%s)' % (ri.error.msg, ri.error.where), None
        if ri.other:
            return 'an outcome that is neither success nor a plain error', None
        run = Run(self.comp, resolve, lambda n: self.firsts[n], limit=limit)
        run.pairs = 0
        run.bdd.deadline = deadline
        needs = ((),) if self.numeric(ri) else ()
        try:
            m = run.compare(ri, rs, (((), ()),), needs, rs.nparams)
        except (LangError, TooBig, Unsupported, KeyError, TypeError, IndexError, AttributeError, ValueError) as x:
            if os.environ.get('SA_DEBUG'):
                import traceback
                tb = traceback.extract_tb(x.__traceback__)
                return 'undecided: %s %s' % (x, [f.lineno for f in tb][-4:]), run
            return 'undecided: %s' % x, run
        if m is None:
            return None, run
        return 'behaves differently after %s: %s' % (self.word(m.word), m.what), run

    # ---- verdict -------------------------------------------------------------------
    def verdict(self, only=None, budget=400.0):
        """{reference rule: what differs} for the rules whose function does
        something else and whose difference the callers do not make up for.
        only: the rules asked about; the others are looked at only when one of
        these differs."""
        t0 = time.time()
        rules = sorted(self.reach(ROOT), key=repr)
        cut = set(k for k in rules if k in self.impl and not self.nullable[k])
        self.status = {}
        bad = {}
        for k in sorted(rules, key=lambda k: only is not None and k not in only):
            if only is not None and k not in only and not bad:
                continue
            if k not in self.impl:
                self.status[k] = 'not a function of its own: part of its callers'
                continue
            left = t0 + budget / 2 - time.time()
            r = self.compare(k, cut, budget=max(10.0, min(60.0, left)))
            self.status[k] = 'equal' if r is None else r
            if r is not None:
                bad[k] = r
        self.differing = dict(bad)
        if ROOT not in self.impl:
            bad[ROOT] = 'there is no function for it'
        if not bad:
            return {}
        # a helper may do something else if the functions using it make up for it
        apart = set(bad)
        roots = dict(bad)
        hard = set()
        if not apart & (CORE | {ROOT}) and all(self.ev.rule(self.impl[k]).error is None for k in apart):
            first = dict(bad)
            while True:
                callers = [k for k in rules if k in self.impl and k not in apart and self.uses_through(k, apart)]
                cut2 = cut - apart
                worse = {}
                for k in callers:
                    if time.time() - t0 > budget:
                        return roots
                    r = self.compare(k, cut2, frozenset(apart), budget=20.0)
                    if r is not None:
                        worse[k] = r
                        break
                if not worse:
                    for k in first:
                        self.status[k] = 'different, made up for by its callers'
                    return {}
                apart |= set(worse)
                if apart & (CORE | {ROOT}) or len(apart) > len(first) + 3:
                    break
        return roots

    def uses_through(self, k, apart):
        """Whether k uses a rule of apart, directly or through rules that are
        not functions of their own."""
        seen, work = set(), list(self.uses(k))
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            if m in apart:
                return True
            if m not in self.impl:
                work.extend(self.uses(m))
        return False

    def numeric(self, r):
        return any(v[0] == 'lin' or (v[0] == 'sym' and self.symnum(v)) for _, _, v in r.outs)

    def symnum(self, v):
        t = v[1].type if hasattr(v[1], 'type') else None
        t = self.ev.ty(t) if isinstance(t, int) else t
        return bool(t) and not v[2] and t.get('k') in ('int', 'uint')

    def word(self, w):
        out = ''
        for l in w:
            if l[0] == 'c':
                c = l[1]
                for pref in 'axAX01 \n':
                    if cs.has(c, ord(pref)):
                        out += pref
                        break
                else:
                    a = c[0][0]
                    out += chr(a) if a >= 32 else repr(chr(a))[1:-1]
            elif l[0] == 'call':
                out += '<%s>' % l[1][0][0].split('::')[-1]
        return repr(out)
