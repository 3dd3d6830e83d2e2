"""Values, positions, loops and states of the abstract interpreter.

Values are tuples whose first entry names the kind:
  ('rem', P)            the input from position P to its end
  ('str', pieces)       text; pieces ('t',P,Q|None) ('l',s) ('v',value)
  ('chr', Q)            the character consumed on the edge parent(Q) -> Q
  ('chrlit', c)
  ('lin', terms, k)     integer: k + sum(coef * atom)
  ('bool', b) ('tup', fields) ('adt', path, variant, fields)
  ('seq', segs)         list; segs ('e',value) | ('s',Loop,slot,rev)
  ('iter', segs)        iterator over such a list
  ('chars', P)          iterator over the characters from P
  ('clo', key, frame) ('fn', index)
  ('sym', Call, path)   (part of) the value another parser returned
  ('fold', ...)         value accumulated over the iterations of a loop
  ('acc', L, cell)      accumulator at the head of a loop iteration
  ('mref', cell, path)  mutable reference
  ('opq', tag)          something whose value does not matter
  ('u', ...)            unknown value (tool binaries)
"""

import time

OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
NOMERR = 'nom::Err'


class Unsupported(Exception):
    """A construct the analysis does not model; the function is reported as
    not analysable (fail closed)."""

    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.where = where


class NeedInline(Exception):
    def __init__(self, call):
        Exception.__init__(self, 'inline %r' % (call,))
        self.call = call


class NeedWiden(Exception):
    def __init__(self, cell, loop, back=False):
        Exception.__init__(self, 'widen')
        self.cell = cell
        self.loop = loop
        self.back = back


class NeedText(Unsupported):
    """A loop runs over the characters of a text."""

    def __init__(self, cell):
        Unsupported.__init__(self, 'iterating over the characters of a text')
        self.cell = cell


def in_time():
    if Obj.deadline is not None and time.time() > Obj.deadline:
        raise Unsupported('the evaluation does not come to an end in time')


class Obj:
    n = 0
    deadline = None       # of the rule that is being evaluated

    def __init__(self):
        Obj.n += 1
        if Obj.n & 255 == 0:
            in_time()
        self.id = Obj.n

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class Pos(Obj):
    """A position in the input; `ev` is what was consumed since `parent`:
    ('root',) ('loopstart',L) ('lit',s) ('ch',) ('many',set,min) ('re',dfa)
    ('until',s) ('call',Call) ('star',L) ('alt',branches) ('any',n)"""

    def __init__(self, parent=None, ev=None):
        Obj.__init__(self)
        self.parent = parent
        self.ev = ev

    def __repr__(self):
        return 'p%d' % self.id


class Call(Obj):
    def __init__(self, rule, args, ty=None):
        Obj.__init__(self)
        self.rule = rule
        self.args = args
        self.ty = ty

    def __repr__(self):
        return 'c%d:%s' % (self.id, self.rule[0].split('::')[-1])


class Br:
    """What happened between two moments of an evaluation: the facts and
    positions `st` has beyond the first nf / np ones."""

    def __init__(self, end, st, nf, np):
        self.end, self.st, self.nf, self.np = end, st, nf, np

    def facts(self):
        return self.st.facts[self.nf:]

    def poss(self):
        return self.st.poss[self.np:]


class Alt:
    """One way an iteration of a loop can go."""

    def __init__(self, end, facts, poss, loopmap, refine, pushes, steps):
        self.end = end
        self.facts = facts
        self.poss = poss
        self.loopmap = loopmap
        self.refine = refine
        self.pushes = pushes     # slot -> tuple of segs
        self.steps = steps       # cell -> value

    def copy(self, **kw):
        d = dict(end=self.end, facts=self.facts, poss=self.poss, loopmap=self.loopmap,
                 refine=self.refine, pushes=self.pushes, steps=self.steps)
        d.update(kw)
        return Alt(**d)


class Loop(Obj):
    def __init__(self):
        Obj.__init__(self)
        self.alts = []
        self.start = None
        self.entry = None
        self.where = None

    def __repr__(self):
        return 'L%d' % self.id


class State:
    __slots__ = ('cells', 'facts', 'poss', 'peek', 'refine', 'loopmap', 'eff', 'cases')

    def __init__(self):
        self.cells = {}
        self.facts = ()
        self.poss = ()
        self.peek = {}
        self.refine = {}
        self.loopmap = {}
        self.eff = ()
        self.cases = {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = self.facts
        s.poss = self.poss
        s.peek = self.peek
        s.refine = self.refine
        s.loopmap = self.loopmap
        s.eff = self.eff
        s.cases = self.cases
        return s

    def fact(self, *f):
        if f in self.facts:
            return self
        s = self.copy()
        s.facts = s.facts + (f,)
        return s

    def newpos(self, parent, ev):
        s = self.copy()
        p = Pos(parent, ev)
        s.poss = s.poss + (p,)
        return s, p

    def setcell(self, c, v):
        s = self.copy()
        s.cells[c] = v
        return s

    def setrefine(self, q, v):
        s = self.copy()
        s.refine = dict(s.refine)
        s.refine[q] = v
        return s

    def setpeek(self, k, v):
        s = self.copy()
        s.peek = dict(s.peek)
        s.peek[k] = v
        return s

    def setloop(self, l, pieces):
        s = self.copy()
        s.loopmap = dict(s.loopmap)
        s.loopmap[l] = tuple(pieces)
        return s

    def effect(self, *e):
        s = self.copy()
        s.eff = s.eff + (e,)
        return s


def num(n):
    return ('lin', (), n)


def lin_add(a, b, k=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + c * k
    return ('lin', tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: repr(x[0]))), a[2] + k * b[2])


def lin_scale(a, k):
    if k == 0:
        return num(0)
    return ('lin', tuple((t, c * k) for t, c in a[1]), a[2] * k)


def atom(*a):
    return ('lin', ((a, 1),), 0)


def addr(p):
    return atom('addr', p)


END = atom('END')


def mkbool(b):
    return ('bool', bool(b))


UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)


def some(v):
    return ('adt', OPTION, 1, (v,))


NONE = ('adt', OPTION, 0, ())


def ok(v):
    return ('adt', RESULT, 0, (v,))


def err(v):
    return ('adt', RESULT, 1, (v,))


NOM_ERROR = err(('adt', NOMERR, 1, (('opq', 'nom-error'),)))


def strlit(s):
    return ('str', (('l', s),)) if s else ('str', ())


def text(p, q):
    return ('str', (('t', p, q),))


def seq(vals):
    return ('seq', tuple(('e', v) for v in vals))
