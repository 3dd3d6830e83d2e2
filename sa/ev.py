"""Abstract interpreter over THIR.

A parser function is evaluated once, on an input about which nothing is known.
Every test on the input forks; the result is the exhaustive, mutually exclusive
list of ways the function can return, each with the condition on the input
(consumed events, lookaheads, language facts) and the value it builds.  Nothing
is executed and no concrete input is ever chosen."""
import re as _re
import os
import time
import ir

import charset as cs
import rx
from val import *


class Out:
    __slots__ = ('st', 'ctl', 'val')

    def __init__(self, st, ctl, val):
        self.st, self.ctl, self.val = st, ctl, val


class Frame:
    n = 0

    def __init__(self, prog, body, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.prog = prog
        self.body = body
        self.parent = parent
        self.depth = 0

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return 'f%d' % self.id


def strip(p):
    """Path without generic arguments and impl markers."""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or p[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


FACT_FAIL = 'fact'


class Rule:
    def __init__(self, key):
        self.key = key
        self.root = None
        self.outs = None           # list of (state, value) successful outcomes
        self.errs = None
        self.other = []            # Incomplete / Failure outcomes
        self.panics = []
        self.error = None
        self.inlined = set()
        self.calls = set()
        self.busy = False


class Ev:
    MAXDEPTH = 60

    def __init__(self, prog):
        self.prog = prog
        self.mode = 'parser'
        self.hint = None           # name -> nullability for what cannot be analysed
        self.named = set()         # functions the reference grammar knows by name
        self.manual = {}           # type -> {function: body} for impls that are not derived
        for k, b in prog.bodies.items():
            m = _re.match(r'<(.*?)(?:<.*>)? as std::(?:clone::Clone|cmp::PartialEq|ops::Drop)>::(clone|eq|drop)$', b['path'])
            if m and not b['derived'] and b['kind'] != 'closure':
                self.manual.setdefault(m.group(1), {})[m.group(2)] = k
        self.slow = set()         # rules whose evaluation was given up
        self.reset()

    def reset(self):
        self.rules = {}
        self.null = {}
        self.null_assumed = set()
        self.null_busy = set()
        self.effects = []          # (fn, where, what)
        self.panic_sites = {}      # where -> [kind, feasible]
        self.regexes = []
        self.loops = []
        self.ixlists = []
        self.nonprogress = []
        self.first_calls = {}      # rule -> rules it calls possibly before consuming anything
        self.stack = []
        self.loopstack = []
        self.recs = []
        self.inline = set()
        self.cur = None
        self.steps = 0
        self.stats = {'exprs': 0, 'paths': 0}
        self.visited = set()

    # ---- types -----------------------------------------------------------
    def ty(self, i):
        return self.prog.types[i]

    def peel(self, t):
        while t['k'] == 'ref' or (t['k'] == 'adt' and t['p'] in ('std::boxed::Box',)):
            t = self.ty(t['t'] if t['k'] == 'ref' else t['a'][0])
        return t

    def is_rem_ty(self, t):
        t = self.peel(t)
        return t['k'] == 'adt' and t['p'] == 'nom::types::CompleteStr'

    def is_iresult(self, ti):
        t = self.ty(ti)
        if t['k'] != 'adt' or t['p'] != RESULT:
            return False
        e = self.ty(t['a'][1])
        return e['k'] == 'adt' and e['p'] == NOMERR

    def is_parser_body(self, b):
        if b['kind'] != 'fn' or not b['params']:
            return False
        if not self.is_rem_ty(self.ty(b['params'][0]['t'])):
            return False
        if not self.is_iresult(b['ret']):
            return False
        t = self.ty(b['ret'])
        o = self.ty(t['a'][0])
        if not (o['k'] == 'tuple' and len(o['a']) == 2 and self.is_rem_ty(self.ty(o['a'][0]))):
            return False
        if o['a'][1] is not None and self.ty(o['a'][1])['k'] == 'param':
            return False
        for p in b['params'][1:]:
            t = self.peel(self.ty(p['t']))
            if t['k'] in ('int', 'uint', 'bool', 'char'):
                continue
            if t['k'] == 'adt' and t['p'] in self.prog.adts and self.prog.adts[t['p']]['local']:
                continue
            return False
        return True

    def where(self, x, frame):
        return self.prog.line(x['s'])

    # ---- rules -----------------------------------------------------------
    def rule(self, key):
        if key in self.rules:
            return self.rules[key]
        r = Rule(key)
        self.rules[key] = r
        saved = (self.inline, self.cur, self.stack, self.loopstack)
        self.inline = set()
        self.cur = r
        self.stack = []
        self.loopstack = []
        r.busy = True
        outer, t0 = Obj.deadline, time.time()
        Obj.deadline = t0 + 90
        try:
            if key in self.slow:
                raise Unsupported('the evaluation does not come to an end in time')
            for attempt in range(30):
                try:
                    self.eval_rule(r)
                    break
                except NeedInline as n:
                    k = n.call.rule[0]
                    if k in self.inline or k == key[0]:
                        raise Unsupported('result of %s is inspected recursively' % k)
                    self.inline.add(k)
            else:
                raise Unsupported('inlining does not settle')
            r.inlined = set(self.inline)
        except Unsupported as u:
            r.error = u
        except RecursionError:
            r.error = Unsupported('evaluation too deep')
        except (TypeError, KeyError, IndexError, AttributeError, ValueError) as u:
            # a value of a shape no model expects
            if os.environ.get('SA_DEBUG'):
                raise
            tb = u.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            r.error = Unsupported('%s in %s:%d' % (type(u).__name__, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
        finally:
            r.busy = False
            Obj.deadline = outer and outer + time.time() - t0
            if r.error is not None and 'to an end in time' in str(r.error):
                self.slow.add(key)
            self.inline, self.cur, self.stack, self.loopstack = saved
        return r

    def eval_rule(self, r):
        body = self.prog.bodies[r.key[0]]
        st = State()
        root = Pos(None, ('root',))
        st.poss = (root,)
        r.root = root
        r.panics = []
        r.calls = set()
        args = [('rem', root)]
        n = 0
        for a in r.key[1]:
            if a is None:
                args.append(atom('param', n))
                n += 1
            else:
                args.append(a)
        outs = self.call_body(st, body, args, None)
        r.outs, r.errs, r.other = [], [], []
        for o in outs:
            if o.ctl is not None:
                if o.ctl[0] in ('panic', 'exit'):
                    r.panics.append(o)
                    continue
                raise Unsupported('control leaves the function: %r' % (o.ctl,))
            v = o.val
            if v[0] != 'adt' or v[1] != RESULT:
                raise Unsupported('result is not a Result: %s' % (v,))
            if v[2] == 0:
                t = v[3][0]
                if t[0] != 'tup' or t[1][0][0] != 'rem':
                    raise Unsupported('parser result shape %s' % (t,))
                r.outs.append((o.st, t[1][0][1], t[1][1]))
            elif v == NOM_ERROR:
                r.errs.append(o)
            else:
                r.other.append(o)
        for _, _, v in r.outs:
            self.pasted(v)
        return r

    def pasted(self, v):
        """Text glued together from the result of a helper and other text: what
        the helper adds is only seen when it is part of this function."""
        if not isinstance(v, tuple):
            return
        if v and v[0] == 'str' and len(v[1]) > 1:
            for p in v[1]:
                if p[0] == 'v' and p[1][0] == 'sym' and not p[1][2]:
                    k = p[1][1].rule[0]
                    if k.split('::')[-1] not in self.named and k not in self.inline and not self.rule(p[1][1].rule).error:
                        raise NeedInline(p[1][1])
        for x in v:
            self.pasted(x)

    # ---- calls -----------------------------------------------------------
    def call_body(self, st, body, args, parent):
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('call depth')
        if body['kind'] == 'fn' and self.self_calls(body) and not self.mode == 'tool':
            import prims
            if self.recs and self.recs[-1] is not None and self.recs[-1]['body'] is body:
                return prims.rec_call(self, st, args)
            r = prims.rec_list(self, st, body, args)
            if r is not None:
                return prims.rec_fold(self, st, body, args, parent, r)
            if sum(1 for s in self.stack if s is body) >= 12:
                raise Unsupported('recursive helper %s' % body['key'])
        elif body['kind'] == 'fn' and sum(1 for s in self.stack if s is body) >= 2:
            raise Unsupported('recursive helper %s' % body['key'])
        return self.call_body1(st, body, args, parent)

    def self_calls(self, body):
        """Whether a function that is no parser calls itself directly."""
        r = body.get('_self')
        if r is None:
            r = not self.is_parser_body(body) and any(
                x['k'] in ('Call', 'Zst') and x.get('fn') is not None and self.prog.fns[x['fn']]['key'] == body['key']
                for x in body['exprs'])
            body['_self'] = r
        return r

    def call_body1(self, st, body, args, parent):
        fr = Frame(self.prog, body, parent)
        self.visited.add(body['key'])
        self.stack.append(body)
        try:
            st = st.copy()
            states = [st]
            params = body['params']
            if body['kind'] == 'closure':
                params = params[1:]
            if len(params) != len(args):
                raise Unsupported('arity of %s' % body['key'])
            for p, a in zip(params, args):
                if p['pat'] is None:
                    continue
                nx = []
                for s in states:
                    for s2, m in self.match(s, p['pat'], a, fr, None):
                        if m:
                            nx.append(s2)
                states = nx
            res = []
            for s in states:
                for o in self.ev(body['root'], s, fr):
                    if o.ctl is not None and o.ctl[0] == 'ret':
                        o = Out(o.st, None, o.ctl[1])
                    if not self.has_closure(o.val):
                        s2 = o.st.copy()
                        s2.cells = {c: v for c, v in s2.cells.items() if c[0] is not fr}
                        o = Out(s2, o.ctl, o.val)
                    res.append(o)
            return res
        finally:
            self.stack.pop()

    def has_closure(self, v):
        if not isinstance(v, tuple):
            return False
        if v and v[0] in ('clo', 'mref', 'lazy'):
            return True
        return any(self.has_closure(x) for x in v)

    def call_value(self, st, f, args, x=None, fr=None):
        """Call a function value."""
        if f[0] == 'clo':
            return self.call_body(st, self.prog.bodies[f[1]], list(args), f[2])
        if f[0] == 'fn':
            return self.call_fn(st, f[1], list(args), x, fr)
        if f[0] == 'mref':
            return self.call_value(st, self.read(st, f), args, x, fr)
        if f[0] == 'py':
            return f[1](st, args)
        raise Unsupported('call of %s' % (f[0],))

    def call_fn(self, st, idx, args, x, fr):
        f = self.prog.fns[idx]
        if f['ctor'] is not None:
            return [Out(st, None, self.mk_ctor(f, args))]
        key = f['key']
        res = f['res']
        if not key and res and res.get('key') and res['key'] in self.prog.bodies and not res.get('derived'):
            key = res['key']
        if key and key in self.prog.bodies and self.prog.bodies[key]['kind'] != 'closure':
            return self.call_local(st, key, args, x, fr)
        import prims
        return prims.call(self, st, f, args, x, fr)

    def mk_ctor(self, f, args):
        c = f['ctor']
        if isinstance(c, dict):
            path, v = c['adt'], c['v']
        else:
            path, v = c, f.get('variant', 0)
        return self.mk_adt(path, v, tuple(args))

    def mk_adt(self, path, v, fields):
        if path == 'nom::types::CompleteStr':
            return fields[0]
        if path == NOMERR and v == 1:
            return ('adt', NOMERR, 1, (('opq', 'nom-error'),))
        return ('adt', path, v, tuple(fields))

    def call_local(self, st, key, args, x, fr):
        body = self.prog.bodies[key]
        if self.mode == 'parser' and self.is_parser_body(body) and key not in self.inline:
            rem = self.read(st, args[0])
            if rem[0] == 'rem':
                spec = []
                nums = []
                okk = True
                for p, a in zip(body['params'][1:], args[1:]):
                    a = self.read(st, a)
                    t = self.peel(self.ty(p['t']))
                    if t['k'] in ('int', 'uint'):
                        n = self.numv(a)
                        if n is None or any(c[0][0] == 'acc' for c, _ in n[1]):
                            okk = False
                            break
                        spec.append(None)
                        nums.append(n)
                    elif self.concrete(a):
                        spec.append(a)
                    else:
                        okk = False
                        break
                if okk:
                    return self.call_rule(st, (key, tuple(spec)), tuple(nums), rem[1], body)
        if self.mode == 'tool' and self.is_parser_body(body):
            import tool
            return tool.call_parser(self, st, key, args, x)
        return self.call_body(st, body, args, None)

    def concrete(self, v):
        if v[0] == 'adt':
            return all(self.concrete(f) for f in v[3])
        if v[0] == 'tup':
            return all(self.concrete(f) for f in v[1])
        if v[0] == 'lin':
            return not v[1]
        if v[0] == 'str':
            return all(p[0] == 'l' for p in v[1])
        return v[0] in ('bool', 'chrlit')

    def call_rule(self, st, key, nums, p, body):
        if self.cur is not None:
            self.cur.calls.add(key)
            if self.leading(st, p):
                self.first_calls.setdefault(self.cur.key, set()).add(key)
        pk = ('call', p, key, nums)
        t = self.ty(body['ret'])
        oty = self.ty(t['a'][0])['a'][1]
        c = Call(key, nums, self.ty(oty))
        s1, q = st.newpos(p, ('call', c))
        v = ok(('tup', (('rem', q), ('sym', c, ()))))
        s2 = st.copy()
        br = Br(q, s1, len(st.facts), len(st.poss))
        s2 = s2.fact('neg', p, (br,))
        return [Out(s1, None, v), Out(s2, None, NOM_ERROR)]

    def leading(self, st, p):
        """Whether nothing may have been consumed before p in this function."""
        while True:
            if p.ev[0] == 'loopstart':
                if p.ev[1].entry is None:
                    return True
                st, p = p.ev[1].entry
                continue
            if p.parent is None:
                return True
            if self.evlen(st, p)[0] > 0:
                return False
            p = p.parent

    # ---- numbers ---------------------------------------------------------
    def numv(self, v):
        if v[0] == 'lin':
            return v
        if v[0] == 'sym':
            t = self.symty(v)
            if t is not None and t['k'] in ('int', 'uint'):
                return ('lin', ((('num', v[1], v[2]), 1),), 0)
            raise NeedInline(v[1])
        if v[0] == 'acc':
            return ('lin', ((v, 1),), 0)
        if v[0] == 'bool':
            return num(1 if v[1] else 0)
        if v[0] == 'chrlit':
            return num(ord(v[1]))
        if v[0] in ('num',):
            return ('lin', ((v, 1),), 0)
        return None

    def symty(self, v):
        t = v[1].ty
        for i in v[2]:
            t = self.peel(t)
            if t['k'] == 'tuple':
                t = self.ty(t['a'][i])
            else:
                return None
        return self.peel(t) if t is not None else None

    # ---- references ------------------------------------------------------
    def read(self, st, v):
        n = 0
        while v[0] == 'mref':
            c = st.cells.get(v[1])
            if c is None:
                raise Unsupported('dangling reference')
            v = self.project(st, c, v[2])
            n += 1
            if n > 50:
                raise Unsupported('reference cycle')
        return v

    def project(self, st, v, path):
        for i in path:
            v = self.read(st, v)
            v = self.field(st, v, i)
        return v

    def field(self, st, v, i):
        v = self.read(st, v)
        if v[0] == 'tup':
            return v[1][i]
        if v[0] == 'adt':
            return v[3][i]
        if v[0] in ('rem', 'str') and i == 0:
            return v
        if v[0] == 'sym':
            t = self.symty(v)
            if t is not None and t['k'] == 'tuple':
                return ('sym', v[1], v[2] + (i,))
            if t is not None and t['k'] == 'adt' and t['p'] in self.prog.adts and len(self.prog.adts[t['p']]['variants']) == 1:
                return ('sym', v[1], v[2] + (i,))
            raise NeedInline(v[1])
        if v[0] == 'u':
            return ('u', 'field', i, v)
        if v[0] == 'opq':
            return v
        raise Unsupported('field of %s' % (v[0],))

    def update(self, st, v, path, new):
        if not path:
            return new
        i = path[0]
        if v[0] == 'tup':
            fs = list(v[1])
            fs[i] = self.update(st, fs[i], path[1:], new)
            return ('tup', tuple(fs))
        if v[0] == 'adt':
            fs = list(v[3])
            fs[i] = self.update(st, fs[i], path[1:], new)
            return ('adt', v[1], v[2], tuple(fs))
        raise Unsupported('update inside %s' % (v[0],))

    def write(self, st, ref, new):
        if ref[0] != 'mref':
            raise Unsupported('write through %s' % (ref[0],))
        cell, path = ref[1], ref[2]
        # follow chains of references
        cur = st.cells.get(cell)
        if cur is None:
            raise Unsupported('write to unknown place')
        done = ()
        for k, i in enumerate(path):
            if cur[0] == 'mref':
                return self.write(st, ('mref', cur[1], cur[2] + path[k:]), new)
            cur = self.field(st, cur, i)
        if cur[0] == 'mref':
            return self.write(st, cur, new)
        return st.setcell(cell, self.update(st, st.cells[cell], path, new))

    def lookup(self, fr, var, st):
        f = fr
        while f is not None:
            if (f, var) in st.cells:
                return (f, var)
            f = f.parent
        raise Unsupported('unbound variable %s' % var)

    def place(self, i, st, fr):
        """Evaluate a place expression to [Out(ref)] or None if it is a temporary."""
        x = fr.body['exprs'][i]
        k = x['k']
        if k in ('Scope', 'Use'):
            return self.place(x['e'], st, fr)
        if k in ('Var', 'Upvar'):
            try:
                c = self.lookup(fr, x['var'], st)
            except Unsupported:
                c = (fr, x['var'])
            return [Out(st, None, ('mref', c, ()))]
        if k == 'Field':
            p = self.place(x['e'], st, fr)
            if p is None:
                return None
            res = []
            for o in p:
                if o.ctl is not None:
                    res.append(o)
                    continue
                v = o.val
                base = self.read(o.st, v)
                if base[0] in ('rem', 'str') and x['f'] == 0:
                    res.append(o)
                else:
                    res.append(Out(o.st, None, ('mref', v[1], v[2] + (x['f'],))))
            return res
        if k == 'Deref':
            p = self.place(x['e'], st, fr)
            if p is None:
                outs = self.ev(x['e'], st, fr)
                if all(o.ctl is not None or o.val[0] == 'mref' for o in outs):
                    return outs
                return None
            res = []
            for o in p:
                if o.ctl is None:
                    c = o.st.cells.get(o.val[1])
                    if c is not None:
                        c2 = self.project(o.st, c, o.val[2])
                        raw = c
                        for i2 in o.val[2]:
                            raw = self.field(o.st, raw, i2)
                        if raw[0] == 'mref':
                            res.append(Out(o.st, None, raw))
                            continue
                res.append(o)
            return res
        return None

    # ---- expressions -----------------------------------------------------
    def ev(self, i, st, fr):
        if callable(i):
            return i(st, fr)
        x = fr.body['exprs'][i]
        k = x['k']
        self.steps += 1
        if self.steps & 255 == 0:
            in_time()
        try:
            if k == 'Scope' or k in ('Use', 'Never', 'Coerce'):
                if k == 'Scope':
                    return self.ev_scope(x, st, fr)
                return self.ev(x['e'], st, fr)
            f = getattr(self, 'x_' + k, None)
            if f is None:
                raise Unsupported('expression kind ' + k)
            if k in ('Match', 'If', 'Call', 'Block') and self.is_iresult(x['t']):
                mark = Obj.n
                outs = f(x, st, fr)
                return self.merge(st, mark, outs)
            return f(x, st, fr)
        except Unsupported as u:
            if u.where is None:
                u.where = self.where(x, fr)
            raise

    def ev_scope(self, x, st, fr):
        e = fr.body['exprs'][x['e']]
        while e['k'] in ('Never', 'Coerce', 'Use') and fr.body['exprs'][e['e']]['k'] == 'Loop':
            e = fr.body['exprs'][e['e']]
        if e['k'] == 'Loop':
            outs = self.ev_loop(e, st, fr, x['scope'])
        else:
            outs = self.ev(x['e'], st, fr)
        res = []
        for o in outs:
            if o.ctl is not None and o.ctl[0] == 'break' and o.ctl[1] == (fr, x['scope']):
                o = Out(o.st, None, o.ctl[2])
            res.append(o)
        return res

    def seqev(self, es, st, fr, f):
        """Evaluate expressions left to right and continue with f(st, vals)."""
        acc = [(st, [])]
        res = []
        for e in es:
            nx = []
            for s, vs in acc:
                for o in self.ev(e, s, fr):
                    if o.ctl is not None:
                        res.append(o)
                    else:
                        nx.append((o.st, vs + [o.val]))
            acc = nx
        for s, vs in acc:
            res.extend(f(s, vs))
        return res

    def x_Block(self, x, st, fr):
        return self.ev_block(x['b'], st, fr)

    def ev_block(self, bi, st, fr):
        b = fr.body['blocks'][bi]
        states = [st]
        res = []
        for si in b['stmts']:
            s = fr.body['stmts'][si]
            nx = []
            for cur in states:
                if s['k'] == 'expr':
                    for o in self.ev(s['e'], cur, fr):
                        if o.ctl is None:
                            nx.append(o.st)
                        else:
                            res.append(o)
                else:
                    if s['init'] is None:
                        nx.append(self.declare(cur, s['pat'], fr))
                        continue
                    for o in self.ev(s['init'], cur, fr):
                        if o.ctl is not None:
                            res.append(o)
                            continue
                        for s2, m in self.match(o.st, s['pat'], o.val, fr, None):
                            if m:
                                nx.append(s2)
                            elif s.get('els') is not None:
                                res.extend(self.ev_block(s['els'], s2, fr))
            states = nx
        for cur in states:
            if b['expr'] is not None:
                res.extend(self.ev(b['expr'], cur, fr))
            else:
                res.append(Out(cur, None, UNIT))
        if b.get('tb'):
            pass
        return res

    def declare(self, st, pat, fr):
        st = st.copy()

        def go(p):
            if p['k'] == 'bind':
                st.cells[(fr, p['var'])] = ('opq', 'uninit')
                if p['sub']:
                    go(p['sub'])
            elif p['k'] in ('leaf', 'variant'):
                for _, q in p['subs']:
                    go(q)
            elif p['k'] == 'deref':
                go(p['sub'])
        go(pat)
        return st

    def x_Lit(self, x, st, fr):
        if 'str' in x:
            v = strlit(x['str'])
        elif 'char' in x:
            v = ('chrlit', x['char'])
        elif 'int' in x:
            n = int(x['int'])
            v = num(-n if x['neg'] else n)
        elif 'bool' in x:
            v = mkbool(x['bool'])
        elif 'bytes' in x:
            b = x['bytes']
            v = seq([num(c) for c in b]) if isinstance(b, list) else ('opq', 'bytes')
        else:
            v = ('opq', 'lit')
        return [Out(st, None, v)]

    def x_Bits(self, x, st, fr):
        return [Out(st, None, self.bits(x['t'], x.get('bits')))]

    def bits(self, ti, b):
        t = self.peel(self.ty(ti))
        if b is None:
            return ('opq', 'const')
        n = int(b)
        if t['k'] == 'bool':
            return mkbool(n)
        if t['k'] == 'char':
            return ('chrlit', chr(n))
        if t['k'] in ('int', 'uint'):
            if t['k'] == 'int':
                w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(t['n'], 64)
                if n >= 1 << (w - 1):
                    n -= 1 << w
            return num(n)
        return ('opq', 'const')

    def x_NamedConst(self, x, st, fr):
        if x.get('bits') is not None:
            return [Out(st, None, self.bits(x['t'], x['bits']))]
        key = x.get('key')
        if key and key in self.prog.bodies:
            return self.call_body(st, self.prog.bodies[key], [], None)
        return [Out(st, None, ('u', 'const', x.get('p')))]

    def x_Static(self, x, st, fr):
        key = x.get('key')
        if key and key in self.prog.bodies:
            b = self.prog.bodies[key]
            return self.call_body(st, b, [], None)
        raise Unsupported('static')

    def x_Zst(self, x, st, fr):
        if x['fn'] is None:
            return [Out(st, None, ('opq', 'zst'))]
        f = self.prog.fns[x['fn']]
        return [Out(st, None, ('fn', x['fn']))]

    def x_Closure(self, x, st, fr):
        return [Out(st, None, ('clo', x['key'], fr))]

    def x_Var(self, x, st, fr):
        c = self.lookup(fr, x['var'], st)
        return [Out(st, None, st.cells[c])]

    x_Upvar = x_Var

    def x_Borrow(self, x, st, fr):
        if x['mut']:
            p = self.place(x['e'], st, fr)
            if p is not None:
                return p
            # temporary: give it a cell
            res = []
            for o in self.ev(x['e'], st, fr):
                if o.ctl is not None:
                    res.append(o)
                elif o.val[0] == 'mref':
                    res.append(o)
                else:
                    c = (fr, 'tmp%d' % Obj().id)
                    res.append(Out(o.st.setcell(c, o.val), None, ('mref', c, ())))
            return res
        return self.ev(x['e'], st, fr)

    def x_Deref(self, x, st, fr):
        res = []
        for o in self.ev(x['e'], st, fr):
            if o.ctl is None and o.val[0] == 'mref':
                o = Out(o.st, None, self.read(o.st, o.val))
            res.append(o)
        return res

    def x_Field(self, x, st, fr):
        def f(s, vs):
            return [Out(s, None, self.field(s, vs[0], x['f']))]
        return self.seqev([x['e']], st, fr, f)

    def x_Index(self, x, st, fr):
        import prims

        def f(s, vs):
            return prims.index(self, s, vs[0], vs[1], x, fr)
        return self.seqev([x['e'], x['i']], st, fr, f)

    def x_Tuple(self, x, st, fr):
        return self.seqev(x['a'], st, fr, lambda s, vs: [Out(s, None, ('tup', tuple(vs)))])

    def x_Array(self, x, st, fr):
        return self.seqev(x['a'], st, fr, lambda s, vs: [Out(s, None, seq(vs))])

    def x_Adt(self, x, st, fr):
        es = [e for _, e in x['fs']]
        if x.get('base') is not None:
            es = es + [x['base']]

        def f(s, vs):
            n = len(self.prog.adts[x['adt']]['variants'][x['v']]['fields']) if x['adt'] in self.prog.adts else len(es)
            fields = [None] * n
            for (i, _), v in zip(x['fs'], vs):
                fields[i] = v
            if x.get('base') is not None:
                for i in range(n):
                    if fields[i] is None:
                        fields[i] = self.field(s, vs[-1], i)
            return [Out(s, None, self.mk_adt(x['adt'], x['v'], fields))]
        return self.seqev(es, st, fr, f)

    def x_Return(self, x, st, fr):
        if x['e'] is None:
            return [Out(st, ('ret', UNIT), None)]
        return self.seqev([x['e']], st, fr, lambda s, vs: [Out(s, ('ret', vs[0]), None)])

    def x_Break(self, x, st, fr):
        lab = (fr, x['scope'])
        if x['e'] is None:
            return [Out(st, ('break', lab, UNIT), None)]
        return self.seqev([x['e']], st, fr, lambda s, vs: [Out(s, ('break', lab, vs[0]), None)])

    def x_Continue(self, x, st, fr):
        return [Out(st, ('cont', (fr, x['scope'])), None)]

    def x_Assign(self, x, st, fr):
        def f(s, vs):
            p = self.place(x['l'], s, fr)
            if p is None:
                raise Unsupported('assignment target')
            return [Out(self.assign(o.st, o.val, vs[0]), None, UNIT) if o.ctl is None else o for o in p]
        return self.seqev([x['r']], st, fr, f)

    def assign(self, s, ref, v):
        if not ref[2] and ref[1] in s.cells and s.cells[ref[1]][0] == 'mref' and v[0] == 'mref':
            return s.setcell(ref[1], v)
        if ref[1] not in s.cells:
            return s.setcell(ref[1], v)
        if not ref[2]:
            return s.setcell(ref[1], v)
        return self.write(s, ref, v)

    def x_AssignOp(self, x, st, fr):
        def f(s, vs):
            p = self.place(x['l'], s, fr)
            if p is None:
                raise Unsupported('assignment target')
            res = []
            for o in p:
                if o.ctl is not None:
                    res.append(o)
                    continue
                cur = self.read(o.st, o.val)
                for o2 in self.binop(o.st, x['op'], cur, self.read(o.st, vs[0]), x, fr):
                    if o2.ctl is not None:
                        res.append(o2)
                    else:
                        res.append(Out(self.write(o2.st, o.val, o2.val), None, UNIT))
            return res
        return self.seqev([x['r']], st, fr, f)

    def x_If(self, x, st, fr):
        res = []
        for o in self.cond(x['c'], st, fr):
            if o.ctl is not None:
                res.append(o)
            elif o.val == TRUE:
                res.extend(self.ev(x['th'], o.st, fr))
            elif x['el'] is not None:
                res.extend(self.ev(x['el'], o.st, fr))
            else:
                res.append(Out(o.st, None, UNIT))
        return res

    def cond(self, i, st, fr):
        """Evaluate to concrete booleans, forking where needed."""
        res = []
        for o in self.ev(i, st, fr):
            if o.ctl is not None:
                res.append(o)
                continue
            for s, b in self.truth(o.st, o.val):
                res.append(Out(s, None, mkbool(b)))
        return res

    def truth(self, st, v):
        v = self.read(st, v)
        if v[0] == 'bool':
            return [(st, v[1])]
        if v[0] == 'sym':
            raise NeedInline(v[1])
        if v[0] == 'u':
            import tool
            return tool.truth(self, st, v)
        if v[0] == 'acc':
            raise Unsupported('test on a loop accumulator')
        raise Unsupported('condition %s' % (v[0],))

    def x_Let(self, x, st, fr):
        res = []
        pl = self.scrut(x['e'], st, fr)
        for o in pl:
            if o.ctl is not None:
                res.append(o)
                continue
            val, ref = o.val
            for s, m in self.match(o.st, x['pat'], val, fr, ref):
                res.append(Out(s, None, mkbool(m)))
        return res

    def scrut(self, i, st, fr):
        """Scrutinee value together with its place, when it has one."""
        p = self.place(i, st, fr)
        if p is not None:
            return [o if o.ctl is not None else Out(o.st, None, (self.read(o.st, o.val), o.val)) for o in p]
        return [o if o.ctl is not None else Out(o.st, None, (o.val, o.val if o.val[0] == 'mref' else None))
                for o in self.ev(i, st, fr)]

    def x_Match(self, x, st, fr):
        res = []
        for o in self.scrut(x['e'], st, fr):
            if o.ctl is not None:
                res.append(o)
                continue
            val, ref = o.val
            states = [o.st]
            for ai in x['arms']:
                arm = fr.body['arms'][ai]
                nx = []
                for s in states:
                    for s2, m in self.match(s, arm['pat'], val, fr, ref):
                        if not m:
                            nx.append(s2)
                        elif arm['guard'] is None:
                            res.extend(self.ev(arm['body'], s2, fr))
                        else:
                            for g in self.cond(arm['guard'], s2, fr):
                                if g.ctl is not None:
                                    res.append(g)
                                elif g.val == TRUE:
                                    res.extend(self.ev(arm['body'], g.st, fr))
                                else:
                                    nx.append(g.st)
                states = nx
                if not states:
                    break
        return res

    def x_Logic(self, x, st, fr):
        res = []
        isor = x['op'] in ('or', 'Or', '||')
        outs = []
        for o in self.ev(x['l'], st, fr):
            if o.ctl is None and o.val[0] == 'acc':
                # decided by the right side where that has no effects
                for r in self.ev(x['r'], o.st, fr):
                    for s, b in self.truth(r.st, r.val) if r.ctl is None and r.val != o.val else [(r.st, None)]:
                        if r.ctl is not None or s.cells != o.st.cells:
                            raise Unsupported('test on a loop accumulator')
                        res.append(Out(s, None, mkbool(b) if b == isor else o.val))
            elif o.ctl is None:
                outs.extend(Out(s, None, mkbool(b)) for s, b in self.truth(o.st, o.val))
            else:
                outs.append(o)
        for o in outs:
            if o.ctl is not None:
                res.append(o)
            elif (o.val == TRUE) == (x['op'] in ('or', 'Or', '||')):
                res.append(o)
            else:
                for r in self.ev(x['r'], o.st, fr):
                    if r.ctl is None and r.val[0] != 'acc':
                        res.extend(Out(s, None, mkbool(b)) for s, b in self.truth(r.st, r.val))
                    else:
                        res.append(r)
        return res

    def x_Un(self, x, st, fr):
        res = []
        for o in self.ev(x['e'], st, fr):
            if o.ctl is not None:
                res.append(o)
                continue
            v = self.read(o.st, o.val)
            if x['op'] in ('not', 'Not', '!'):
                if v[0] in ('bool', 'u', 'sym'):
                    for s, b in self.truth(o.st, v):
                        res.append(Out(s, None, mkbool(not b)))
                else:
                    raise Unsupported('! on %s' % (v[0],))
            else:
                n = self.numv(v)
                if n is None:
                    raise Unsupported('negation')
                res.append(Out(o.st, None, lin_scale(n, -1)))
        return res

    def x_Bin(self, x, st, fr):
        return self.seqev([x['l'], x['r']], st, fr,
                          lambda s, vs: self.binop(s, x['op'], self.read(s, vs[0]), self.read(s, vs[1]), x, fr))

    def binop(self, st, op, a, b, x, fr):
        import prims
        return prims.binop(self, st, op, a, b, x, fr)

    def x_Cast(self, x, st, fr):
        res = []
        for o in self.ev(x['e'], st, fr):
            if o.ctl is None:
                t = self.ty(x['t'])
                v = self.read(o.st, o.val)
                if t['k'] in ('int', 'uint') and v[0] in ('chrlit', 'bool'):
                    v = self.numv(v)
                elif t['k'] == 'char' and v[0] == 'lin' and not v[1]:
                    v = ('chrlit', chr(v[2]))
                elif t['k'] == 'char' and v[0] in ('lin', 'num'):
                    v = ('cast', 'char', v)
                elif t['k'] in ('int', 'uint') and v[0] == 'chr':
                    v = ('num', ('ord', v))
                src = self.ty(fr.body['exprs'][x['e']]['t'])
                if t['k'] in ('int', 'uint') and src['k'] in ('int', 'uint') and v[0] != 'u':
                    import prims
                    res.extend(Out(s, None, w) for s, w in prims.int_cast(self, o.st, v, src, t))
                    continue
                if t['k'] in ('int', 'uint') and src['k'] == 'char' and v[0] != 'u' and t['n'] in ('u8', 'i8', 'u16', 'i16'):
                    raise Unsupported('a conversion to %s that can lose the value' % t['n'])
                o = Out(o.st, None, v)
            res.append(o)
        return res

    def x_ConstBlock(self, x, st, fr):
        raise Unsupported('const block')

    def x_Call(self, x, st, fr):
        def f(s, vs):
            args = vs
            if x['fn'] is not None:
                self.stats['paths'] += 1
                return self.call_fn(s, x['fn'], args, x, fr)
            return self.call_value(s, args[0], args[1:], x, fr)
        if x['fn'] is not None:
            return self.seqev(x['args'], st, fr, f)
        return self.seqev([x['fun']] + x['args'], st, fr, f)

    def panic(self, st, kind, x, fr):
        w = self.where(x, fr) if x is not None else '?'
        self.panic_sites.setdefault((w, kind), set()).add(self.cur.key[0] if self.cur else '?')
        return Out(st, ('panic', kind, w), None)

    def site(self, kind, x, fr):
        """Record an obligation: an operation that could panic was evaluated."""
        w = self.where(x, fr) if x is not None else '?'
        self.panic_sites.setdefault((w, kind), set())

    # ---- patterns --------------------------------------------------------
    def match(self, st, pat, val, fr, ref):
        """[(state, matched)]"""
        k = pat['k']
        if k == 'wild':
            return [(st, True)]
        if k == 'never':
            return [(st, False)]
        if k == 'bind':
            v = val
            if pat.get('byref') == 'mut' or (pat.get('byref') and pat.get('mutref')):
                if ref is not None:
                    v = ref
            if pat['sub']:
                res = []
                for s, m in self.match(st, pat['sub'], val, fr, ref):
                    res.append((s.setcell((fr, pat['var']), v) if m else s, m))
                return res
            return [(st.setcell((fr, pat['var']), v), True)]
        if k == 'deref':
            if val[0] == 'mref':
                return self.match(st, pat['sub'], self.read(st, val), fr, val)
            return self.match(st, pat['sub'], val, fr, ref)
        v = self.read(st, val)
        if val[0] == 'mref':
            ref = val
        if k == 'or':
            res = []
            states = [st]
            for q in pat['pats']:
                nx = []
                for s in states:
                    for s2, m in self.match(s, q, val, fr, ref):
                        if m:
                            res.append((s2, True))
                        else:
                            nx.append(s2)
                states = nx
            return res + [(s, False) for s in states]
        if k == 'leaf' or (k == 'variant' and v[0] in ('adt',)):
            if k == 'variant':
                if v[2] != pat['v']:
                    return [(st, False)]
            return self.match_subs(st, pat['subs'], v, fr, ref)
        if k == 'variant':
            if v[0] == 'sym':
                raise NeedInline(v[1])
            if v[0] == 'u':
                import tool
                return tool.match_variant(self, st, pat, v, fr, ref)
            if v[0] == 'fold':
                raise Unsupported('pattern on a loop result')
            if v[0] == 'opq':
                # error payloads and the like: both ways
                res = [(st, False)]
                s = st
                states = [s]
                for i, q in pat['subs']:
                    nx = []
                    for s in states:
                        for s2, m in self.match(s, q, ('opq', 'sub'), fr, None):
                            if m:
                                nx.append(s2)
                    states = nx
                return res + [(s, True) for s in states]
            raise Unsupported('variant pattern on %s' % (v[0],))
        if k == 'const':
            return self.match_const(st, pat, v)
        if k == 'range':
            return self.match_range(st, pat, v)
        if k == 'slice':
            import prims
            return prims.match_slice(self, st, pat, v, fr)
        raise Unsupported('pattern ' + k)

    def match_subs(self, st, subs, v, fr, ref):
        states = [st]
        res = []
        for i, q in subs:
            nx = []
            for s in states:
                if q['k'] == 'wild':
                    nx.append(s)
                    continue
                sub = self.field(s, v, i)
                r = ('mref', ref[1], ref[2] + (i,)) if ref is not None and v[0] in ('tup', 'adt') else None
                for s2, m in self.match(s, q, sub, fr, r):
                    if m:
                        nx.append(s2)
                    else:
                        res.append((s2, False))
            states = nx
        return [(s, True) for s in states] + res

    def const_value(self, pat_val):
        c = pat_val
        if 'str' in c:
            return strlit(c['str'])
        return self.bits(c['t'], c.get('bits'))

    def match_const(self, st, pat, v):
        import prims
        c = self.const_value(pat['value'])
        return prims.equal(self, st, v, c)

    def match_range(self, st, pat, v):
        import prims

        def lim(b):
            if b is None:
                return None
            return self.const_value(b)
        return prims.in_range(self, st, v, lim(pat['lo']), lim(pat['hi']), pat.get('incl', True))

    # ---- loops -----------------------------------------------------------
    def ev_loop(self, x, st, fr, label):
        lab = (fr, label)
        res = []
        work = [(st, 0, 0)]
        while work:
            cur, n, peeled = work.pop()
            cur = self.forget_locals(x, cur, fr)
            if n > 64:
                raise Unsupported('loop does not settle', self.where(x, fr))
            mark = Obj.n
            self.loopstack.append((lab, set(cur.cells)))
            try:
                outs = self.ev(x['e'], cur, fr)
            except NeedWiden as w:
                self.loopstack.pop()
                if w.cell not in cur.cells:
                    raise
                kept = self.marks()
                try:
                    res.extend(self.sync_loop(x, cur, fr, lab, w))
                except Unsupported as u:
                    # the first iteration may differ from the others
                    if peeled >= 2:
                        raise
                    self.undo(kept)
                    try:
                        states = [s for s, r in (self.last if w.back else self.first)(cur, cur.cells[w.cell][1])]
                    except Unsupported:
                        raise u
                    work.extend((s, n + 1, peeled + 1) for s in states)
                continue
            except NeedText as w:
                self.loopstack.pop()
                if w.cell not in cur.cells:
                    raise
                work.append((self.text_loop(x, cur, fr, lab, w.cell), n + 1, peeled))
                continue
            else:
                self.loopstack.pop()
            conts, exits = [], []
            for o in outs:
                if o.ctl is None or (o.ctl[0] == 'cont' and o.ctl[1] == lab):
                    conts.append(o)
                else:
                    exits.append(o)
            moved = [o for o in conts if self.consumed(cur, o.st)]
            if moved or (conts and any(len(o.st.poss) > len(cur.poss) and not self.listed(cur, o.st) for o in conts)):
                if not moved:
                    r = self.index_loop(x, cur, fr, lab, conts)
                    if r is not None:
                        res.extend(r)
                        continue
                kept = self.marks()
                try:
                    res.extend(self.parse_loop(x, cur, fr, lab, conts))
                except Unsupported:
                    self.undo(kept)
                    ctl = {c for o in conts for c, v in cur.cells.items() if o.st.cells.get(c) != v and (v[0] == 'bool' or v[0] == 'adt' and not v[3])}
                    try:
                        r = self.parse_loop(x, cur, fr, lab, conts, ctl) if ctl else None
                    except Unsupported:
                        self.undo(kept)
                        r = None
                    if r is not None:
                        res.extend(r)
                        continue
                    if peeled >= 2:
                        raise
                    res.extend(self.unlabel(exits, lab))
                    work.extend((o.st, n + 1, peeled + 1) for o in conts)
                continue
            if conts and all(o.st.cells == cur.cells and o.st.facts == cur.facts for o in conts) and not exits:
                self.nonprogress.append((self.where(x, fr), 'loop body changes nothing'))
                return res
            if self.mode == 'tool' and n > 12:
                raise Unsupported('loop over unknown data', self.where(x, fr))
            res.extend(self.unlabel(exits, lab))
            for o in conts:
                work.append((o.st, n + 1, peeled))
        return res

    def text_loop(self, x, st, fr, lab, cell):
        """A loop over the characters of a text that appends each of them."""
        v = st.cells[cell]
        ch = ('tch', v[1], v[2])
        changed = set()
        while True:
            s = st.setcell(cell, ('iter', (('e', ch), ('stop', None))))
            for c in changed:
                s = s.setcell(c, ('str', (('acc', 'text', c),)))
            self.loopstack.append((lab, set(s.cells)))
            try:
                outs = self.ev(x['e'], s, fr)
            finally:
                self.loopstack.pop()
            if len(outs) != 1 or not (outs[0].ctl is None or outs[0].ctl[0] == 'cont' and outs[0].ctl[1] == lab):
                raise Unsupported('a loop over the characters of a text', self.where(x, fr))
            o = outs[0].st
            if o.poss != st.poss or o.facts != st.facts or o.cells[cell] != ('iter', (('stop', None),)):
                raise Unsupported('a loop over the characters of a text', self.where(x, fr))
            more = {c for c in st.cells if c != cell and c not in changed and o.cells.get(c) != st.cells[c]}
            if not more:
                break
            if any(st.cells[c][0] != 'str' for c in more):
                raise Unsupported('a loop over the characters of a text', self.where(x, fr))
            changed |= more
        import prims
        res = st.setcell(cell, ('iter', ()))
        for c in changed:
            if o.cells.get(c) != ('str', (('acc', 'text', c), ('v', ch))):
                raise Unsupported('a loop over the characters of a text', self.where(x, fr))
            res = res.setcell(c, ('str', prims.norm_pieces(st.cells[c][1] + (('t', v[1], v[2]),))))
        return res

    def marks(self):
        return len(self.nonprogress), len(self.loops), {k: set(v) for k, v in self.panic_sites.items()}

    def undo(self, kept):
        del self.nonprogress[kept[0]:]
        del self.loops[kept[1]:]
        self.panic_sites.clear()
        self.panic_sites.update(kept[2])

    def index_loop(self, x, st, fr, lab, conts):
        """A loop counting an index up from a constant, or down from the length
        of a list, runs over the elements of that list."""
        ups, downs = [], []
        for c, v in st.cells.items():
            if v[0] != 'lin':
                continue
            ds = set()
            for o in conts:
                w = o.st.cells.get(c)
                ds.add(self.canon(o.st, lin_add(w, v, -1)) if w is not None and w[0] == 'lin' else None)
            if ds == {num(1)} and not v[1] and 0 <= v[2] <= 8:
                ups.append(c)
            elif ds == {num(-1)}:
                downs.append(c)
        lists = [v[1] for v in st.cells.values() if v[0] == 'seq' and any(g[0] == 's' for g in self.segs(st, v[1]))]
        lists = [l for i, l in enumerate(lists) if l not in lists[:i]]
        for segs in lists:
            for c in ups + downs:
                kept = self.marks()
                ix = len(self.ixlists)
                self.ixlists.append((segs, c))
                try:
                    if c in downs:
                        import prims
                        rest = self.segs(st, segs)
                        less = 0
                        n = prims.count_form(self, st, self.length(st, segs))
                        while prims.count_form(self, st, lin_add(st.cells[c], num(less))) != n:
                            less += 1
                            if less > 3 or not rest or rest[-1][0] != 'e':
                                break
                            rest = rest[:-1]
                        else:
                            heads = [(st, ('ridx', rest, ix, None))]
                            less = None
                        if less is not None:
                            continue
                    else:
                        heads = [(st, self.segs(st, segs))]
                        for _ in range(st.cells[c][2]):
                            nx = []
                            for s, sg in heads:
                                nx.extend((s2, None if r is None else r[1]) for s2, r in self.first(s, sg)) if sg is not None else nx.append((s, sg))
                            heads = nx
                        heads = [(s, None if sg is None else ('idx', self.segs(s, sg), ix)) for s, sg in heads]
                    out = []
                    for s, v in heads:
                        out.extend(self.ev_loop(x, s if v is None else s.setcell(c, v), fr, lab[1]))
                    return out
                except Unsupported:
                    self.undo(kept)
        return None

    def forget_locals(self, x, st, fr):
        """Variables bound inside the loop body are dead at its head."""
        b = x.get('_bound')
        if b is None:
            b = set()
            work = ir.subtree(fr.body, x['e'])[1]
            while work:
                y = work.pop()
                if isinstance(y, dict):
                    if y.get('k') == 'bind':
                        b.add(y['var'])
                    work.extend(y.values())
                elif isinstance(y, list):
                    work.extend(y)
            b = x['_bound'] = b
        dead = [(fr, v) for v in b if (fr, v) in st.cells]
        if not dead:
            return st
        s = st.copy()
        s.cells = {c: v for c, v in s.cells.items() if c not in dead}
        return s

    def unlabel(self, outs, lab):
        return outs

    def consumed(self, a, b):
        for c, v in a.cells.items():
            if v[0] in ('rem', 'chars', 'charidx'):
                w = b.cells.get(c)
                if w is not None and w != v:
                    return True
        return False

    def listed(self, a, b):
        """Whether the iteration took an element off a list."""
        return any(v[0] in ('iter', 'seq') and b.cells.get(c, v) != v for c, v in a.cells.items())

    def excursions(self, x, st, fr, lab, ctl, outs):
        """Outcomes of the loop body, where iterations that leave the control
        variables other than they were in st are followed by further ones until
        they are back: (back at st's values, leaving the loop)."""
        conts, exits = [], []
        work = [(o, 0) for o in outs]
        while work:
            o, n = work.pop(0)
            if not (o.ctl is None or (o.ctl[0] == 'cont' and o.ctl[1] == lab)):
                exits.append(o)
            elif all(o.st.cells.get(c) == st.cells[c] for c in ctl):
                conts.append(o)
            elif n >= 3:
                raise Unsupported('loop state does not settle', self.where(x, fr))
            else:
                s = self.forget_locals(x, o.st, fr)
                self.loopstack.append((lab, set(s.cells)))
                try:
                    work.extend((p, n + 1) for p in self.ev(x['e'], s, fr))
                finally:
                    self.loopstack.pop()
        return conts, exits

    def parse_loop(self, x, st, fr, lab, conts0, ctl=()):
        """A loop that consumes input: a star event whose alternatives are the
        ways one iteration can continue."""
        changed = set()
        for o in conts0:
            for c in st.cells:
                if o.st.cells.get(c) != st.cells[c] and c not in ctl:
                    changed.add(c)
        explode = False
        for attempt in range(8):
            L = Loop()
            L.where = self.where(x, fr)
            L.start = Pos(None, ('loopstart', L))
            head = st.copy()
            head.poss = head.poss + (L.start,)
            entry = None
            poscells = []
            for c in changed:
                v = st.cells[c]
                if v[0] in ('rem', 'chars', 'charidx'):
                    if entry is not None and v[-1] is not entry:
                        # two cursors: only allowed when one trails the other
                        if self.canon_eq(st, v[-1], entry):
                            pass
                        else:
                            raise Unsupported('two input cursors in a loop', self.where(x, fr))
                    entry = v[-1]
                    poscells.append(c)
                    head.cells[c] = v[:-1] + (L.start,)
                else:
                    head.cells[c] = self.acc_open(L, c, v, explode)
            if entry is None:
                raise Unsupported('loop without input cursor', self.where(x, fr))
            L.entry = (st, entry)
            nf, np = len(head.facts), len(head.poss)
            mark = Obj.n
            self.loopstack.append((lab, set(head.cells)))
            try:
                outs = self.ev(x['e'], head, fr)
            except Unsupported:
                if explode or not any(self.exploded(st.cells[c]) for c in changed):
                    raise
                explode = True
                continue
            finally:
                self.loopstack.pop()
            conts = self.excursions(x, st, fr, lab, ctl, outs)[0]
            conts = self.join_conts(head, mark, conts, changed)
            more = set()
            for o in conts:
                for c in st.cells:
                    if c not in changed and o.st.cells.get(c) != st.cells[c]:
                        more.add(c)
            if not more:
                break
            changed |= more
        else:
            raise Unsupported('loop state does not settle', self.where(x, fr))
        alts = []
        kinds = {}
        for o in conts:
            end = None
            pushes, steps = {}, {}
            for c in changed:
                v = o.st.cells[c]
                h = head.cells[c]
                if c in poscells:
                    if v[:-1] != h[:-1]:
                        raise Unsupported('cursor changes kind', self.where(x, fr))
                    if end is not None and v[-1] is not end:
                        raise Unsupported('input cursors diverge in a loop', self.where(x, fr))
                    end = v[-1]
                    continue
                for k, i0, v in self.acc_parts(c, st.cells[c], v, explode):
                    if i0[0] == 'seq':
                        if v[0] != 'seq' or not v[1] or v[1][0] != ('acc', L, k):
                            raise Unsupported('list is not only appended to', self.where(x, fr))
                        pushes[(L.id, k)] = v[1][1:]
                        continue
                    if i0[0] == 'str' and (v[0] != 'str' or not v[1] or v[1][0] != ('acc', L, k)):
                        raise Unsupported('text is not only appended to', self.where(x, fr))
                    steps[k] = v
            if end is L.start or self.minlen(o.st, L.start, end) == 0:
                self.nonprogress.append((self.where(x, fr), 'an iteration may consume nothing'))
                if end is L.start:
                    raise Unsupported('loop iteration without progress', self.where(x, fr))
            alts.append(Alt(end, o.st.facts[nf:], o.st.poss[np:], o.st.loopmap, o.st.refine, pushes, steps))
        L.alts = alts
        self.loops.append((self.cur.key[0] if self.cur else '?', self.where(x, fr), 'input', len(alts)))
        after, q = st.newpos(entry, ('star', L))
        posts = [after]
        for c in changed:
            if c in poscells:
                posts = [s.setcell(c, st.cells[c][:-1] + (q,)) for s in posts]
                continue
            for k, v, _ in self.acc_parts(c, st.cells[c], st.cells[c], explode):
                nx = []
                for s in posts:
                    if v[0] == 'seq':
                        if any(a.pushes[(L.id, k)] for a in alts):
                            nx.append(s.setcell(k, ('seq', v[1] + (('s', L, (L.id, k), False),))))
                        else:
                            nx.append(s.setcell(k, v))
                    else:
                        nx.extend(self.final_acc(s, L, k, v, alts, x, fr))
                posts = nx
            nx = []
            for s in posts:
                s, v = self.acc_close(s, c, st.cells[c], explode)
                nx.append(s.setcell(c, v))
            posts = nx
        res = []
        for s in posts:
            self.loopstack.append((lab, set(s.cells)))
            try:
                outs = self.ev(x['e'], s, fr)
            finally:
                self.loopstack.pop()
            res.extend(self.excursions(x, st, fr, lab, ctl, outs)[1])
        return res

    def canon_eq(self, st, p, q):
        return self.canon(st, lin_add(addr(p), addr(q), -1)) == num(0)

    def exploded(self, v, key=None):
        if v[0] == 'adt' and v[3] and isinstance(key, tuple) and key[0] == 'comp' and v[1] in self.prog.adts \
                and self.prog.adts[v[1]]['local'] and len(self.prog.adts[v[1]]['variants']) > 1:
            # a tree kept in a part of the state
            return False
        return v[0] in ('tup', 'adt') and bool(v[-1])

    def acc_open(self, owner, key, v, explode):
        """What an accumulator holding v at first is at the head of a loop."""
        if v[0] in ('seq', 'str'):
            return (v[0], (('acc', owner, key),))
        if explode and self.exploded(v, key):
            fs = tuple(self.acc_open(owner, ('comp', key, i), f, True) for i, f in enumerate(v[1] if v[0] == 'tup' else v[3]))
            return ('tup', fs) if v[0] == 'tup' else v[:3] + (fs,)
        return ('acc', owner, key)

    def acc_parts(self, key, init, v, explode):
        """[(key, at first, after)] for the parts an accumulator is taken apart into."""
        if explode and init[0] not in ('seq', 'str') and self.exploded(init, key):
            if v[0] != init[0] or (v[0] == 'adt' and v[1:3] != init[1:3]):
                raise Unsupported('an accumulator changes its shape')
            a, b = (init[1], v[1]) if v[0] == 'tup' else (init[3], v[3])
            return [y for i in range(len(a)) for y in self.acc_parts(('comp', key, i), a[i], b[i], True)]
        if init[0] == 'adt' and not init[3] and v[0] == 'adt' and v[1] == init[1] and v[2] != init[2] and v[3] \
                and self.mentions_acc(v, key):
            # the first iteration differs from the others
            raise Unsupported('an accumulator changes its shape')
        return [(key, init, v)]

    def acc_close(self, s, key, init, explode):
        if explode and init[0] not in ('seq', 'str') and self.exploded(init, key):
            fs = []
            for i, f in enumerate(init[1] if init[0] == 'tup' else init[3]):
                s, v = self.acc_close(s, ('comp', key, i), f, True)
                fs.append(v)
            return s, ('tup', tuple(fs)) if init[0] == 'tup' else init[:3] + (tuple(fs),)
        v = s.cells[key]
        if isinstance(key, tuple) and key[0] == 'comp':
            s = s.copy()
            s.cells = {c: w for c, w in s.cells.items() if c != key}
        return s, v

    def final_acc(self, s, L, c, init, alts, x, fr):
        """Value of an accumulator after the star; may fork and refine it."""
        acc = ('acc', L, c)
        if init[0] == 'str':
            # text appended in every iteration
            pieces = []
            for a in alts:
                pieces.append(a.steps[c][1][1:])
            L2slot = (L.id, c)
            for a in alts:
                a.pushes[L2slot] = tuple(('e', ('str', a.steps[c][1][1:])) for _ in (0,))
            return [s.setcell(c, ('str', init[1] + (('v', ('concat', ('seq', (('s', L, L2slot, False),)))),)))]
        return self.fold_pieces(s, L, c, acc, c, init, False)

    def mentions_acc(self, v, key):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'acc' and v[2] == key:
                return True
            return any(self.mentions_acc(y, key) for y in v)
        return False

    def mentions(self, v, what):
        if v == what:
            return True
        if isinstance(v, tuple):
            return any(self.mentions(y, what) for y in v)
        return False

    # ---- refinement of loops (which alternatives, how many iterations) ----
    def pieces(self, st, L):
        """Resolved pieces of a loop: list of ('star',L) / ('inst',Alt)."""
        if L not in st.loopmap:
            return [('star', L)]
        out = []
        for k, o in st.loopmap[L]:
            if k == 'star':
                out.extend(self.pieces(st, o))
            else:
                out.append((k, o))
        return out

    def sub_loop(self, L, idx=None, alts=None):
        L2 = Loop()
        L2.start = L.start
        L2.where = L.where
        L2.alts = alts if alts is not None else [L.alts[k] for k in idx]
        return L2

    def restrict(self, st, L, keep):
        if len(keep) == len(L.alts):
            return st
        if not keep:
            return st.setloop(L, ())
        return st.setloop(L, (('star', self.sub_loop(L, keep)),))

    def instance(self, st, L, k):
        """A concrete copy of alternative k with fresh positions."""
        a = L.alts[k]
        m = {}
        start = Pos(None, ('inststart',))
        m[L.start] = start
        na = clone_alt(a, m)
        na.start = start
        s = st.copy()
        s.poss = s.poss + (start,) + na.poss
        s.facts = s.facts + na.facts
        r = dict(s.refine)
        for p, v in na.refine.items():
            r.setdefault(p, v)
        s.refine = r
        if na.loopmap:
            lm = dict(s.loopmap)
            for l, v in na.loopmap.items():
                lm.setdefault(l, v)
            s.loopmap = lm
        return s, na, m

    def peel_first(self, st, L):
        """[(state, None)] for zero iterations and (state, inst) for each way
        the first iteration can go."""
        out = [(st.setloop(L, ()), None)]
        for k in range(len(L.alts)):
            s, inst, m = self.instance(st, L, k)
            rest = self.sub_loop(L, list(range(len(L.alts))))
            s = s.setloop(L, (('inst', inst), ('star', rest)))
            out.append((s, inst))
        return out

    def peel_last(self, st, L):
        out = [(st.setloop(L, ()), None)]
        for k in range(len(L.alts)):
            s, inst, m = self.instance(st, L, k)
            rest = self.sub_loop(L, list(range(len(L.alts))))
            s = s.setloop(L, (('star', rest), ('inst', inst)))
            out.append((s, inst))
        return out

    def exists(self, st, L, before, k):
        """Some iteration takes alternative k, none before it does."""
        s, inst, m = self.instance(st, L, k)
        ps = []
        if before:
            ps.append(('star', self.sub_loop(L, before)))
        ps.append(('inst', inst))
        ps.append(('star', self.sub_loop(L, list(range(len(L.alts))))))
        return s.setloop(L, ps)

    def last_then(self, st, L, k, after):
        s, inst, m = self.instance(st, L, k)
        ps = [('star', self.sub_loop(L, list(range(len(L.alts))))), ('inst', inst)]
        if after:
            ps.append(('star', self.sub_loop(L, after)))
        return s.setloop(L, ps), inst, m

    def segs(self, st, segs):
        """Resolve the star segments of a list under the loop refinements."""
        out = []
        for sg in segs:
            if sg[0] != 's':
                out.append(sg)
                continue
            _, L, slot, rev = sg
            if L not in st.loopmap:
                out.append(sg)
                continue
            part = []
            for k, o in self.pieces(st, L):
                if k == 'star':
                    if any(a.pushes.get(slot, ()) for a in o.alts):
                        part.append([('s', o, slot, rev)])
                else:
                    vs = self.segs(st, o.pushes.get(slot, ()))
                    part.append(rev_segs(vs) if rev else list(vs))
            if rev:
                part.reverse()
            for p in part:
                out.extend(p)
        return tuple(out)

    def first(self, st, segs):
        """[(state, (value, rest) | None)]: the first element."""
        segs = self.segs(st, segs)
        if not segs:
            return [(st, None)]
        sg = segs[0]
        if sg[0] == 'e':
            return [(st, (sg[1], segs[1:]))]
        if sg[0] != 's':
            raise Unsupported('list inspected while it is being built')
        out = []
        for s in self.end_split(st, sg, not sg[3]):
            out.extend(self.first(s, segs))
        return out

    def end_split(self, st, sg, front):
        """The states in which it is known how a repeated part begins (or
        ends): with which iteration that contributes an element, if any."""
        _, L, slot, rev = sg
        n = len(L.alts)
        silent = [k for k in range(n) if not L.alts[k].pushes.get(slot, ())]
        if not silent:
            return [s for s, inst in (self.peel_first if front else self.peel_last)(st, L)]
        if len(silent) == n:
            # nothing is contributed at all
            return [st.setloop(L, (('star', self.sub_loop(L, silent)),))]
        out = [st.setloop(L, (('star', self.sub_loop(L, silent)),) if silent else ())]
        for k in range(n):
            if k not in silent:
                out.append(self.exists(st, L, silent, k) if front else self.last_then(st, L, k, silent)[0])
        return out

    def last(self, st, segs):
        segs = self.segs(st, segs)
        if not segs:
            return [(st, None)]
        sg = segs[-1]
        if sg[0] == 'e':
            return [(st, (sg[1], segs[:-1]))]
        if sg[0] != 's':
            raise Unsupported('list inspected while it is being built')
        out = []
        for s in self.end_split(st, sg, bool(sg[3])):
            out.extend(self.last(s, segs))
        return out

    def nth(self, st, segs, n):
        out = []
        for s, r in self.first(st, segs):
            if r is None or n == 0:
                out.append((s, r))
            else:
                out.extend(self.nth(s, r[1], n - 1))
        return out

    def length(self, st, segs):
        segs = self.segs(st, segs)
        v = num(0)
        for sg in segs:
            if sg[0] == 'e':
                v = lin_add(v, num(1))
            elif sg[0] == 's':
                L = sg[1]
                ks = set(self.fixed_len(a.pushes.get(sg[2], ())) for a in L.alts)
                if len(ks) > 1 or None in ks:
                    raise Unsupported('length of a list with varying pushes')
                k = ks.pop() if ks else 0
                v = lin_add(v, ('lin', ((('cnt', L), 1),), 0), k)
            else:
                raise Unsupported('length of a list being built')
        return v

    def fixed_len(self, segs):
        if all(s[0] == 'e' for s in segs):
            return len(segs)
        return None

    # ---- iteration over the elements of a loop ----------------------------
    def in_alt(self, st, L, k):
        """State in which alternative k's facts hold (for evaluating code on
        the values that iteration produced)."""
        a = L.alts[k]
        s = st.copy()
        s.facts = s.facts + a.facts
        s.poss = s.poss + a.poss
        r = dict(a.refine)
        r.update(s.refine)
        s.refine = r
        lm = dict(s.loopmap)
        for l, v in a.loopmap.items():
            lm.setdefault(l, v)
        s.loopmap = lm
        return s

    def alt_from(self, a, s0, s):
        """Alternative a narrowed by what s learnt since s0."""
        nf = s.facts[len(s0.facts):]
        npos = s.poss[len(s0.poss):]
        if not nf and not npos and s.refine == s0.refine and s.loopmap == s0.loopmap:
            return a, False
        return a.copy(facts=a.facts + nf, poss=a.poss + npos, refine=s.refine, loopmap=s.loopmap,
                      pushes=dict(a.pushes), steps=dict(a.steps)), True

    def sync_loop(self, x, st, fr, lab, w, nested=None):
        """`for` over the elements a star produced: evaluate the body once per
        alternative; accumulators become folds over the star."""
        cell = w.cell
        it = st.cells[cell]
        segs = self.segs(st, it[1])
        kind, back = (it[0], it[2:]), w.back
        sg = segs[-1] if back else segs[0]
        left = segs[:-1] if back else segs[1:]
        L, slot, rev = sg[1], sg[2], sg[3] != back
        sync = Loop()
        changed = set()
        explode = False
        for attempt in range(8):
            newalts = []
            exits = []
            more = set()
            for k, a in enumerate(L.alts):
                base = self.in_alt(st, L, k)
                head = base.copy()
                for c in changed:
                    head.cells[c] = self.acc_open(sync, c, st.cells[c], explode)
                vals = a.pushes.get(slot, ())
                if rev:
                    vals = rev_segs(vals)
                try:
                    states, left_ = self.sync_vals(x, head, fr, lab, cell, kind, back, sync, vals)
                except Unsupported:
                    if explode or not any(self.exploded(st.cells[c]) for c in changed):
                        raise
                    explode = True
                    more.add(None)
                    break
                exits.extend((k, o) for o in left_)
                for s in states:
                    for c in st.cells:
                        if c == cell or c in changed:
                            continue
                        if s.cells.get(c) != head.cells.get(c):
                            more.add(c)
                    na, new = self.alt_from(a, base, s)
                    newalts.append((k, na, new, {c: s.cells[c] for c in changed}))
            if not more:
                break
            changed |= more - {None}
        else:
            raise Unsupported('loop state does not settle', self.where(x, fr))
        self.loops.append((self.cur.key[0] if self.cur else '?', self.where(x, fr), 'list', len(L.alts)))
        split = any(n[2] for n in newalts) or len(newalts) != len(L.alts)
        # all iterations continue
        L2 = self.sub_loop(L, alts=[])
        for k, na, new, steps in newalts:
            na = na.copy(pushes=dict(na.pushes), steps=dict(na.steps))
            for c, w in steps.items():
                for kk, i0, v in self.acc_parts(c, st.cells[c], w, explode):
                    na.steps[(sync, kk)] = v
                    if i0[0] == 'seq':
                        if v[0] != 'seq' or v[1][:1] != (('acc', sync, kk),):
                            raise Unsupported('list is not only appended to', self.where(x, fr))
                        na.pushes[(sync, kk)] = rev_segs(v[1][1:]) if rev else v[1][1:]
            L2.alts.append(na)

        def finish(s, L3):
            """accumulators after running over L3 in state s"""
            posts = [s]
            for c in changed:
                for kk, v, _ in self.acc_parts(c, st.cells[c], st.cells[c], explode):
                    nx = []
                    for s1 in posts:
                        if v[0] == 'seq':
                            nx.append(s1.setcell(kk, ('seq', v[1] + (('s', L3, (sync, kk), rev),))))
                        else:
                            nx.extend(self.final_sync(s1, L3, sync, kk, v, rev, x, fr))
                    posts = nx
                nx = []
                for s1 in posts:
                    s1, v = self.acc_close(s1, c, st.cells[c], explode)
                    nx.append(s1.setcell(c, v))
                posts = nx
            return posts
        res = []
        s = st.setloop(L, (('star', L2),)) if L2.alts else st.setloop(L, ())
        s = s.setcell(cell, (kind[0], left) + kind[1])
        for s2 in finish(s, L2) if L2.alts else [s]:
            if nested is not None:
                res.append(Out(s2, ('nested', nested), UNIT))
            else:
                res.extend(self.ev_loop(x, s2, fr, lab[1]))
        # some iteration leaves the loop
        for k in sorted(set(k for k, _ in exits)):
            L3 = self.sub_loop(L2, alts=list(L2.alts))
            s1, inst, m = self.instance(st, L, k)
            parts = []
            if L3.alts:
                parts.append(('star', L3))
            parts.append(('inst', inst))
            parts.append(('star', self.sub_loop(L, list(range(len(L.alts))))))
            if rev:
                parts.reverse()
            s1 = s1.setloop(L, parts)
            rest = self.segs(s1, segs)
            if L3.alts:
                rest = rest[:-1] if back else rest[1:]
            vals = inst.pushes.get(slot, ())
            if rev:
                vals = rev_segs(vals)
            rest = rest[:len(rest) - len(vals)] if back else rest[len(vals):]
            for s2 in finish(s1, L3) if L3.alts else [s1]:
                res.extend(self.sync_vals(x, s2, fr, lab, cell, kind, back, sync, vals, rest)[1])
        return res

    def sync_vals(self, x, st, fr, lab, cell, kind, back, sync, vals, rest=None):
        """Run the loop body once for every value of one iteration of the loop
        the list came from: (states that continue, ways to leave)."""
        states, exits = [st], []
        for i, v in enumerate(vals):
            nx = []
            more = (('stop', sync),) if rest is None else tuple(vals[i + 1:])
            if back:
                more = tuple(rest or ()) + tuple(reversed(more)) + (v,)
            else:
                more = (v,) + more + tuple(rest or ())
            for s in states:
                s = s.setcell(cell, (kind[0], more) + kind[1])
                if v[0] == 's':
                    w = NeedWiden(cell, v[1], back)
                    for o in self.sync_loop(x, s, fr, lab, w, nested=sync):
                        if o.ctl is not None and o.ctl[0] == 'nested' and o.ctl[1] is sync:
                            nx.append(o.st)
                        else:
                            exits.append(o)
                    continue
                self.loopstack.append((lab, set(s.cells)))
                try:
                    outs = self.ev(x['e'], s, fr)
                finally:
                    self.loopstack.pop()
                for o in outs:
                    if o.ctl is None or (o.ctl[0] == 'cont' and o.ctl[1] == lab):
                        if o.st.cells.get(cell) == s.cells[cell]:
                            raise Unsupported('an iteration that takes no element')
                        nx.append(o.st)
                    else:
                        exits.append(o)
            states = nx
        return states, exits

    def final_sync(self, s, L, sync, c, init, rev, x, fr):
        return self.fold_pieces(s, L, (sync, c), ('acc', sync, c), c, init, rev)

    def fold_pieces(self, s, L, key, acc, c, init, rev):
        """Accumulator c after running over L; parts of L that have already been
        told apart are gone through one after the other."""
        ps = self.pieces(s, L)
        if rev:
            ps = ps[::-1]
        for i in range(len(ps) - 1, -1, -1):
            # what an assignment overwrites does not matter
            if ps[i][0] == 'inst' and not self.mentions(ps[i][1].steps[key], acc):
                ps = ps[i:]
                break
        states = [(s, init)]
        for kind, o in ps:
            nx = []
            for s1, v in states:
                if kind == 'inst':
                    nx.append((s1, self.acc_put(o.steps[key], acc, v)))
                else:
                    nx.extend(self.fold_star(s1, o, key, acc, c, v, rev))
            states = nx
        return [s1.setcell(c, v) for s1, v in states]

    def acc_put(self, v, acc, cur):
        """v with the accumulator replaced by its value."""
        if v == acc:
            return cur
        if not isinstance(v, tuple) or not self.mentions(v, acc):
            return v
        if v[0] == 'lenof' and not self.mentions(v[1], acc):
            w = self.acc_put(v[2], acc, cur)
            return ('lenof', v[1] + w[1], w[2]) if w[0] == 'lenof' else ('lenof', v[1], w)
        if v[0] == 'lin':
            out = ('lin', (), v[2])
            if cur[0] == 'lenof':
                if dict(v[1])[acc] != 1:
                    raise Unsupported('multiple of a count')
                w = lin_add(('lin', tuple(y for y in v[1] if y[0] != acc), v[2]), cur[2])
                return ('lenof', cur[1], w)
            for t, k in v[1]:
                out = lin_add(out, self.numv(cur) if t == acc else ('lin', ((t, 1),), 0), k)
            return out
        return tuple(self.acc_put(y, acc, cur) for y in v)

    def units(self, v, acc):
        """As many elements as v is greater than acc."""
        segs = ()
        if v[0] == 'lenof':
            segs, v = v[1], v[2]
        if v == acc:
            return segs
        if v[0] != 'lin' or acc is not None and dict(v[1]).get(acc) != 1 or not 0 <= v[2] <= 4:
            return None
        for t, k in v[1]:
            if t == acc:
                continue
            if t[0] != 'cnt' or not 0 < k <= 4:
                return None
            slot = ('count', k)
            for a in t[1].alts:
                a.pushes = dict(a.pushes)
                a.pushes[slot] = (('e', ('opq', 'counted')),) * k
            segs = segs + (('s', t[1], slot, False),)
        return segs + (('e', ('opq', 'counted')),) * v[2]

    def fold_star(self, s, L, key, acc, c, init, rev):
        """[(state, value)]"""
        vals = [a.steps[key] for a in L.alts]
        if all(v == acc for v in vals):
            return [(s, init)]
        if all(v == acc or v[0] == 'bool' for v in vals) and init[0] == 'bool':
            flip = [k for k, v in enumerate(vals) if v[0] == 'bool' and v != init]
            back = [k for k, v in enumerate(vals) if v[0] == 'bool' and v == init]
            if not back:
                keep = [k for k in range(len(vals)) if k not in flip]
                out = [(self.restrict(s, L, keep), init)]
                for k in flip:
                    s2 = self.exists(s, L, keep, k) if rev else self.last_then(s, L, k, keep)[0]
                    out.append((s2, mkbool(not init[1])))
                return out
        if init[0] != 'lenof' and all(v[0] == 'lin' and dict(v[1]).get(acc) == 1 and len(v[1]) == 1 for v in vals) and len(set(v[2] for v in vals)) == 1:
            return [(s, lin_add(self.numv(init), ('lin', ((('cnt', L), 1),), 0), vals[0][2]))]
        units = [self.units(v, acc) for v in vals]
        if None not in units:
            # a count: as long as a list one element of which is added for each one counted
            slot = ('count', key)
            for a, u in zip(L.alts, units):
                a.pushes = dict(a.pushes)
                a.pushes[slot] = u
            if init[0] == 'lenof':
                return [(s, ('lenof', init[1] + (('s', L, slot, rev),), init[2]))]
            if self.numv(init) is not None:
                return [(s, ('lenof', (('s', L, slot, rev),), self.numv(init)))]
        if not any(self.mentions(v, acc) for v in vals if v != acc):
            # the last assignment wins
            keep = [k for k, v in enumerate(vals) if v == acc]
            out = [(self.restrict(s, L, keep), init)]
            for k, v in enumerate(vals):
                if v == acc:
                    continue
                if rev:
                    s2, inst, m = self.instance(s, L, k)
                    ps = [('star', self.sub_loop(L, keep))] if keep else []
                    ps += [('inst', inst), ('star', self.sub_loop(L, list(range(len(L.alts)))))]
                    s2 = s2.setloop(L, ps)
                else:
                    s2, inst, m = self.last_then(s, L, k, keep)
                out.append((s2, inst.steps[key]))
            return out
        return [(s, ('fold', L, key, init, rev))]

    def map_segs(self, st, segs, f):
        """Apply f(st, value) -> [(st, segs | None)] to every element; None means
        'stop here' is not supported.  Returns [(st, newsegs)]."""
        segs = self.segs(st, segs)
        acc = [(st, ())]
        for n, sg in enumerate(segs):
            nx = []
            for s, out in acc:
                if sg[0] == 'e':
                    for s2, r in f(s, sg[1]):
                        self.stateless(s, s2)
                        nx.append((s2, out + tuple(r)))
                elif sg[0] == 's':
                    for sg2 in self.segs(s, (sg,)):
                        if sg2 is not sg and sg2 != sg:
                            raise Unsupported('list refined while being mapped')
                    L, slot, rev = sg[1], sg[2], sg[3]
                    newslot = ('map', Loop().id)
                    newalts = []
                    split = False
                    # what one iteration adds is read backwards with the rest
                    g = (lambda s, e: [(s2, rev_segs(r)) for s2, r in f(s, e)]) if rev else f
                    for k, a in enumerate(L.alts):
                        base = self.in_alt(s, L, k)
                        vals = a.pushes.get(slot, ())
                        states = self.map_segs(base, vals, g)
                        for s1, o1 in states:
                            self.stateless(base, s1)
                            na, new = self.alt_from(a, base, s1)
                            split = split or new
                            na = na.copy(pushes=dict(na.pushes))
                            na.pushes[newslot] = o1
                            newalts.append(na)
                    L2 = self.sub_loop(L, alts=newalts)
                    s3 = s.setloop(L, (('star', L2),))
                    nx.append((s3, out + (('s', L2, newslot, rev),)))
                else:
                    raise Unsupported('mapping a list being built')
            acc = nx
        return acc

    def stateless(self, s, s2):
        """A function applied to the elements of a list must not keep anything."""
        c2 = s2.cells
        for c, v in s.cells.items():
            w = c2.get(c)
            if w is not v and w != v:
                raise Unsupported('function with a state applied to a list')

    def search(self, st, segs, f):
        """Find the first element for which f(st, value) -> [(st, bool)] holds.
        [(state, value | None)]"""
        segs = self.segs(st, segs)
        if not segs:
            return [(st, None)]
        sg = segs[0]
        out = []
        if sg[0] == 'e':
            for s, b in f(st, sg[1]):
                if b:
                    out.append((s, (sg[1],)))
                else:
                    out.extend(self.search(s, segs[1:], f))
            return out
        if sg[0] != 's':
            raise Unsupported('searching a list being built')
        L, slot, rev = sg[1], sg[2], sg[3]
        no, yes = [], []
        for k, a in enumerate(L.alts):
            base = self.in_alt(st, L, k)
            vals = a.pushes.get(slot, ())
            if rev:
                vals = rev_segs(vals)
            for s, r in self.search(base, vals, f):
                self.stateless(base, s)
                na, _ = self.alt_from(a, base, s)
                if r is None:
                    no.append(na)
                else:
                    yes.append((na, r[0]))
        # none
        if no:
            Ln = self.sub_loop(L, alts=no)
            s = st.setloop(L, (('star', Ln),))
        else:
            s = st.setloop(L, ())
        out.extend(self.search(s, segs[1:], f))
        for a, v in yes:
            Ly = self.sub_loop(L, alts=[a])
            s, inst, m = self.instance(st, Ly, 0)
            ps = [('star', self.sub_loop(L, alts=no))] if no else []
            ps += [('inst', inst), ('star', self.sub_loop(L, list(range(len(L.alts)))))]
            if rev:
                ps.reverse()
            s = s.setloop(L, ps)
            out.append((s, (Cloner(m).go(v),)))
        return out

    # ---- positions -------------------------------------------------------
    def chain(self, p, q):
        """Positions after p up to q on q's ancestry, or None."""
        out = []
        while q is not p:
            if q is None:
                return None
            out.append(q)
            q = q.parent
        out.reverse()
        return out

    def evlen(self, st, q):
        """(min, max|None) bytes consumed by the event of q."""
        ev = q.ev
        k = ev[0]
        r = st.refine.get(q)
        if k == 'lit':
            n = len(ev[1].encode('utf8'))
            return n, n
        if k == 'ch':
            s = r if r is not None else cs.ALL
            if not s:
                return 1, 1
            lo = len(chr_utf8(s[0][0]))
            hi = len(chr_utf8(s[-1][1]))
            return lo, hi
        if k == 'any':
            return ev[1], ev[1] * 4
        if k == 'many':
            if r == 'empty':
                return 0, 0
            return (max(1, ev[2]) if r == 'nonempty' else ev[2]), None
        if k == 're':
            if r == 'empty':
                return 0, 0
            d = ev[1]
            m = rx_minlen(d)
            if r == 'nonempty':
                m = max(m, 1)
            return m, None
        if k == 'until':
            return 0, None
        if k == 'call':
            return (0 if self.rule_nullable(ev[1].rule) else 1), None
        if k == 'star':
            m = 0
            for kk, o in self.pieces(st, ev[1]):
                if kk == 'inst':
                    m += self.span_min(st, o.start, o.end)
            return m, None
        if k == 'alt':
            m = None
            for b in ev[1]:
                n = self.span_min(b.st, q.parent, b.end)
                m = n if m is None else min(m, n)
            return m or 0, None
        return 0, None

    def span_min(self, st, p, q):
        c = self.chain(p, q)
        if c is None:
            return 0
        return sum(self.evlen(st, x)[0] for x in c)

    def minlen(self, st, p, q):
        return self.span_min(st, p, q)

    def rule_nullable(self, key):
        """Whether the function can succeed without consuming input.  A function
        whose evaluation is under way is assumed to consume (a successful parse
        has finite recursion depth, so the assumption is inductive once it is
        confirmed); settle() confirms every assumption afterwards."""
        if key in self.null:
            return self.null[key]
        r = self.rules.get(key)
        if r is None:
            r = self.rule(key)
        if r.error is None and (r.busy or r.outs is None):
            self.null_assumed.add(key)
            return False
        if r.error is not None:
            return bool(self.hint) and self.hint.get(key[0].split('::')[-1], False)
        if key in self.null_busy:
            self.null_assumed.add(key)
            return False
        self.null_busy.add(key)
        v = any(self.span_min(s, r.root, q) == 0 for s, q, _ in r.outs)
        self.null_busy.discard(key)
        self.null[key] = v
        return v

    def settle(self):
        """Confirm the assumptions made by rule_nullable; False if one was wrong
        (everything has been forgotten and must be evaluated again)."""
        bad = []
        ks = set(self.null_assumed) | set(k for k, v in self.null.items() if not v)
        for k in sorted(ks, key=repr):
            r = self.rules.get(k)
            if r is None or r.error is not None:
                continue
            if any(self.span_min(s, r.root, q) == 0 for s, q, _ in r.outs):
                bad.append(k)
        if not bad:
            return True
        self.reset()
        for k in bad:
            self.null[k] = True
        return False

    def canon(self, st, d):
        """Replace addresses of positions after fixed-size events."""
        terms = {}
        k = d[2]
        for t, c in d[1]:
            if t[0] == 'END':
                for f in st.facts:
                    if f[0] == 'eof':
                        t = ('addr', f[1])
                        break
            if t[0] == 'addr':
                p = t[1]
                while p.parent is not None:
                    lo, hi = self.evlen_fixed(st, p)
                    if lo is None or lo != hi:
                        break
                    k += c * lo
                    p = p.parent
                t = ('addr', p)
            terms[t] = terms.get(t, 0) + c
        return ('lin', tuple(sorted(((t, c) for t, c in terms.items() if c), key=lambda y: repr(y[0]))), k)

    def evlen_fixed(self, st, p):
        k = p.ev[0]
        if k in ('lit', 'ch', 'any', 'many', 're'):
            return self.evlen(st, p)
        return None, None

    def resolve(self, st, p, off):
        """Position at byte offset `off` from p: [(state, pos)] or None."""
        target = self.canon(st, lin_add(addr(p), off))
        if target == self.canon(st, END):
            for f in st.facts:
                if f[0] == 'eof':
                    return st, f[1]
            return st, 'END'
        for q in reversed(st.poss):
            if self.canon(st, addr(q)) == target:
                return st, q
        if not off[1]:
            # inside a literal that was compared at p
            n = off[2]
            for (k, pp), q in list(st.peek.items()):
                if k == 'lit' and q.parent is p and q in st.poss:
                    s = q.ev[1]
                    b = s.encode('utf8')
                    if 0 < n < len(b):
                        try:
                            pre = b[:n].decode('utf8')
                        except UnicodeDecodeError:
                            return None
                        return st.newpos(p, ('lit', pre))
        return None

    # ---- merging of parser results ----------------------------------------
    def touched(self, s0, mark, st):
        """Whether st changed what was known about things older than mark."""
        for l, v in st.loopmap.items():
            if l.id <= mark and s0.loopmap.get(l) != v:
                return True
        for p, v in st.refine.items():
            if p.id <= mark and s0.refine.get(p) != v:
                return True
        for f in st.facts[len(s0.facts):]:
            if f[0] == 'in' and f[2].id <= mark:
                return True
            if f[0] == 'test' and any(t[0] == 'addr' and t[1].id <= mark and False for t, _ in f[1][1]):
                return True
        if st.facts[:len(s0.facts)] != s0.facts or st.poss[:len(s0.poss)] != s0.poss:
            return True
        return False

    def cells_eq(self, s0, a, b):
        for c in s0.cells:
            if a.cells.get(c) != b.cells.get(c):
                return False
        return True

    def merge(self, s0, mark, outs):
        if len(outs) <= 1:
            return outs
        errs = [o for o in outs if o.ctl is None and o.val == NOM_ERROR]
        rest = [o for o in outs if not (o.ctl is None and o.val == NOM_ERROR)]
        clean = not any(self.touched(s0, mark, o.st) for o in outs)
        rest = self.join_ok(s0, mark, rest)
        if len(errs) > 1 and clean and all(self.cells_eq(s0, errs[0].st, e.st) for e in errs):
            s = s0.copy()
            s.cells = {c: errs[0].st.cells[c] for c in s0.cells}
            if rest:
                brs = tuple(Br(None, o.st, len(s0.facts), len(s0.poss)) for o in rest)
                s.facts = s.facts + (('neg', None, brs),)
            errs = [Out(s, None, NOM_ERROR)]
        return rest + errs

    def join_ok(self, s0, mark, outs):
        """Join successful results that differ only in how the input was consumed."""
        groups = []
        final = []
        for o in outs:
            q = self.end_of(o)
            if q is None or self.touched(s0, mark, o.st):
                final.append(o)
                continue
            a = self.anchor(q, mark)
            if a is None:
                final.append(o)
                continue
            key = (abstract_pos(o.val, q), tuple((c, abstract_pos(o.st.cells.get(c), q)) for c in s0.cells))
            key += (self.known(o.st, key),)
            for g in groups:
                if g[1] is a and g[0] == key:
                    g[2].append((o, q))
                    break
            else:
                groups.append((key, a, [(o, q)]))
        for key, a, ms in groups:
            s, new = self.join_states(s0, a, ms) if len(ms) > 1 else (None, None)
            o, q = ms[0]
            if s is None or self.loses(o.st, s, key):
                final.extend(o for o, _ in ms)
                continue
            m = {q: new}
            s.cells = {c: subst(o.st.cells[c], m) for c in s0.cells}
            final.append(Out(s, None, subst(o.val, m)))
        return final

    def unshared(self, s0, sts, np):
        """Index of the first shared position about which different things are known."""
        for i in range(len(s0.poss), np):
            p = sts[0].poss[i]
            L = p.ev[1] if p.ev[0] == 'star' else None
            if any(t.refine.get(p) != sts[0].refine.get(p) for t in sts) or (
                    L is not None and any(self.deep_pieces(t, L) != self.deep_pieces(sts[0], L) for t in sts)):
                return i
        return np

    def deep_pieces(self, st, L):
        v = st.loopmap.get(L)
        if v is None:
            return L
        return tuple((k, self.deep_pieces(st, o) if k == 'star' else o) for k, o in v)

    def known(self, st, v):
        """What st knows about the loops a value is made of."""
        ls = set()

        def go(x):
            if isinstance(x, Loop):
                ls.add(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(v)
        return tuple((l, st.loopmap[l]) for l in sorted(ls, key=lambda l: l.id) if l in st.loopmap)

    def loses(self, st, s, key):
        """Whether the joined state s hides a position of st the value needs."""
        kept = set(s.poss)
        drop = set()
        for p in st.poss:
            if p not in kept:
                drop.add(p)
                if len(p.ev) > 1 and isinstance(p.ev[1], Obj):
                    drop.add(p.ev[1])

        def go(x):
            if isinstance(x, Obj):
                return x in drop
            return isinstance(x, tuple) and any(go(y) for y in x)
        return go(key)

    def join_states(self, s0, a, ms):
        """One state for several ways ms = [(out, end)] to get from a to an end."""
        sts = [o.st for o, _ in ms]
        nf, np = len(s0.facts), len(s0.poss)
        while all(len(t.facts) > nf and t.facts[nf] is sts[0].facts[nf] for t in sts):
            nf += 1
        while all(len(t.poss) > np and t.poss[np] is sts[0].poss[np] for t in sts):
            np += 1
        # what is known about a shared position must be shared too
        i = self.unshared(s0, sts, np)
        if i < np:
            dropped = set(sts[0].poss[i:np])
            np = i
            for k in range(len(s0.facts), nf):
                f = sts[0].facts[k]
                if (f[0] == 'test' and any(x[0] != 'param' for x, _ in f[1][1])) or \
                        any(p in dropped for p in fact_anchors(f)):
                    nf = k
                    break
        # deepest common ancestor of the ends
        anc = []
        p = ms[0][1]
        while True:
            anc.append(p)
            if p is a:
                break
            p = p.parent
        common = None
        for p in anc:
            if p is not a and p not in sts[0].poss[:np]:
                continue
            if all(self.is_anc(p, q) for _, q in ms):
                common = p
                break
        need = []
        for t in sts:
            news = set(t.poss[np:])
            for p in t.poss[np:]:
                if p.parent is not None and p.parent not in news:
                    need.append(p.parent)
            for f in t.facts[nf:]:
                for p in fact_anchors(f):
                    if p not in news:
                        need.append(p)
            for p, v in t.refine.items():
                if any(u.refine.get(p) != v for u in sts) and p.parent is not None and p not in news:
                    need.append(p.parent)
        for l in set(l for t in sts for l in t.loopmap):
            if any(u.loopmap.get(l) != sts[0].loopmap.get(l) for u in sts):
                for t in sts:
                    for p in t.poss[len(s0.poss):np]:
                        if p.ev[0] == 'star' and p.parent is not None:
                            need.append(p.parent)
        while common is not a and not all(self.is_anc(common, p) for p in need):
            common = common.parent
        if common is a:
            nf, np = len(s0.facts), len(s0.poss)
        else:
            # positions and facts of the shared part stay in the joined state
            pass
        brs = tuple(Br(q, o.st, nf, np) for o, q in ms)
        s = s0.copy()
        s.facts = sts[0].facts[:nf]
        s.poss = sts[0].poss[:np]
        s.refine = {p: v for p, v in sts[0].refine.items() if all(u.refine.get(p) == v for u in sts)}
        s.loopmap = {p: v for p, v in sts[0].loopmap.items() if all(u.loopmap.get(p) == v for u in sts)}
        if all(q is common for _, q in ms):
            s.facts = s.facts + (('or', common, brs),)
            return s, common
        return s.newpos(common, ('alt', brs))

    def is_anc(self, p, q):
        while q is not None:
            if q is p:
                return True
            q = q.parent
        return False

    def end_of(self, o):
        v = o.val
        if o.ctl is not None or v is None or v[0] != 'adt' or v[1] != RESULT or v[2] != 0:
            return None
        t = v[3][0]
        if t[0] == 'tup' and t[1] and t[1][0][0] == 'rem':
            return t[1][0][1]
        return None

    def anchor(self, q, mark):
        while q is not None and q.id > mark:
            q = q.parent
        return q

    def join_conts(self, head, mark, conts, changed):
        """Join continuing iterations that build the same things."""
        groups = []
        out = []
        for o in conts:
            qs = set(o.st.cells[c][1] for c in changed if head.cells[c][0] in ('rem', 'chars'))
            if len(qs) != 1 or self.touched(head, mark, o.st):
                out.append(o)
                continue
            q = qs.pop()
            a = self.anchor(q, mark)
            if a is None or q is a:
                out.append(o)
                continue
            key = tuple((c, abstract_pos(o.st.cells.get(c), q)) for c in sorted(head.cells, key=repr))
            key = (key, self.known(o.st, key))
            for g in groups:
                if g[1] is a and g[0] == key:
                    g[2].append((o, q))
                    break
            else:
                groups.append((key, a, [(o, q)]))
        for key, a, ms in groups:
            s, new = self.join_states(head, a, ms) if len(ms) > 1 else (None, None)
            o, q = ms[0]
            if s is None or self.loses(o.st, s, key):
                out.extend(o for o, _ in ms)
                continue
            s.cells = {c: subst(o.st.cells[c], {q: new}) for c in head.cells}
            out.append(Out(s, None, UNIT))
        return out


def fact_anchors(f):
    if f[0] == 'neg':
        if f[1] is not None:
            return [f[1]]
        out = []
        for b in f[2]:
            news = set(b.poss())
            for p in b.poss():
                if p.parent is not None and p.parent not in news:
                    out.append(p.parent)
            for g in b.facts():
                out.extend(p for p in fact_anchors(g) if p not in news)
        return out
    if f[0] == 'in':
        return [f[1]]
    if f[0] == 'test':
        return [t[1] for t, _ in f[1][1] if t[0] == 'addr']
    return [p for p in f[1:] if isinstance(p, Pos)]


# ---- helpers ---------------------------------------------------------------

def chr_utf8(c):
    if c < 0x80:
        return b'1'
    if c < 0x800:
        return b'12'
    if c < 0x10000:
        return b'123'
    return b'1234'


def rx_minlen(d):
    seen = {0: 0}
    work = [0]
    while work:
        q = work.pop(0)
        if d.acc[q]:
            return seen[q]
        for s, t in d.trans[q]:
            if t not in seen:
                seen[t] = seen[q] + 1
                work.append(t)
    return 0


def rev_segs(segs):
    out = []
    for s in reversed(list(segs)):
        if s[0] == 's':
            s = ('s', s[1], s[2], not s[3])
        out.append(s)
    return tuple(out)


def abstract_pos(v, q):
    if v is q:
        return '<end>'
    if isinstance(v, tuple):
        return tuple(abstract_pos(x, q) for x in v)
    return v


def subst(v, m):
    if isinstance(v, Obj):
        return m.get(v, v)
    if isinstance(v, tuple):
        n = tuple(subst(x, m) for x in v)
        return n
    return v


class Cloner:
    def __init__(self, m):
        self.m = m

    def go(self, v):
        m = self.m
        if isinstance(v, Pos):
            return m.get(v, v)
        if isinstance(v, (Call, Loop)):
            return m.get(v, v)
        if isinstance(v, tuple):
            return tuple(self.go(x) for x in v)
        if isinstance(v, Br):
            ps = self.poss(v.poss())
            b = Br(self.go(v.end), None, 0, 0)
            b.st = _BrState(tuple(self.go(f) for f in v.facts()), ps,
                            self.mapd(v.st.loopmap), self.mapd(v.st.refine))
            return b
        if isinstance(v, Alt):
            return clone_alt(v, m)
        return v

    def poss(self, ps):
        out = []
        for p in ps:
            out.append(self.pos(p))
        return tuple(out)

    def pos(self, p):
        m = self.m
        if p in m:
            return m[p]
        if p.ev[0] == 'loopstart' and p.ev[1] not in m and p.parent is None:
            pass
        q = Pos(m.get(p.parent, p.parent), None)
        m[p] = q
        ev = p.ev
        if ev[0] == 'call':
            c = ev[1]
            nc = Call(c.rule, None, c.ty)
            m[c] = nc
            nc.args = self.go(c.args)
            ev = ('call', nc)
        elif ev[0] == 'star':
            L = ev[1]
            nl = self.loop(L)
            ev = ('star', nl)
        elif ev[0] == 'loopstart':
            ev = ('loopstart', m.get(ev[1], ev[1]))
        elif ev[0] == 'alt':
            ev = ('alt', tuple(self.go(b) for b in ev[1]))
        q.ev = ev
        return q

    def loop(self, L):
        m = self.m
        if L in m:
            return m[L]
        nl = Loop()
        nl.where = L.where
        m[L] = nl
        if L.start in m:
            # the loop and parts split off it share their start and positions
            nl.start = m[L.start]
        else:
            m[L.start] = nl.start = Pos(None, ('loopstart', nl))
        nl.alts = [clone_alt(a, m) for a in L.alts]
        return nl

    def inst(self, a):
        """A picked-out iteration; its positions belong to the state."""
        if a in self.m:
            return self.m[a]
        n = clone_alt(a, self.m)
        n.start = self.m.get(a.start, a.start)
        self.m[a] = n
        return n

    def mapd(self, d):
        out = {}
        for k, v in d.items():
            k2 = self.go(k)
            if isinstance(v, tuple) and v and v[0] and v[0][0] in ('star', 'inst') and isinstance(k, Loop):
                out[k2] = tuple((kk, self.loop(o) if kk == 'star' else self.inst(o)) for kk, o in v)
            else:
                out[k2] = self.go(v)
        return out


class _BrState:
    def __init__(self, facts, poss, loopmap, refine):
        self.facts, self.poss, self.loopmap, self.refine = facts, poss, loopmap, refine


def clone_alt(a, m):
    c = Cloner(m)
    poss = c.poss(a.poss)
    end = c.go(a.end)
    facts = tuple(c.go(f) for f in a.facts)
    n = Alt(end, facts, poss, {}, {}, None, None)
    n.refine = {c.go(k): v for k, v in a.refine.items()}
    lm = {}
    for k, v in a.loopmap.items():
        lm[c.go(k)] = tuple((kk, c.loop(o) if kk == 'star' else c.inst(o)) for kk, o in v)
    n.loopmap = lm
    n.pushes = {k: c.go(v) for k, v in a.pushes.items()}
    n.steps = {k: c.go(v) for k, v in a.steps.items()}
    return n
