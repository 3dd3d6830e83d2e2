"""Loading of the THIR dump written by /verif/driver and a pretty printer."""
import json


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.files = d['files']
        self.types = d['types']
        self.fns = d['fns']
        self.adts = d['adts']
        self.failed = d['failed']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['key']] = b
            b['prog'] = self

    def ty(self, i):
        return self.types[i]

    def tystr(self, i, depth=0):
        t = self.types[i]
        k = t['k']
        if depth > 4:
            return '..'
        if k == 'adt':
            a = ','.join(self.tystr(x, depth + 1) for x in t['a'])
            return t['p'].split('::')[-1] + ('<%s>' % a if a else '')
        if k == 'ref':
            return '&' + ('mut ' if t['mut'] else '') + self.tystr(t['t'], depth + 1)
        if k in ('int', 'uint', 'float', 'param'):
            return t['n']
        if k == 'tuple':
            return '(' + ','.join(self.tystr(x, depth + 1) for x in t['a']) + ')'
        if k == 'slice':
            return '[%s]' % self.tystr(t['t'], depth + 1)
        if k == 'array':
            return '[%s;%s]' % (self.tystr(t['t'], depth + 1), t['n'])
        if k == 'fndef':
            return 'fn:' + self.fns[t['f']]['p']
        if k == 'closure':
            return 'closure:' + str(t['key'])
        return k

    def line(self, s):
        return '%s:%d' % (self.files[s[0]], s[1])


def subtree(body, i):
    """(expressions, patterns) below expression i, closures excluded."""
    xs, pats = [], []
    ew, bw = [i], []
    while ew or bw:
        if bw:
            b = body['blocks'][bw.pop()]
            for si in b['stmts']:
                s = body['stmts'][si]
                if s['k'] == 'expr':
                    ew.append(s['e'])
                else:
                    pats.append(s['pat'])
                    if s['init'] is not None:
                        ew.append(s['init'])
                    if s.get('els') is not None:
                        bw.append(s['els'])
            if b['expr'] is not None:
                ew.append(b['expr'])
            continue
        x = body['exprs'][ew.pop()]
        xs.append(x)
        for f in ('e', 'c', 'th', 'el', 'fun', 'l', 'r', 'base'):
            if isinstance(x.get(f), int) and not isinstance(x.get(f), bool):
                ew.append(x[f])
        for f in ('args', 'a', 'up'):
            if isinstance(x.get(f), list):
                ew.extend(x[f])
        if x['k'] == 'Index':
            ew.append(x['i'])
        if x['k'] == 'Adt':
            ew.extend(y[1] for y in x['fs'])
        if x['k'] == 'Let':
            pats.append(x['pat'])
        if x['k'] == 'Match':
            for a in x['arms']:
                arm = body['arms'][a]
                pats.append(arm['pat'])
                ew.append(arm['body'])
                if arm['guard'] is not None:
                    ew.append(arm['guard'])
        if x['k'] == 'Block':
            bw.append(x['b'])
    return xs, pats


class PP:
    def __init__(self, prog, body):
        self.p = prog
        self.b = body

    def e(self, i):
        x = self.b['exprs'][i]
        k = x['k']
        f = getattr(self, 'k_' + k, None)
        if f is None:
            return '<%s %s>' % (k, {a: b for a, b in x.items() if a not in ('t', 's', 'k')})
        return f(x)

    def k_Scope(self, x):
        return self.e(x['e'])

    def k_Use(self, x):
        return self.e(x['e'])

    def k_Never(self, x):
        return self.e(x['e'])

    def k_Coerce(self, x):
        return self.e(x['e'])

    def k_If(self, x):
        s = 'if %s {%s}' % (self.e(x['c']), self.e(x['th']))
        if x['el'] is not None:
            s += ' else {%s}' % self.e(x['el'])
        return s

    def k_Call(self, x):
        if x['fn'] is not None:
            f = self.p.fns[x['fn']]
            n = f['p']
            if f['res']:
                n += '=>' + f['res']['p']
            if f['key']:
                n = 'L!' + n
        else:
            n = '(' + self.e(x['fun']) + ')'
        return '%s(%s)' % (n, ', '.join(self.e(a) for a in x['args']))

    def k_Deref(self, x):
        return '*' + self.e(x['e'])

    def k_Bin(self, x):
        return '(%s %s %s)' % (self.e(x['l']), x['op'], self.e(x['r']))

    k_Logic = k_Bin

    def k_Un(self, x):
        return x['op'] + ' ' + self.e(x['e'])

    def k_Cast(self, x):
        return '(%s as %s)' % (self.e(x['e']), self.p.tystr(x['t']))

    def k_Loop(self, x):
        return 'loop {%s}' % self.e(x['e'])

    def k_Let(self, x):
        return 'let %s = %s' % (self.pat(x['pat']), self.e(x['e']))

    def k_Match(self, x):
        r = 'match %s {\n' % self.e(x['e'])
        for a in x['arms']:
            arm = self.b['arms'][a]
            g = ' if ' + self.e(arm['guard']) if arm['guard'] is not None else ''
            r += '%s%s => %s,\n' % (self.pat(arm['pat']), g, self.e(arm['body']))
        return r + '}'

    def k_Block(self, x):
        return self.block(x['b'])

    def block(self, i):
        b = self.b['blocks'][i]
        r = '{'
        for s in b['stmts']:
            st = self.b['stmts'][s]
            if st['k'] == 'expr':
                r += self.e(st['e']) + ';\n'
            else:
                r += 'let %s' % self.pat(st['pat'])
                if st['init'] is not None:
                    r += ' = ' + self.e(st['init'])
                r += ';\n'
        if b['expr'] is not None:
            r += self.e(b['expr'])
        return r + '}'

    def k_Assign(self, x):
        return '%s = %s' % (self.e(x['l']), self.e(x['r']))

    def k_AssignOp(self, x):
        return '%s %s= %s' % (self.e(x['l']), x['op'], self.e(x['r']))

    def k_Field(self, x):
        return '%s.%d' % (self.e(x['e']), x['f'])

    def k_Index(self, x):
        return '%s[%s]' % (self.e(x['e']), self.e(x['i']))

    def k_Var(self, x):
        return 'v' + x['var']

    def k_Upvar(self, x):
        return 'up' + x['var']

    def k_Borrow(self, x):
        return ('&mut ' if x['mut'] else '&') + self.e(x['e'])

    def k_Break(self, x):
        return 'break %s %s' % (x['scope'], self.e(x['e']) if x['e'] is not None else '')

    def k_Return(self, x):
        return 'return %s' % (self.e(x['e']) if x['e'] is not None else '')

    def k_Array(self, x):
        return '[%s]' % ', '.join(self.e(a) for a in x['a'])

    def k_Tuple(self, x):
        return '(%s)' % ', '.join(self.e(a) for a in x['a'])

    def k_Adt(self, x):
        v = self.p.adts[x['adt']]['variants'][x['v']]
        return '%s::%s{%s}' % (x['adt'].split('::')[-1], v['name'],
                               ', '.join('%s:%s' % (v['fields'][f], self.e(e)) for f, e in x['fs']))

    def k_Closure(self, x):
        b = self.p.bodies[x['key']]
        pp = PP(self.p, b)
        ps = ', '.join(pp.pat(q['pat']) if q['pat'] else '_' for q in b['params'][1:])
        return '|%s| %s' % (ps, pp.e(b['root']))

    def k_Lit(self, x):
        for k in ('str', 'char', 'int', 'bool', 'bytes', 'dbg'):
            if k in x:
                return ('-' if x['neg'] else '') + repr(x[k])

    def k_Zst(self, x):
        return 'fn ' + self.p.fns[x['fn']]['p'] if x['fn'] is not None else 'zst'

    def k_NamedConst(self, x):
        return 'const ' + x['p']

    def pat(self, p):
        k = p['k']
        if k == 'wild':
            return '_'
        if k == 'bind':
            s = ('ref ' if p['byref'] else '') + '%s@v%s' % (p['name'], p['var'])
            if p['sub']:
                s += '@' + self.pat(p['sub'])
            return s
        if k == 'variant':
            v = self.p.adts[p['adt']]['variants'][p['v']]
            return '%s(%s)' % (v['name'], ', '.join('%d:%s' % (i, self.pat(q)) for i, q in p['subs']))
        if k == 'leaf':
            return '(%s)' % ', '.join('%d:%s' % (i, self.pat(q)) for i, q in p['subs'])
        if k == 'deref':
            return '&' + self.pat(p['sub'])
        if k == 'const':
            return repr(p['value'])
        if k == 'or':
            return ' | '.join(self.pat(q) for q in p['pats'])
        return str(p)


if __name__ == '__main__':
    import sys
    pr = Program(sys.argv[1])
    for k in sys.argv[2:]:
        b = pr.bodies[k]
        pp = PP(pr, b)
        print(k, [pp.pat(q['pat']) for q in b['params'] if q['pat']], pr.tystr(b['ret']))
        print(pp.e(b['root']))
