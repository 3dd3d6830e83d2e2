"""Readable form of a rule's outcomes (for evidence and debugging)."""
from val import *
def showset(s):
    if not s: return '[]'
    out=[]
    for a,b in s[:6]:
        f=lambda c: repr(chr(c))[1:-1] if c<0x3000 else hex(c)
        out.append(f(a) if a==b else f(a)+'-'+f(b))
    return '['+','.join(out)+(',..' if len(s)>6 else '')+']'
class Show:
    def __init__(s,ev): s.ev=ev; s.names={}
    def n(s,p):
        if p not in s.names: s.names[p]=len(s.names)
        return s.names[p]
    def evs(s,st,q):
        e=q.ev; r=st.refine.get(q)
        if e[0]=='ch': return 'ch'+showset(r if r is not None else [(0,0x10ffff)])
        if e[0]=='many': return 'many'+showset(e[1])+'{%d,}'%e[2]+(str(r) if r is not None else '')
        if e[0]=='re': return 're<%d>'%len(e[1].trans)+(str(r) if r is not None else '')
        if e[0]=='call': return '%s#%d(%s)'%(e[1].rule[0].split('::')[-1],e[1].id,','.join([s.lin(a) for a in e[1].args]+[str(a) for a in e[1].rule[1] if a is not None]))
        if e[0]=='star': return 'STAR %s'%s.loop(st,e[1])
        if e[0]=='alt': return 'ALT(%s)'%' || '.join(s.br(st,q.parent,b) for b in e[1])
        return repr(e)
    def lin(s,l): return s.val(l)
    def br(s,st,p,b):
        return s.chain(b.st,p,b.end)+s.facts(b.facts(),b.st)+s.side(b.st,b.poss(),p,b.end)
    def alt(s,st,start,a):
        s2=_S(a.refine,a.loopmap)
        return '{%s%s%s | %s %s}'%(s.chain(s2,start,a.end),s.facts(a.facts,s2),s.side(s2,a.poss,start,a.end),'; '.join('%s'%s.segs(v) for k,v in a.pushes.items()),'; '.join(s.val(v) for k,v in a.steps.items()))
    def loop(s,st,L):
        out=[]
        for k,o in s.ev.pieces(st,L):
            if k=='star': out.append('L%d*(%s)'%(o.id,' / '.join(s.alt(st,o.start,a) for a in o.alts)))
            else: out.append('I('+s.alt(st,o.start,o)+')')
        return ' ; '.join(out)
    def chain(s,st,p,q):
        c=s.ev.chain(p,q)
        if c is None: return '<nochain %s %s>'%(s.n(p),s.n(q))
        return '%d'%s.n(p)+''.join(' -%s-> %d'%(s.evs(st,x),s.n(x)) for x in c)
    def side(s,st,poss,p,q):
        c=set(s.ev.chain(p,q) or ())|{p}
        out=[]
        for x in poss:
            if x not in c and x.parent is not None:
                out.append('%d>-%s->%d'%(s.n(x.parent),s.evs(st,x),s.n(x)))
        return (' SIDE[%s]'%', '.join(out)) if out else ''
    def facts(s,fs,st):
        out=[]
        for f in fs:
            if f[0] in('neg','or'): out.append('%s@%s(%s)'%(f[0],s.n(f[1]) if f[1] is not None else None,' || '.join(s.br(st,f[1],b) for b in f[2])))
            elif f[0]=='in': out.append('in(%d,%d,dfa%d,%s)'%(s.n(f[1]),s.n(f[2]),len(f[3].trans),f[4]))
            elif f[0]=='test': out.append('test(%s %s %s)'%(s.val(f[1]),f[2],f[3]))
            elif f[0] in('eof','neof'): out.append('%s@%d'%(f[0],s.n(f[1])))
            else: out.append(repr(f))
        return (' WITH '+' & '.join(out)) if out else ''
    def segs(s,g):
        return '['+', '.join(s.val(x[1]) if x[0]=='e' else ('*%s%s'%(x[1],'~' if x[3] else '') if x[0]=='s' else repr(x)) for x in g)+']'
    def val(s,v):
        k=v[0]
        if k=='adt': return '%s.%s(%s)'%(v[1].split('::')[-1],v[2],', '.join(s.val(x) for x in v[3]))
        if k=='tup': return '(%s)'%', '.join(s.val(x) for x in v[1])
        if k=='str': return 'str<%s>'%'+'.join(('%d..%s'%(s.n(p[1]),s.n(p[2]) if p[2] else 'eof') if p[0]=='t' else repr(p[1]) if p[0]=='l' else s.val(p[1]) if p[0]=='v' else repr(p)) for p in v[1])
        if k=='seq': return s.segs(v[1])
        if k=='sym': return '#%d%s'%(v[1].id,''.join('.%d'%i for i in v[2]))
        if k=='lin': return '+'.join(['%s*%s'%(c,s.atom(a)) for a,c in v[1]]+[str(v[2])])
        if k=='chr': return 'chr%d'%s.n(v[1])
        if k=='fold': return 'fold(%s,%s,%s,%s,%s)'%(v[1],v[2],s.val(v[3]),v[4],[ {k2:s.val(x)} for a in v[1].alts for k2,x in a.steps.items()])
        return repr(v)
    def atom(s,a):
        if a[0]=='addr': return '@%d'%s.n(a[1])
        if a[0]=='num': return '#%d%s'%(a[1].id,''.join('.%d'%i for i in a[2]))
        return repr(a)
    def rule(s,r):
        out=['%s %s'%r.key]
        for st,q,v in r.outs:
            out.append('  OK %s%s%s\n     = %s'%(s.chain(st,r.root,q),s.facts(st.facts,st),s.side(st,st.poss,r.root,q),s.val(v)))
        for o in r.errs:
            out.append('  ERR%s%s'%(s.facts(o.st.facts,o.st),s.side(o.st,o.st.poss,r.root,r.root)))
        return '\n'.join(out)
class _S:
    def __init__(s,r,l): s.refine=r; s.loopmap=l; s.cells={}
if __name__=='__main__':
    import sys
    sys.setrecursionlimit(20000)
    from ir import *; from ev import *
    p=Program(sys.argv[1]); ev=Ev(p)
    for k,b in p.bodies.items():
        if k.split('::')[-1] in sys.argv[2:] and ev.is_parser_body(b):
            spec=[]
            for q in b['params'][1:]:
                t=ev.peel(ev.ty(q['t']))
                spec.append(None if t['k'] in('int','uint') else ('adt','ast::helpers::IR',1,()))
            r=ev.rule((k,tuple(spec)))
            print(r.error.msg if r.error else Show(ev).rule(r))
