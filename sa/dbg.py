import sys
sys.setrecursionlimit(100000)
import props, grammar, bisim, lang
from show import Show
p=props.Parser(sys.argv[1]); g=grammar.Grammar(p)
cut=set(k for k in g.impl if not g.nullable[k])
if sys.argv[2]=='1': cut=set(grammar.CORE)
n=sys.argv[3]
sk=[k for k in g.spec.defs if k[0].split('::')[-1]==n and k in g.impl][0]
class R(bisim.Run): pass
keep=[]
orig=bisim.Run.compare
def cmp(self,*a):
    keep.append(self)
    r=orig(self,*a); keep.append(r); return r
bisim.Run.compare=cmp
print(g.compare1(sk,cut,frozenset(),6000)[0])
run,m=keep
def nm(k):
    return k[0].split('::')[-1] if isinstance(k,tuple) and k and isinstance(k[0],str) else str(k)
def pv(v,d=0):
    t=run.conts[v]
    if t[0]=='V':
        k=t[1]
        if isinstance(k,tuple) and k[0]=='L': return 'L'+pi(k[1])
        return repr(k)[:400]
    return '?'
def pn(n,d=0):
    if n is None or d>8: return '..'
    x=n.kind
    if n.kind in('set','many','lit','any'): x+=str(n.data)[:30]
    if n.kind=='call': x+=nm(n.data[0])
    if n.kind in('alt','star'): x+='('+'|'.join(pn(y,d+1) for y in n.data)+')'
    if n.tests: x+='{T%s}'%(n.tests,)
    if n.eofs: x+='{E%s}'%(n.eofs,)
    for pol,bs in n.looks: x+='{%s%s}'%('' if pol else '!',' OR '.join(pn(b,d+1) for b in bs))
    return x+' '+(pn(n.nxt,d+1) if n.nxt else '')
def pi(c):
    t=run.conts[c]
    if t[0]=='DONE': return 'DONE%s'%(t[1:],)
    return '[%s @%s env=%s up=%s]'%(pn(t[0]),t[1],t[2],t[3])
def pb(b):
    if b<=1: return str(b)
    v,h,l=run.bdd.nodes[b]
    return 'if(%s ? %s : %s)'%(pv(v),pb(h),pb(l))
def show(S):
    if isinstance(S,int): return pb(S)
    return '\n'.join('   %s pend=%s when %s'%(pi(c),str(pd)[:200],pb(b)) for (c,pd),b in S)
k=m.a
for l in m.word: print('  ',l)
print(k[0]);print('A',show(k[1]));print('B',show(k[2]))
if m.word and k[0]=='post':
    r2=run=bisim.Run(run.comp,run.resolve,run.first,limit=6000)
    orr=r2.read
    def em(kind,A,B,L,C,nr):
        x=orr(kind,A,B,L,C,nr)
        if kind=='post':
            print('POST',L,pb(A),'####',pb(B))
            for C2,res in x:
                for ann,a,b in res: print('    ->',pb(a),'\n    ##',pb(b))
        return x
    r2.read=em
    ik=g.impl[sk]
    orig(r2,g.ev.rule(ik),g.spec.rule(sk),(((),()),),((),) if g.numeric(g.ev.rule(ik)) else (),g.spec.rule(sk).nparams)
