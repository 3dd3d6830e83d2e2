import sys,time
sys.setrecursionlimit(100000)
import props, grammar
p=props.Parser(sys.argv[1]); g=grammar.Grammar(p)
print('missing', [k for k in g.spec.defs if k not in g.impl])
cut=set(k for k in g.impl if not g.nullable[k])
lvl=sys.argv[2]
names=sys.argv[3:]
if lvl=='1': cut=set(grammar.CORE)
for sk in g.spec.defs:
    if names and sk[0].split('::')[-1] not in names: continue
    t=time.time()
    r=g.compare(sk, cut, frozenset())
    print(sk[0],sk[1],'EQ' if r is None else r,g.log[-1][1] if g.log else 0,'%.2fs'%(time.time()-t),flush=True)
