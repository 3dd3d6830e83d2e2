"""tm.py <dump> [secs]: per-rule evaluation times and path counts (dev)."""
import sys,os,time,threading
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000); threading.stack_size(1<<29)
T=int(sys.argv[2]) if len(sys.argv)>2 else 60
def main():
    from ir import Program
    import ev as E
    o=E.Ev.eval_rule
    def w(self,r):
        t=time.time()
        try: return o(self,r)
        finally:
            d=time.time()-t
            if d>.2: print('%6.2fs outs %d %s inl=%s'%(d,len(getattr(r,'outs',[]) or []),r.key,[x.split('::')[-1] for x in self.inline]),flush=True)
    E.Ev.eval_rule=w
    if os.environ.get('NI'):
        c=E.Ev.eval_rule
        def w2(self,r):
            try: return c(self,r)
            except E.NeedInline as n:
                import traceback
                print(r.key[0],'NeedInline',n.call.rule[0]); print(''.join(traceback.format_tb(n.__traceback__)[-5:]))
                raise
        E.Ev.eval_rule=w2
    ev=E.Ev(Program(sys.argv[1]+'/elm_parser.json'))
    for k,b in ev.prog.bodies.items():
        if ev.is_parser_body(b):
            n=[]
            for q in b['params'][1:]:
                t=ev.peel(ev.ty(q['t'])); n.append(None if t['k'] in('int','uint') else '?')
            if '?' not in n: ev.rule((k,tuple(n)))
    os._exit(0)
th=threading.Thread(target=main,daemon=True); th.start(); th.join(T); os._exit(1)
