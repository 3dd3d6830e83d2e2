"""prof.py <dump dir> [seconds]: python stacks when the analysis is slow (dev)."""
import sys,os,threading,faulthandler,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import signal
import traceback
T=int(sys.argv[2]) if len(sys.argv)>2 else 40
def watch():
    for k in range(3):
        time.sleep(T)
        f=sys._current_frames()[th.ident]; print("".join(l for l in traceback.format_stack(f) )[-6000:]); print("-----",flush=True)
    os._exit(1)
sys.setrecursionlimit(200000); threading.stack_size(1<<29)
def main():
    import props,report
    from grammar import Grammar
    rep=report.Report('C04',time.time())
    t=time.time()
    p=props.parser(sys.argv[1],rep); print('eval',time.time()-t,flush=True)
    print(rep.viol)
    g=Grammar(p); print(g.verdict())
    print(time.time()-t)
    for k,s in g.status.items():
        if s!='equal': print(k,s)
    os._exit(0)
th=threading.Thread(target=main); th.start(); watch()
