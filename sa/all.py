"""all.py <dump dir>: every check in one process (for development); prints the
properties that would be violated."""
import os
import sys
import threading
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of evaluation in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
import report


def main():
    out = sys.argv[1]
    only = sys.argv[2:]
    t0 = time.time()
    cache = {}

    def parser(o, rep, every=False):
        key = 'p'
        if key not in cache:
            r = report.Report('X', t0)
            r.trusted = []
            cache[key] = (orig(o, r), r)
        p, r = cache[key]
        rep.viol.extend(r.viol)
        rep.obls.extend(r.obls)
        if every:
            props.unsupported(p, rep)
        return p
    orig = props.parser
    props.parser = parser
    import grammar
    og = grammar.Grammar

    def G(p):
        if 'g' not in cache:
            g = og(p)
            v = g.verdict()
            g.verdict = lambda only=None: v
            cache['g'] = g
        return cache['g']
    grammar.Grammar = G
    bad = {}
    ids = sorted(n[6:] for n in dir(props) if n.startswith('check_'))
    for i in ids:
        if only and i not in only:
            continue
        rep = report.Report(i, t0)
        try:
            props.run(i, out, rep)
        except Exception as x:
            if os.environ.get('SA_DEBUG'):
                import traceback
                traceback.print_exc()
            rep.violation('analysis', '%s: %s' % (type(x).__name__, x))
        if rep.viol:
            bad[i] = rep.viol
    seen = set()
    for i in bad:
        for k, t in bad[i]:
            if (k, t) not in seen:
                seen.add((k, t))
                print('   [%s] %s' % (k, t[:400]))
    if 'g' in cache:
        for k, s in cache['g'].status.items():
            if s not in ('equal',):
                print('   -', k[0], k[1], s[:300])
    print('VIOLATED' if bad else 'QUIET', ' '.join(bad), '%.1fs' % (time.time() - t0))


sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)
th = threading.Thread(target=main)
import resource
resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
th.start()
th.join()
sys.stdout.flush()
os._exit(0)
