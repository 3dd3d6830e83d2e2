"""check.py <property id>: decide one property of /repo's current source."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of evaluation in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import report


def main():
    pid = sys.argv[1]
    t0 = time.time()
    rep = report.Report(pid, t0)
    os.makedirs(build.BUILD, exist_ok=True)
    out = os.environ.get('ELM_DUMP')
    tmp = None
    if out is None:
        out = tmp = tempfile.mkdtemp(prefix='dump-', dir=build.BUILD)
    try:
        if tmp:
            build.dump(out)
        import props
        try:
            props.run(pid, out, rep)
        except Exception as x:   # the analysis gives no verdict: fail closed
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            rep.violation('analysis', 'the analysis does not cover this source: %s: %s' % (type(x).__name__, x))
    except build.BuildFailed as x:
        print(x)
        return 2
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    rc = []
    th = threading.Thread(target=lambda: rc.append(main()))
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t0 = time.time()
    th.start()
    th.join(780)
    if th.is_alive():
        # the unchanged tree takes seconds
        rep = report.Report(sys.argv[1], t0)
        rep.violation('analysis', 'undecided: the analysis of this source does not come to an end in time')
        rc = [rep.finish()]
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
