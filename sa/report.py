"""Obligations, violations, known findings, evidence and replay files."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Report:
    def __init__(self, pid, t0):
        self.pid = pid
        self.t0 = t0
        self.obls = []          # (id, rule, ok)
        self.viol = []          # (key, text)
        self.info = {}
        self.assumptions = []
        self.trusted = []
        self.samples = []

    def ob(self, oid, ok, text, key=None):
        """One obligation; a failed one is a violation keyed by `key`."""
        self.obls.append((oid, bool(ok)))
        if not ok:
            self.violation(key or oid, text)
        return ok

    def violation(self, key, text):
        if (key, text) not in self.viol:
            self.viol.append((key, text))

    def known(self):
        """Lines 'known: property=<id> key=<key> :: <what fails>'."""
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.rstrip('\n')
                if l.startswith('known: property=%s key=' % self.pid):
                    k, _, what = l[len('known: property=%s key=' % self.pid):].partition(' :: ')
                    out[k] = what
        return out

    def finish(self):
        kn = self.known()
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        bad = []
        for k, t in self.viol:
            if k in kn:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[k]))
            else:
                bad.append((k, t))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        n = len(self.obls)
        cov = {
            'obligations': n,
            'discharged': sum(1 for _, o in self.obls if o),
            'checker_cmd': 'python3 sa/check.py %s' % self.pid,
            'trusted_base': self.trusted,
            'samples': self.samples[:20],
        }
        cov.update(self.info)
        ev = {'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad)}
        with open(os.path.join(ed, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rd = os.path.join(ed, 'replay')
        path = os.path.join(rd, self.pid + '.txt')
        if bad:
            os.makedirs(rd, exist_ok=True)
            with open(path, 'w') as f:
                f.write('property %s: %d violation(s)\n' % (self.pid, len(bad)))
                for k, t in bad:
                    f.write('\n[%s]\n%s\n' % (k, t))
            for k, t in bad[:10]:
                print('%s: [%s] %s' % (self.pid, k, t))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if os.path.exists(path):
            os.remove(path)
        print('%s: %d obligations discharged in %.1fs' % (self.pid, n, time.time() - self.t0))
        return 0
