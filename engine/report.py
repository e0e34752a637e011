"""Obligations, known findings, evidence files and exit codes."""
import contextlib, json, os, sys, time
from . import vg

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))

def known():
    """{(property, key): text} of the recorded, unrepaired defects"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                head, _, text = l[9:].partition(' | ')
                f = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                out[(f['property'], f['key'])] = text
    return out

current = []
configurations = []
def evidence():
    return os.environ.get('ENGABRA_EVIDENCE') or os.path.join(VERIF, 'evidence')
class Report:
    def __init__(self, pid, tier, rule):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.bad = []
        self.samples = []
        self.counts = {}
        self.functions = set()
        self.assume = []
        self.found = []
        self.known = known()
        self.gaps = []
        current.append(self)
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def hold(self, what, cond, key=None, where=None, expected=None, found=None, path=None):
        """one obligation"""
        self.obl += 1
        if cond:
            self.ok += 1
            return True
        k = (self.pid, key) if key else None
        if k in self.known:
            if key not in [f[0] for f in self.found]:
                self.found.append((key, self.known[k]))
            self.ok += 1
            return False
        self.bad.append({'obligation': what, 'where': where, 'expected': expected, 'found': found, 'path': path})
        return False
    @contextlib.contextmanager
    def attempt(self, sig):
        """one item; what the analysis cannot model is a gap (no answer), which
        neither hides violations found elsewhere nor passes"""
        try:
            yield
        except vg.NeverReturns as e:
            self.hold('%s yields a result' % sig, False, expected='a path to a return', found=str(e))
        except vg.Unmodelled as e:
            if (sig, str(e)) not in self.gaps: self.gaps.append((sig, str(e)))
    def finish(self):
        ev = evidence()
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(os.environ.get('ENGABRA_REPLAY') or ev, self.pid + '.violation.json')
        if os.path.exists(rep) and rep.startswith(ev): os.remove(rep)
        cov = {'explanation': self.rule, 'obligations': self.obl, 'discharged': self.ok - len(self.found)}
        cov.update(self.counts)
        cov['configurations'] = ['default'] + [f.name for f in configurations]
        cov['functions_analysed'] = len(self.functions)
        if self.functions: cov['functions'] = sorted(self.functions)[:400]
        cov['samples'] = self.samples
        if self.found: cov['known_findings'] = [k for k, _ in self.found]
        d = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
             'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.bad)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1); f.write('\n')
        for k, t in self.found:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        if not self.obl:
            print('%s: no obligation was generated' % self.pid, file=sys.stderr)
            return 2
        if self.bad:
            with open(rep, 'w') as f:
                json.dump({'property': self.pid, 'rule': self.rule, 'violations': self.bad[:200], 'count': len(self.bad)}, f, indent=1, default=str)
            for b in self.bad[:8]:
                print('%s: %s%s\n    expected: %s\n    found:    %s%s' % (self.pid, b['obligation'], ' at ' + str(b['where']) if b['where'] else '', short(b['expected']), short(b['found']),
                                                                     '\n    when:     ' + short(b['path']) if b['path'] else ''))
            if len(self.bad) > 8: print('    ... and %d more' % (len(self.bad) - 8))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        if self.gaps:
            for s, e in self.gaps[:6]: print('%s: no answer for %s: outside the analysed fragment: %s' % (self.pid, s, e))
            return 2
        print('%s: held; %d obligations over %d functions (%.1f s)' % (self.pid, self.obl, len(self.functions), time.time() - self.t0))
        return 0

def short(x):
    s = str(x)
    return s if len(s) < 400 else s[:397] + '...'
