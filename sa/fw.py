"""Report framework: obligations, violations, known findings, evidence."""
import hashlib, json, os, sys, time
import build
from facts import Facts

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')

class Report:
    def __init__(self, pid, level='other'):
        self.pid = pid; self.level = level
        self.obl = 0; self.held = 0
        self.viol = {}          # key -> text
        self.undecided = {}     # key -> reason
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.sites = set()
        self.floors = []

    def rule(self, s): self.rules.append(s)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def ok(self, key, sample=None):
        self.obl += 1; self.held += 1
        if sample is not None and len(self.samples) < 12: self.samples.append({'obligation': key, 'detail': sample})
        elif len(self.samples) < 12: self.samples.append({'obligation': key})
    def bad(self, key, text):
        """a violation; key names the construct without line numbers"""
        self.obl += 1
        self.viol.setdefault(key, text)
    def check(self, cond, key, text, sample=None):
        if cond: self.ok(key, sample)
        else: self.bad(key, text)
    def undec(self, key, why):
        self.obl += 1
        self.undecided.setdefault(key, str(why)[:300])
    def floor(self, name, got, want):
        """instance floor: the analysis must not silently match (almost) nothing"""
        self.floors.append((name, got, want))

def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                m = dict(x.split('=', 1) for x in l.split('  ')[1:3])
                out.setdefault(m['property'], {})[m['key']] = l.split('  ', 3)[3] if l.count('  ') >= 3 else ''
    return out

def load():
    d, h, n = build.ensure_facts()
    F = Facts(d)
    F.srchash = h; F.nfiles = n
    return F

def finish(R, F, t0):
    kf = known().get(R.pid, {})
    viol = {k: v for k, v in R.viol.items() if k not in kf}
    for k in R.viol:
        if k in kf: print('KNOWN-FINDING: property=%s %s' % (R.pid, kf[k] or k))
    for n, got, want in R.floors:
        if got < want: viol['floor:' + n] = 'analysed only %d instances of %s, at least %d were confirmed by reading: the anchor of the rule is gone' % (got, n, want)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tier = os.environ.get('VERIF_TIER', 'quick')
    ev = {
        'property': R.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': R.level,
        'coverage': {
            'explanation': '; '.join(R.rules),
            'obligations': R.obl, 'discharged': R.held, 'undecided': len(R.undecided),
            'undecided_list': [{'key': k, 'reason': v} for k, v in sorted(R.undecided.items())][:60],
            'known_findings_matched': sorted(k for k in R.viol if k in kf),
            'instances': R.counts, 'floors': [{'what': a, 'seen': b_, 'floor': c} for a, b_, c in R.floors],
            'functions_analysed': len(R.sites), 'functions': sorted(R.sites)[:400],
            'source_files': F.nfiles, 'source_hash': F.srchash, 'bodies_in_program': len(F.bodies),
            'samples': R.samples or ['no obligation'],
        },
        'assumptions': R.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', R.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known) in %.1fs' % (R.pid, R.obl, R.held, len(R.undecided), len(viol), len(R.viol) - len([k for k in R.viol if k not in kf]), time.time() - t0))
    for k, v in list(R.undecided.items())[:20]: print('  undecided', k, ':', v)
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'replay', R.pid + '.json')
        with open(rp, 'w') as f: json.dump([{'key': k, 'report': v} for k, v in viol.items()], f, indent=1)
        for k, v in list(viol.items())[:25]: print('  violation', k, ':', v)
        print('VIOLATION property=%s replay=%s' % (R.pid, rp))
        return 1
    return 0
