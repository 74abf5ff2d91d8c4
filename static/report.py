"""Common frame of all checks: findings, known findings, evidence, exit code."""
import json
import os
import sys
import time
import traceback

from scopes import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
KNOWN = os.path.join(ROOT, 'known-findings.txt')


class Finding(object):
    """One broken construct.  key identifies it independently of line
    numbers."""

    def __init__(self, rule, where, construct, message, line=0, trace=()):
        self.rule = rule
        self.where = where
        self.construct = construct
        self.message = message
        self.line = line
        self.trace = list(trace)

    @property
    def key(self):
        return '%s | %s | %s' % (self.rule, self.where, self.construct)

    def text(self):
        return '%s: line %s: %s: %s' % (self.where, self.line,
                                        self.construct, self.message)


class Report(object):
    def __init__(self):
        self.findings = []
        self.counts = {}            # what was analysed, measured
        self.samples = []
        self.explanation = ''
        self.assumptions = []
        self.open = []              # operations the analysis left undecided

    def undecided(self, names):
        self.open += names
        self.count('operations left undecided', len(names))

    def add(self, *a, **kw):
        f = Finding(*a, **kw)
        if f.key not in {g.key for g in self.findings}:
            self.findings.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least=1):
        """A rule that matched nothing has checked nothing."""
        if self.counts.get(name, 0) < least:
            raise AnalysisError('vacuous: %s = %d, expected at least %d' % (
                name, self.counts.get(name, 0), least))


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def main(prop, fn):
    t = time.time()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        rep = fn(tier)
    except AnalysisError as e:
        print('ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = known_findings(prop)
    bad = []
    for f in rep.findings:
        if f.key in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (
                prop, known[f.key], f.key))
        else:
            bad.append(f)
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    cov = {'explanation': rep.explanation}
    cov.update(rep.counts)
    cov['samples'] = rep.samples[:12]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t, 2),
          'assumptions': rep.assumptions,
          'violations': [f.text() for f in bad]}
    if rep.open:
        ev['undecided'] = rep.open
    with open(os.path.join(edir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %s' % (prop, ', '.join('%s %s' % (v, k) for k, v in
                                      rep.counts.items())))
    for x in rep.open:
        print('UNDECIDED %s: %s' % (prop, x))
    if bad:
        rp = os.path.join(edir, prop + '.replay.json')
        with open(rp, 'w') as fh:
            json.dump([dict(rule=f.rule, where=f.where, line=f.line,
                            construct=f.construct, message=f.message,
                            trace=f.trace) for f in bad], fh, indent=1)
        for f in bad:
            print('  ' + f.text())
            for s in f.trace:
                print('      via ' + str(s))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
