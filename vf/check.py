"""Reports: what was analysed, verdicts, evidence files."""
import json
import os
import sys
import time
import traceback

from . import terms as T
from .terms import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Report(object):
    def __init__(self, prop, tier, technique, rule, assumptions=(), level='static-analysis'):
        self.prop, self.tier, self.technique, self.rule = prop, tier, technique, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.ok, self.bad, self.undecided, self.known = [], [], [], []
        self.analysed = set()
        self.level = level
        self.extra = {}
        self.broken = []
        self.count = {}

    # one obligation
    def good(self, unit):
        self.ok.append(unit)

    def violation(self, unit, where, text):
        self.bad.append((unit, where, text))

    def unknown(self, unit, why):
        self.undecided.append((unit, why))

    def run(self, unit, fn):
        """fn() reports itself; a construct the analysis does not model makes the unit undecided"""
        try:
            return fn()
        except Unsupported as e:
            self.unknown(unit, str(e))
        except RecursionError:
            self.unknown(unit, 'term too deep')
        except Exception as e:                                       # an analysis failure is no verdict
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.unknown(unit, 'analysis failed: %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None

    def parallel(self, fn, items):
        """fn(item) reports to this report; done in parallel processes"""
        from .par import pmap

        def one(item):
            self.ok, self.bad, self.undecided, self.analysed = [], [], [], set()
            self.count = {}
            fn(item)
            return (self.ok, self.bad, self.undecided, self.analysed, self.count)
        keep = (self.ok, self.bad, self.undecided, self.analysed, self.count)
        res = pmap(one, items)
        self.ok, self.bad, self.undecided, self.analysed, self.count = keep
        for ok, bad, dunno, seen, count in res:
            self.ok += ok
            self.bad += bad
            self.undecided += dunno
            self.analysed |= seen
            for k, v in count.items():
                self.count[k] = self.count.get(k, 0) + v

    def tally(self, what, n=1):
        self.count[what] = self.count.get(what, 0) + n

    def finish(self):
        self.extra.update(self.count)
        known = load_known(self.prop)
        fresh, shown = [], []
        for v in self.bad:
            k = match_known(known, v)
            if k:
                shown.append(k)
            else:
                fresh.append(v)
        out = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
        os.makedirs(out, exist_ok=True)
        vfile = os.path.join(out, self.prop + '.violations.txt')
        if os.path.exists(vfile):
            os.remove(vfile)
        total = len(self.ok) + len(self.bad) + len(self.undecided)
        print('%s: %d obligations, %d hold, %d violated, %d undecided (%.1f s)' % (
            self.prop, total, len(self.ok), len(self.bad), len(self.undecided), time.time() - self.t0))
        for u, why in self.undecided:
            print('UNDECIDED %s: %s' % (u, why))
        for k in sorted(set(shown)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'coverage': {'explanation': '%s. Rule: %s' % (self.technique, self.rule),
                         'obligations': total, 'discharged': len(self.ok), 'undecided': len(self.undecided),
                         'violated': ['%s at %s: %s' % (u, w, t[:400]) for u, w, t in fresh], 'known_findings': len(shown),
                         'functions_analysed': len(self.analysed),
                         'functions': sorted(self.analysed)[:400],
                         'units': sorted(set(self.ok))[:400],
                         'undecided_units': ['%s: %s' % x for x in self.undecided][:50]},
            'wall_s': round(time.time() - self.t0, 3),
            'assumptions': self.assumptions,
            'violations': len(fresh),
        }
        ev['coverage'].update(self.extra)
        with open(os.path.join(out, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if fresh:
            with open(vfile, 'w') as f:
                for u, w, t in fresh:
                    f.write('%s\n  at %s\n  %s\n\n' % (u, w, t))
            for u, w, t in fresh[:12]:
                print('  %s at %s: %s' % (u, w, t[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, vfile))
            return 1
        if self.broken:
            print('cannot decide %s: %s' % (self.prop, '; '.join(self.broken)))
            return 2
        if total == 0:
            print('cannot decide %s: nothing could be analysed' % self.prop)
            return 2
        if len(self.undecided) == total:
            print('NOTHING DECIDED for %s: the constructs listed as undecided are outside the analysis' % self.prop)
        return 0


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key, text))
    return out


def match_known(known, v):
    for key, text in known:
        if key == v[0]:
            return text or key
    return None
