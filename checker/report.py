"""Findings, the known-findings file, evidence and exit codes."""
import json
import os
import re
import sys
import time

from .model import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Finding:
    def __init__(self, key, message, where):
        self.key, self.message, self.where = key, message, where


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.findings = []
        self.undecided_list = []
        self.counts = {}
        self.samples = []
        self.analysed = set()
        self.rules = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def seen(self, *whats):
        self.analysed.update(str(w) for w in whats)

    def ok(self, sample=None, n=1):
        self.obligations += n
        self.discharged += n
        if sample and len(self.samples) < 400:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, key, message, where=''):
        self.obligations += 1
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, message, where))

    def undecided(self, message, where=''):
        self.obligations += 1
        m = f'{where}: {message}' if where else message
        if m not in self.undecided_list:
            self.undecided_list.append(m)

    def floor(self, name, value, minimum):
        self.counts[name] = value
        if value < minimum:
            raise AnalysisBroken(f'{name}: found {value}, expected at least {minimum}; the analysis lost its anchor')


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            m = re.match(r'known: property=(\S+) key=<([^>]*)> (.*)$', line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def run(prop, title, fn, level='other', explanation=''):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier)
    from . import absint
    absint.BUDGET['deadline'] = time.monotonic() + 600
    try:
        fn(ctx)
    except absint.TooLong as e:
        ctx.undecided(f'the analysis of {e} exceeded the time budget; the remaining obligations were not reached')
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print(f'ANALYSIS-BROKEN property={prop}: internal error')
        sys.exit(2)
    known = load_known()
    new, old = [], []
    for f in ctx.findings:
        (old if (prop, f.key) in known else new).append(f)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    nontrivial = ctx.obligations
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': explanation,
            'rule': ' | '.join(ctx.rules),
            'obligations': ctx.obligations,
            'discharged': ctx.discharged,
            'undecided': len(ctx.undecided_list),
            'counts': ctx.counts,
            'constructs_analysed': len(ctx.analysed),
            'constructs': sorted(ctx.analysed)[:600],
            'samples': ctx.samples[:60],
            'undecided_items': ctx.undecided_list[:200],
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w', encoding='utf-8') as fp:
        json.dump(ev, fp, indent=1)
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {known[(prop, f.key)]} [{f.where}]')
    print(f'{prop} {title}: {ctx.obligations} obligations, {ctx.discharged} discharged, {len(ctx.undecided_list)} undecided, '
          f'{len(old)} known, {len(new)} new; {len(ctx.analysed)} constructs analysed in {time.time() - t0:.1f}s')
    if os.environ.get('VERIF_VERBOSE'):
        for u in ctx.undecided_list:
            print('  undecided:', u)
    if new:
        rp = os.path.join(evdir, f'{prop}.violation.json')
        with open(rp, 'w', encoding='utf-8') as fp:
            json.dump({'property': prop, 'violations': [{'key': f.key, 'where': f.where, 'message': f.message} for f in new]},
                      fp, indent=1)
        for f in new:
            print(f'  {f.where}: {f.message}  key=<{f.key}>')
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    sys.exit(0)
