"""Rule bookkeeping, reports, known findings and evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check(object):
    def __init__(self, pid, prog, tier='quick', seed=1, repo='/repo'):
        self.pid = pid
        self.prog = prog
        self.tier = tier
        self.seed = seed
        self.repo = repo
        self.reports = []          # (key, rule, where, message)
        self.rules = {}            # rule -> description
        self.counts = {}
        self.obl = {}              # rule -> [obligations, discharged, undecided]
        self.undecided = []
        self.samples = []
        self.errors = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text
        self.obl.setdefault(name, [0, 0, 0])

    def ok(self, rule, n=1, sample=None):
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[0] += n
        o[1] += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def open(self, rule, what, n=1):
        """an obligation the analysis could not decide: recorded, never reported"""
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[0] += n
        o[2] += n
        if len(self.undecided) < 60:
            self.undecided.append('%s: %s' % (rule, what))

    def bad(self, rule, where, message, key=None):
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[0] += 1
        key = key or '%s|%s' % (rule, message)
        if any(r[0] == key for r in self.reports):
            return
        self.reports.append((key, rule, where, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def guard(self, rule, fn, *args):
        """run one rule; an internal failure leaves it undecided"""
        try:
            return fn(*args)
        except Exception as e:          # analysis gave up
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.errors.append('%s: %s: %s (%s:%d)' % (rule, type(e).__name__, str(e)[:200],
                                                     os.path.basename(tb.filename), tb.lineno))
            self.open(rule, 'analysis gave up: %s: %s' % (type(e).__name__, str(e)[:120]))


def known_findings():
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


def finish(c, t0, explanation, level='other'):
    known = {k['key']: k for k in known_findings() if k['property'] == c.pid}
    new = []
    listed = []
    for r in c.reports:
        (listed if r[0] in known else new).append(r)
    n = sum(o[0] for o in c.obl.values())
    d = sum(o[1] for o in c.obl.values())
    u = sum(o[2] for o in c.obl.values())
    cov = {
        'explanation': explanation,
        'rules': {k: {'text': c.rules.get(k, ''), 'obligations': o[0], 'discharged': o[1], 'undecided': o[2]}
                  for k, o in sorted(c.obl.items())},
        'obligations': n, 'discharged': d, 'undecided': u,
        'measured': dict(sorted(c.counts.items())),
        'samples': c.samples[:12],
        'undecided_items': c.undecided[:60],
        'analysis_errors': c.errors,
    }
    ev = {'property': c.pid, 'tier': c.tier, 'seed': c.seed, 'level': level, 'coverage': cov,
          'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, c.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for r in listed:
        print('KNOWN-FINDING: property=%s %s' % (c.pid, known[r[0]]['what']))
    if n == 0 or (c.errors and d == 0 and not new):
        print('%s: the analysis found nothing to decide: %s' % (c.pid, '; '.join(c.errors[:5])))
        return 2
    if new:
        vp = os.path.join(edir, c.pid + '.violation.json')
        with open(vp, 'w') as f:
            json.dump([{'key': k, 'rule': ru, 'rule_text': c.rules.get(ru, ''), 'where': w, 'message': m}
                       for k, ru, w, m in new], f, indent=1)
        for k, ru, w, m in new[:20]:
            print('%s: [%s] %s: %s' % (c.pid, ru, w, m))
        print('VIOLATION property=%s replay=%s' % (c.pid, os.path.relpath(vp, HERE)))
        return 1
    print('%s: held: %d obligations, %d discharged, %d undecided, %d known finding(s), %.2fs'
          % (c.pid, n, d, u, len(listed), time.time() - t0))
    return 0
