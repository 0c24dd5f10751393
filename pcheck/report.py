"""Obligations, findings, evidence."""
import json, os, sys, time
from .load import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.rules, self.viol, self.n, self.ok = {}, [], 0, 0
        self.analysed = {}
        self.assume = []
        self.samples = []
        self.seen = set()

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = {'text': text, 'min': minimum, 'instances': 0, 'held': 0}

    def ob(self, rid, construct, ok, detail='', loc=''):
        """one obligation: rule instance at a construct"""
        r = self.rules[rid]
        r['instances'] += 1
        self.n += 1
        if ok:
            r['held'] += 1
            self.ok += 1
            if len([s for s in self.samples if s['rule'] == rid]) < 2:
                self.samples.append({'rule': rid, 'construct': construct, 'held': True, 'loc': loc})
        else:
            key = '%s:%s' % (rid, construct)
            if key not in self.seen:
                self.seen.add(key)
                self.viol.append({'key': key, 'rule': rid, 'construct': construct, 'rule_text': r['text'], 'detail': detail, 'loc': loc})
        return ok

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def assumption(self, t):
        if t not in self.assume:
            self.assume.append(t)

    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        out = {}
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('finding:'):
                    # finding: property=C01 key=<rule:construct> | what fails
                    head, _, what = line[len('finding:'):].partition('|')
                    kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
                    if kv.get('property') == self.prop:
                        out[kv.get('key', '').replace('%20', ' ')] = what.strip()
        return out

    def finish(self, explanation):
        short = [(r, d) for r, d in self.rules.items() if d['instances'] < d['min']]
        known = self.known()
        unlisted = [v for v in self.viol if v['key'] not in known]
        if short and not unlisted:
            for r, d in short:
                print('ANALYSIS-BROKEN %s: rule %s (%s) matched %d instances, expected at least %d'
                      % (self.prop, r, d['text'], d['instances'], d['min']))
            sys.exit(2)
        for k, d in self.rules.items():
            print('%s rule %-28s %4d instances, %4d hold  -- %s' % (self.prop, k, d['instances'], d['held'], d['text']))
        for k, v in sorted(self.analysed.items()):
            print('%s analysed %s: %d' % (self.prop, k, v))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other',
              'coverage': {'explanation': explanation, 'obligations': self.n, 'discharged': self.ok,
                           'rules': self.rules, 'analysed': self.analysed, 'samples': self.samples[:40]},
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(unlisted)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.viol:
            if v['key'] in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[v['key']]))
        if unlisted:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(unlisted, f, indent=1, default=str)
            for v in unlisted:
                print('  %s: rule %s broken by %s: %s' % (v['loc'] or '?', v['rule'], v['construct'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.exit(1)
        print('%s: %d obligations, all discharged (%d known findings), %.1fs'
              % (self.prop, self.n, len(self.viol), time.time() - self.t0))
        sys.exit(0)
