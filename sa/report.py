"""Outcome of one check: obligations, violations, evidence, known findings."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS')


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = {}           # kind -> [obligations, discharged]
        self.viols = []
        self.undec = {}
        self.notes = {}
        self.functions = set()
        self.sets = {}
        self.samples = []
        self.rules = []
        self.assumptions = []

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def ob(self, kind, n=1, ok=None):
        """n obligations of a kind, `ok` of them discharged (default all)"""
        r = self.obl.setdefault(kind, [0, 0])
        r[0] += n
        r[1] += n if ok is None else ok

    def undecided(self, why, n=1):
        self.undec[why] = self.undec.get(why, 0) + n

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def add(self, k, *xs):
        self.sets.setdefault(k, set()).update(xs)

    def viol(self, rule, where, function, message, context='', witness=None, path=''):
        """a construct that breaks the property.  `key` identifies it without line numbers"""
        key = '%s|%s' % (rule, function)
        for v in self.viols:
            if v['key'] == key and v['where'] == where:
                v['contexts'] = v.get('contexts', 1) + 1
                return
        self.viols.append(dict(property=self.pid, key=key, rule=rule, where=where, function=function, path=path,
                               context=context, message=message, witness=witness))

    def finish(self, level, explanation):
        known = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                ln = ln.strip()
                if ln.startswith('finding: property=%s key=' % self.pid):
                    k, _, what = ln.split('key=', 1)[1].partition(' :: ')
                    known[k] = what
        new = []
        for v in self.viols:
            if v['key'] in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[v['key']]))
            else:
                new.append(v)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        nob = sum(o[0] for o in self.obl.values())
        nok = sum(o[1] for o in self.obl.values())
        cov = dict(explanation=explanation, rules=self.rules, obligations=nob, discharged=nok,
                   by_kind={k: dict(obligations=o[0], discharged=o[1]) for k, o in sorted(self.obl.items())},
                   undecided=dict(sorted(self.undec.items())), analysed_functions=sorted(self.functions)[:400],
                   counts=self.notes, samples=self.samples[:6])
        for k, s in self.sets.items():
            cov[k] = sorted(s)[:400]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(new))
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s %s: %d obligations, %d discharged, %d undecided, %d functions, %.1f s' % (
            self.pid, self.tier, nob, nok, sum(self.undec.values()), len(self.functions), time.time() - self.t0))
        rp = os.path.join(HERE, 'evidence', self.pid + '.violations.json')
        if not new:
            if os.path.exists(rp):
                os.remove(rp)
            return 0
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:10]:
            print('  %s: %s in %s%s' % (v['rule'], v['where'], v['function'], (' via ' + v['path']) if v['path'] else ''))
            print('    %s' % v['message'])
            if v['context']:
                print('    context: %s' % v['context'])
            if v['witness']:
                print('    witness: %s' % (v['witness'],))
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1
