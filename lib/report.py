"""Verdicts, evidence and replay files."""
import json, os, random, sys, time, traceback
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.json')


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.np = np.random.default_rng(self.seed * 1000 + int(pid[1:]))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = {}
        self.samples = []
        self.viol = []
        self.known_hits = {}
        self.counts = {}
        self.assumptions = []
        self.findings = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                self.findings = [k for k in json.load(f)['known'] if k['property'] == pid]

    thorough = property(lambda s: s.tier == 'thorough')

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, name, r):
        m = self.models.setdefault(name, dict(runs=0, states=0, transitions=0))
        m['runs'] += 1
        m['states'] += r.distinct
        m['transitions'] += r.generated
        self.states += r.distinct
        self.transitions += r.generated

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def known(self, fid, what):
        """record an occurrence of a listed finding; a violation if not listed"""
        if any(k['id'] == fid for k in self.findings):
            self.known_hits.setdefault(fid, [0, what])[0] += 1
            return True
        self.violation(fid, what)
        return False

    def violation(self, clause, detail):
        if len(self.viol) < 40:
            self.viol.append(dict(clause=clause, detail=jsonable(detail)))
        else:
            self.viol.append(None)

    def finish(self):
        out = os.path.join(ROOT, 'out', self.pid)
        replay = None
        if self.viol:
            os.makedirs(out, exist_ok=True)
            replay = os.path.join(out, 'violation-%s-%d.json' % (self.tier, self.seed))
            with open(replay, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               rerun='VERIF_SEED=%d VERIF_TIER=%s %s/check %s' % (self.seed, self.tier, ROOT, self.pid),
                               violations=[v for v in self.viol if v]), f, indent=1)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples or ['none'], models=self.models, counts=self.counts,
                                known_findings={k: v[0] for k, v in self.known_hits.items()}),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for fid, (n, what) in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s (%d occurrences; %s)' % (self.pid, fid, n, what))
        if self.viol:
            for v in [v for v in self.viol if v][:5]:
                print('  %s: %s' % (v['clause'], json.dumps(v['detail'])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        print('ok %s: %d states, %d transitions, %d traces, %.1fs %s' % (
            self.pid, self.states, self.transitions, self.traces, time.time() - self.t0,
            json.dumps(self.counts)))
        return 0
