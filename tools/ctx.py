"""One run of one check: bookkeeping, evidence, verdict."""
import json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
EVID = os.path.join(core.VERIF, 'evidence')

class Ctx:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.rng = random.Random((seed, prop).__repr__())
        self.cov = {}
        self.samples = []
        self.found = []        # confirmed violations
        self.known = []
        self.assume = []
        self.stats = {}
        self.limit = 760 if tier == 'quick' else 12 * 3600
        os.makedirs(EVID, exist_ok=True)

    @property
    def thorough(self): return self.tier == 'thorough'
    def left(self): return self.limit - (time.time() - self.t0)
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v
    def put(self, **kw): self.cov.update(kw)
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, replay):
        """A confirmed violation: what is a line of text, replay a JSON-able record."""
        k = len(self.found)
        key = what if isinstance(what, str) else str(what)
        path = os.path.join(EVID, 'replay-%s-%d.json' % (self.prop, k))
        self.found.append(key)
        if k < 8:
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, what=what, replay=replay), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('  ' + key[:1500].replace('\n', '\n  '), flush=True)

    def finish(self):
        c = self.cov
        if self.level == 'model_checking':
            c.setdefault('states', self.stats.get('distinct', 0))
            c.setdefault('transitions', self.stats.get('generated', 0))
            c.setdefault('traces_validated_against_impl', 0)
        c['samples'] = self.samples
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=c,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.found), assumptions=self.assume)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log('%s: %d violations; %s' % (self.prop, len(self.found),
                 {k: v for k, v in c.items() if isinstance(v, (int, bool))}))
        return 1 if self.found else 0
