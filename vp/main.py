"""./check <property> <quick|thorough>"""
import importlib, json, os, sys, time, traceback
from . import build

EVID = os.path.join(build.VERIF, 'evidence')
MODULES = {}      # property -> module in vp.checks


def known_findings():
    """listed findings: lines 'property=<id> key=<key> <text>' (fixed ones start with 'fixed:')"""
    out = []
    p = os.path.join(build.VERIF, 'known_findings')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                kv = dict(x.split('=', 1) for x in l.split()[:2])
                out.append((kv['property'], kv['key'], l.split(None, 2)[2]))
    return out


class Ctx:
    """what one run of a check collects"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.violations = []
        self.assumptions = []
        self.findings = []
        self.t0 = time.time()
        self.level = 'model_checking'
        rp = os.path.join(EVID, 'replay')
        if os.path.isdir(rp):
            for f in os.listdir(rp):
                if f.startswith(prop + '-'):
                    os.unlink(os.path.join(rp, f))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def model(self, name, ok, gen, dis, out):
        self.add(states=dis, transitions=gen)
        self.cov.setdefault('models', {})[name] = {'distinct_states': dis, 'states_generated': gen}
        if not ok:
            raise RuntimeError('the model %s does not satisfy its own properties (an error of the check):\n%s' % (name, out[-5000:]))

    def violation(self, what, replay, key=None):
        """replay: JSON-able description of the failing history"""
        for p, k, text in known_findings():
            if p == self.prop and key == k:
                if (k, text) not in self.findings:
                    self.findings.append((k, text))
                    print('KNOWN-FINDING: property=%s %s' % (p, text))
                return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'what': what, 'key': key, 'replay': replay}, f, indent=1, default=str)
        self.violations.append(what)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  ' + what[:3000].replace('\n', '\n  '))
        sys.stdout.flush()

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %s, %.1fs, %s' % (self.prop, self.tier, 'VIOLATED' if self.violations else 'held', ev['wall_s'],
              {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from .checks import REGISTRY
    fn = REGISTRY[prop]
    mod, f = fn.split('.')
    ctx = Ctx(prop, tier, seed)
    try:
        getattr(importlib.import_module('vp.checks.' + mod), f)(ctx)
    except build.BuildError as e:
        print('the tree does not build: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
