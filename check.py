#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE]: decides one property; see DESIGN.md."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import build

VERIF = build.VERIF
TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class Report:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov, self.assume, self.viol = {}, [], []
        self.known = []
        try:
            for l in open(VERIF + '/known-findings.txt'):
                l = l.strip()
                if l.startswith('known: property=%s ' % prop): self.known.append(l.split(' ', 2)[2])
        except OSError: pass
    def violation(self, key, detail, kind='finding'):
        """key identifies the failing input or history; detail goes into the replay file."""
        for k in self.known:
            if key == k.split(' :: ')[0]:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k)); return
        self.viol.append((key, detail))
    def finish(self):
        d = build.BUILD + '/replay'; os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.prop + '-'): os.unlink(d + '/' + f)
        for i, (key, detail) in enumerate(self.viol[:20]):
            path = '%s/%s-%d.json' % (d, self.prop, i)
            json.dump(dict(property=self.prop, key=key, tier=TIER, seed=SEED, detail=detail), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('   ' + key + ': ' + str(detail.get('reason', ''))[:400])
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        tmp = '%s/evidence/.%s.tmp' % (VERIF, self.prop)
        json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, '%s/evidence/%s.json' % (VERIF, self.prop))
        print('%s: %s, %d violations, %.1f s' % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})[:600], len(self.viol), ev['wall_s']))
        return 1 if self.viol else 0

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    prop = args[0]
    if prop < 'C20':
        import conncheck; return conncheck.check(prop, Report(prop, 'model_checking'), TIER, SEED)
    if prop == 'C28':
        import ctcheck; return ctcheck.check(prop, Report(prop, 'model_checking'), TIER, SEED)
    import crycheck; return crycheck.check(prop, Report(prop, 'model_checking'), TIER, SEED)

if __name__ == '__main__':
    try: rc = main()
    except build.ToolError as e:
        print('ERROR: ' + str(e)); rc = 2
    sys.stdout.flush(); sys.exit(rc)
