#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current sources."""
import importlib, json, os, re, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'engine'), VERIF]
sys.setrecursionlimit(20000)
KNOWN = os.path.join(VERIF, 'known_findings.txt')

from props import registry
MODULES = {p['id']: p['module'] for p in registry.PROPS}


class Broken(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.verif = VERIF
        self.repo = os.environ.get('PBSA_REPO', '/repo')
        self.cfgs = ['linux', 'windows']
        self.found = []
        self.coverage = {}
        self.assumptions = []
        self._p = {}

    def prog(self, cfg='linux'):
        if cfg not in self._p:
            import ir
            self._p[cfg] = ir.Program(cfg)
        return self._p[cfg]

    def violation(self, key, loc, msg, more=''):
        if not any(v[0] == key for v in self.found):
            self.found.append((key, loc, msg, more))

    def broken(self, msg):
        raise Broken(msg)

    def need(self, n, least, what):
        """a rule that lost its subjects decides nothing"""
        if n < least:
            raise Broken('%s: found %d, expected at least %d' % (what, n, least))

    def cov(self, **kw):
        self.coverage.update(kw)


def known():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            m = re.match(r'finding: property=(\w+) key=\[(.*?)\] (.*)', l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if pid not in MODULES:
        print('unknown property', pid)
        return 2
    t = time.time()
    ctx = Ctx(pid, tier)
    os.makedirs(os.path.join(VERIF, '.cache'), exist_ok=True)
    try:
        importlib.import_module(MODULES[pid]).run(pid, ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if not ctx.found:
            return 2
        ctx.coverage['cut_short'] = str(e)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s' % pid)
        return 2
    kn = known()
    bad = []
    for v in ctx.found:
        w = kn.get((pid, v[0]))
        if w is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        else:
            bad.append(v)
    ctx.coverage.setdefault('explanation', EXPL)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': ctx.coverage, 'wall_s': round(time.time() - t, 2), 'violations': len(bad), 'assumptions': ctx.assumptions}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if bad:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s, %d violation(s); reproduce with: python3 %s/check.py %s\n' % (pid, len(bad), VERIF, pid))
            for key, loc, msg, more in bad:
                f.write('\n%s\n  %s\n  rule instance: %s\n' % (loc, msg, key))
                if more:
                    f.write('  %s\n' % more)
        for key, loc, msg, more in bad[:20]:
            print('%s: %s' % (loc, msg))
            if more:
                print('    ' + more)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('ok property=%s (%.1f s)' % (pid, time.time() - t))
    return 0


EXPL = 'static analysis of the LLVM IR clang produces from the current sources with the flags of the project\'s makefiles; nothing is executed'

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
