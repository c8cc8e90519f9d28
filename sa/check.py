#!/usr/bin/env python3
"""Driver: check.py PROPERTY [quick|thorough]  -> exit 0 held / 1 VIOLATION / 2 no answer."""
import sys, os, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import common, build


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.violations = []      # dict(rule, function, where, message)
        self.errors = []          # no answer
        self.notes = []
        self.obligations = 0
        self.discharged = 0
        self.analysed = {}        # free-form coverage
        self.assumptions = []
        self.trusted = []
        self.level = 'proof'
        self.samples = []

    # -- obligations of lint-style rules
    def ob(self, rule, ok, where, msg, function='', **kw):
        self.obligations += 1
        d = self.analysed.setdefault('obligations_by_rule', {})
        d[rule] = d.get(rule, 0) + 1
        if ok:
            self.discharged += 1
        else:
            self.violations.append(dict(rule=rule, function=function, where=where, message=msg, **kw))
        return ok

    # -- results of engine work items
    def items(self, results, required=None):
        a = self.analysed
        a.setdefault('entries', [])
        for r in results:
            a['entries'].append(dict(entry=r['item'], wall_s=round(r['wall'], 2), obligations=r['obligations'],
                                     exits=r.get('exits'), functions=len(r['stats'].get('funcs', [])),
                                     blocks=r['stats'].get('blocks'), error=r['error']))
            self.obligations += r['obligations']
            self.discharged += r['discharged']
            d = a.setdefault('obligations_by_rule', {})
            s = a.setdefault('program_points', {})
            for k, v in r['events'].items():
                s[k] = sorted(set(s.get(k, [])) | set(v))
            a['functions'] = sorted(set(a.get('functions', [])) | set(r['stats'].get('funcs', [])))
            for rep in r['reports']:
                rep = dict(rep)
                rep['entry'] = r['item']
                if not any(x['rule'] == rep['rule'] and x['where'] == rep['where'] and x['message'] == rep['message']
                           for x in self.violations):
                    self.violations.append(rep)
            if r['error']:
                self.errors.append('%s: %s' % (r['item'], r['error']))
        for k, v in a.get('program_points', {}).items():
            a.setdefault('obligations_by_rule', {})[k] = len(v)


def load_known():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('open:'):
                out.append(json.loads(l[5:]))
    except FileNotFoundError:
        pass
    return out


def known_match(k, v):
    for f in ('rule', 'function'):
        if f in k and k[f] != v.get(f):
            return False
    if 'message' in k and k['message'] not in v.get('message', ''):
        return False
    return True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(pid, tier)
    rule = importlib.import_module('rules.' + pid.lower())
    try:
        rule.check(ctx)
    except common.Missing as x:
        ctx.errors.append('missing anchor: %s' % x)
    except build.BuildError as x:
        ctx.errors.append('the tree does not build: %s' % x)
    finally:
        common.cleanup()
    known = [k for k in load_known() if k.get('property') == pid]
    new, old = [], {}
    for v in ctx.violations:
        for i, k in enumerate(known):
            if known_match(k, v):
                old.setdefault(i, []).append(v)
                break
        else:
            new.append(v)
    cov = dict(obligations=ctx.obligations, discharged=ctx.discharged,
               checker_cmd='python3 sa/check.py %s %s' % (pid, tier),
               trusted_base=['clang 18 front end and SROA (source -> LLVM IR)', 'libLLVM-18 C API reader',
                             'sa/engine.py abstract transfer functions', 'sa/lin.py Fourier-Motzkin core'] + ctx.trusted,
               rule=getattr(rule, 'RULE', (rule.__doc__ or '').strip()))
    cov.update(ctx.analysed)
    if ctx.samples:
        cov['samples'] = ctx.samples[:40]
    if ctx.level == 'other':
        cov['explanation'] = getattr(rule, 'RULE', (rule.__doc__ or '').strip())
    if ctx.notes:
        cov['notes'] = ctx.notes
    if ctx.errors:
        cov['not_analysed'] = ctx.errors
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=ctx.level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for i, vs in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, known[i].get('what') or vs[0]['message']))
    if new:
        rp = os.path.join(VERIF, 'evidence', '%s.violations.json' % pid)
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:25]:
            print('  %s: %s at %s (%s): %s' % (pid, v.get('rule'), v.get('where'), v.get('function'), v.get('message')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if ctx.errors:
        for e in ctx.errors:
            print('NO ANSWER: %s' % e)
        return 2
    print('%s: %d obligations, all discharged, %.1f s' % (pid, ctx.obligations, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
