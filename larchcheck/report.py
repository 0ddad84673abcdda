"""Obligations, findings, known findings, evidence, exit codes."""
import json
import os
import sys
import time

from .program import Program, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, loc, msg):
        self.rule, self.construct, self.loc, self.msg = rule, construct, loc, msg

    @property
    def key(self): return self.rule + '|' + self.construct


class Ctx:
    """One run of one check."""
    def __init__(self, pid, repo, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = Program(repo)
        self.repo = repo
        self.findings = {}
        self.obs = {}
        self.samples = {}
        self.functions = set()
        self.info = {}
        self.floors = {}
        self.rules = {}

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor
        self.obs.setdefault(name, [0, 0])
        self.samples.setdefault(name, [])

    def ob(self, rule, construct, ok, loc, msg=''):
        """Record one obligation (rule instance)."""
        assert rule in self.rules, rule
        self.obs[rule][0] += 1
        if ok:
            self.obs[rule][1] += 1
            if len(self.samples[rule]) < 4:
                self.samples[rule].append('%s @ %s' % (construct, loc))
        else:
            f = Finding(rule, construct, loc, msg)
            self.findings.setdefault(f.key, f)
        return ok

    def seen(self, func):
        self.functions.add(getattr(func, 'qual', str(func)))


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, what = rest.partition(' :: ')
                assert key.startswith('key=')
                out[key[4:].strip()] = what.strip()
    return out


def run_check(pid, module, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    elif '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('LARCHCHECK_REPO', '/repo')
    ctx = Ctx(pid, repo, tier, seed)
    if tier == 'thorough':
        ctx.thorough = True
    else:
        ctx.thorough = False
    known = load_known(pid)
    try:
        module.check(ctx)
        for r, fl in ctx.floors.items():
            if ctx.obs[r][0] < fl:
                raise AnalysisBroken('rule %s matched %d sites, fewer than the %d confirmed' % (r, ctx.obs[r][0], fl))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if all(k in known for k in ctx.findings):
            sys.exit(2)         # nothing found by what could be analysed
    viol = []
    for k, f in sorted(ctx.findings.items()):
        if k in known:
            print('KNOWN-FINDING: property=%s %s [%s at %s]' % (pid, known[k], k, f.loc))
        else:
            viol.append(f)
    out = os.environ.get('LARCHCHECK_OUT', os.path.join(VERIF, 'evidence'))
    os.makedirs(out, exist_ok=True)
    replay = os.path.join(out, '%s.report.txt' % pid)
    with open(replay, 'w') as fh:
        for f in viol:
            fh.write('%s\n  rule: %s\n  %s\n  construct: %s\n  %s\n\n' % (f.loc, f.rule, ctx.rules[f.rule], f.construct, f.msg))
        if not viol:
            fh.write('no violation\n')
    tot = sum(a for a, b in ctx.obs.values())
    dis = sum(b for a, b in ctx.obs.values())
    cov = dict(
        explanation=module.EXPLAIN,
        rules={r: dict(rule=ctx.rules[r], instances=ctx.obs[r][0], holding=ctx.obs[r][1], floor=ctx.floors[r], samples=ctx.samples[r]) for r in ctx.rules},
        obligations=tot, discharged=dis,
        functions_analysed=len(ctx.functions),
        functions=sorted(ctx.functions)[:400],
        modules_parsed=sorted(m.rel for m in ctx.prog.modules.values() if m is not None),
        known_findings_matched=sorted(k for k in ctx.findings if k in known),
        exact='every site matched by the rules above in the named modules; nothing sampled',
    )
    cov.update(ctx.info)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 3),
              violations=len(viol), assumptions=module.ASSUME)
    with open(os.path.join(out, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d hold, %d functions analysed, %.1fs' % (pid, tot, dis, len(ctx.functions), time.time() - t0))
    for f in viol:
        print('%s: [%s] %s: %s' % (f.loc, f.rule, f.construct, f.msg))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    sys.exit(0)
