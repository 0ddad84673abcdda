"""P21: composite models aggregate over every member, at the values just assigned."""
import ast

from ..program import AnalysisBroken
from ..members import Run, TooMany, NONE, has, show

TECHNIQUE = ('symbolic execution of the composite model classes over a generic member: loops and comprehensions over the member collection become exact sums, lists and quantified effects; '
             'obligations compare the aggregates with their definitions and require assignments to every member to precede every evaluation')
NOTE = ('the members are opaque: what one member computes is decided by the other properties; a member collection changed while it is being worked through is not modelled; '
        'the latent class derivative is checked against the product rule applied to the probability')
EXPLAIN = ('Every aggregate (case count, weight, log likelihood, gradient, mixed probability and its derivative) must be the sum of the members\' own contributions over the whole collection, each once; '
           'on every path to an evaluation of a member, parameter names have been collected and the values given have been passed to every member, and nothing assigns the composite\'s own values afterwards; '
           'operations that must reach every member are applied to the whole collection without a filter, a break or an early return.')
ASSUME = ['members raise rather than return partial results', 'a parameter frame shared by the parts of a latent class model carries values from one to all of them']

SELF = ('self',)
COLL = ('attr', SELF, '_k_models')
ALL = ('dom', COLL, 'all')
EVAL = {'loglike', 'loglike2', 'loglike2_bhhh', 'loglike_casewise', 'd_loglike', 'bhhh', 'probability', 'd_probability', 'd_loglike_casewise'}


def strip(t):
    """remove value-preserving views: .values, [..., None], numpy conversions; column restrictions are kept aside"""
    cols = []
    while True:
        if t[0] == 'attr' and t[2] in ('values', 'array', 'T') and t[2] != 'T':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('to_numpy', 'copy') and not t[2]:
            t = t[1][1]
        elif t[0] == 'idx' and all(x == NONE or x == ('slice', NONE, NONE, NONE) or x == ('c', Ellipsis) for x in (t[2][1] if t[2][0] == 'tup' else [t[2]])):
            t = t[1]
        elif t[0] == 'idx' and t[2][0] == 'tup' and all(x == NONE or x[0] == 'slice' or x == ('c', Ellipsis) for x in t[2][1]) and (not t[2][1] or t[2][1][0] == ('slice', NONE, NONE, NONE)):
            cols.append(t[2])
            t = t[1]
        else:
            return t, cols


def rng(t):
    """the case range of a call"""
    kw = dict(t[3])
    names = ('start_case', 'stop_case', 'step_case')
    if not all(n in kw for n in names):
        return None
    return tuple(kw[n] for n in names)


def factors(t):
    if t[0] == 'bin' and t[1] == 'Mult':
        return factors(t[2]) + factors(t[3])
    return [t]


def addends(t):
    if t[0] == 'bin' and t[1] == 'Add':
        return addends(t[2]) + addends(t[3])
    return [t]


MEMB = ('attr', SELF, '_k_membership')


def member_call(t, n, names):
    return t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == ('el', n) and t[1][2] in names


def class_weight(t, n):
    """the membership probability of the class of member n -> the membership call"""
    t, cols = strip(t)
    if t[0] != 'idx':
        return None
    b, i = t[1], t[2]
    if b[0] == 'attr' and b[2] == 'loc':
        b = b[1]
        ok = i[0] == 'tup' and len(i[1]) == 2 and i[1][0] == ('slice', NONE, NONE, NONE) and i[1][1] == ('key', n)
    else:
        ok = i == ('key', n)
    b, _ = strip(b)
    if ok and b[0] == 'call' and b[1] == ('attr', MEMB, 'probability') and not cols:
        return b
    return None


def d_class_weight(t, n):
    t, cols = strip(t)
    if t[0] != 'idx' or t[2][0] != 'tup' or len(t[2][1]) != 3:
        return None
    i = t[2][1]
    b, _ = strip(t[1])
    if b[0] != 'call' or b[1] != ('attr', MEMB, 'd_probability') or i[0] != ('slice', NONE, NONE, NONE) or i[2] != ('slice', NONE, NONE, NONE):
        return None
    pos = i[1]
    if pos[0] == 'call' and pos[1][0] == 'attr' and pos[1][2] in ('get_loc', 'index') and pos[2] == (('key', n),):
        c = pos[1][1]
        if c[0] == 'attr' and c[2] == 'columns' or c[0] == 'call' and c[1] == ('attr', SELF, '_k_model_names') or has(c, COLL) and has(c, ('g', 'sorted')):
            return b
    return None


def evals(e, name=None):
    """this effect evaluates a member"""
    t = e[1]
    return t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in EVAL and (t[1][1][0] in ('el', 'first', 'idx') or t[1][1] in (MEMB, SELF))


def over_all(e, n=None):
    return e[0] and e[0][0][0] == ALL and len([d for d, _ in e[0] if d[0] == 'dom']) == 1


def el_call(e, name):
    t = e[1]
    return t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == ('el', e[0][-1][1]) and t[1][2] == name if e[0] else False


def paths(ctx, f, cls, kind, extra=None, init=None, inline=lambda g: True, args=None):
    colls = {COLL: kind}
    colls.update(extra or {})
    r = Run(ctx.prog, cls, colls, inline)
    out = r.method(f, args, init)
    for p in out:
        p.commands = r.commands
    ctx.info['paths'] = ctx.info.get('paths', 0) + len(out)
    return out


def run(ctx, f, *a, **k):
    try:
        return paths(ctx, f, *a, **k)
    except TooMany as x:
        raise AnalysisBroken('too many paths through %s' % x)


def by_syntax(ctx, f):
    """a method with too many ways through it: only the shape of its loops over the members is judged"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)) and '_k_models' in ast.unparse(n.iter):
            ok = not any(isinstance(x, ast.Slice) for x in ast.walk(n.iter)) and not getattr(n, 'ifs', None)
            ok = ok and not any(isinstance(x, (ast.Break, ast.Return)) for b in getattr(n, 'body', []) for x in ast.walk(b))
            ctx.ob('whole-collection', '%s:%s' % (f.qual, ast.unparse(n.iter)), ok, f.loc(n.iter), '%s works through some of the members only' % f.qual)


def tidy(out):
    return [p for p in out if p.end[0] == 'return']


def partial(t):
    """a restricted member domain somewhere in the term"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'dom' and t[2] in ('some', 'rest'):
            return True
        if t and t[0] == 'slice-of':
            return True
        return any(partial(x) for x in t)
    return False


def check(ctx):
    prog = ctx.prog
    ctx.rule('sum-over-members', 'every aggregate is the sum of the members\' contributions, each member once', 12)
    ctx.rule('values-first', 'parameter values reach every member before it is evaluated', 8)
    ctx.rule('whole-collection', 'every loop over the members covers all of them', 20)
    ctx.rule('reaches-all', 'operations on the composite reach every member', 10)
    group(ctx, prog.cls('larch.model.model_group', 'ModelGroup'))
    latent(ctx, prog.cls('larch.model.latentclass', 'LatentClassModel'))


def method(ctx, c, name):
    f = c.methods.get(name) or c.props.get(name, {}).get('getter') if isinstance(c.props, dict) else c.methods.get(name)
    if f is None:
        f = ctx.prog.lookup(c, name, 'getter') or ctx.prog.lookup(c, name)
    if f is None or not hasattr(f, 'all_params') or f.cls is not c:
        raise AnalysisBroken('%s.%s not found' % (c.name, name))
    ctx.seen(f)
    return f


def whole(ctx, c, kind):
    """every loop over members anywhere in the class"""
    seen = set()
    for f in c.functions():
        if f.name in ('__getitem__', '__setitem__', '__delitem__', 'insert'):
            continue
        extra = {('p', f.params[1]): 'list'} if f.name == '__init__' and kind == 'list' else {('p', 'k_models'): 'dict'} if f.name == '__init__' else {}
        try:
            out = paths(ctx, f, c, kind, extra, inline=lambda g: g.cls is None)
        except TooMany:
            by_syntax(ctx, f)
            continue
        for p in out:
            for e in p.effects:
                for d, _ in e[0]:
                    if d[0] == 'dom':
                        k = (f.qual, e[2], d[2] != 'some' or e[1][0] == 'call' and e[2] not in p.commands)
                        if k not in seen and not (e[1][0] == 'call' and e[1][1][0] == 'attr' and e[1][1][2] in ('append', 'add') and d[2] == 'some'):
                            seen.add(k)
                            ctx.ob('whole-collection', '%s:%s' % (f.qual, show(e[1])[:60]), k[2], f.loc() if not e[2] else '%s:%d' % (f.module.rel, e[2]), '%s works through some of the members only' % f.qual)
            r = p.end[1] if p.end[0] == 'return' else NONE
            if has_dom(r):
                ctx.ob('whole-collection', '%s:result' % f.qual, not partial(r), f.loc(), '%s collects from some of the members only: %s' % (f.qual, show(r)[:200]))


def has_dom(t):
    return isinstance(t, tuple) and (t[:1] in (('dom',), ('slice-of',)) or any(has_dom(x) for x in t))


# ------------------------------------------------------------------ groups
def group(ctx, c):
    whole(ctx, c, 'list')
    # plain totals
    for name, want in (('n_cases', lambda t, n: t == ('attr', ('el', n), 'n_cases')), ('total_weight', lambda t, n: member_call(t, n, {'total_weight'}))):
        f = method(ctx, c, name)
        for p in tidy(run(ctx, f, c, 'list')):
            r = p.end[1]
            ok = r[0] == 'sum' and r[1] == ALL and want(r[2], r[4])
            ctx.ob('sum-over-members', f.qual, ok, f.loc(), '%s is not the total over all members but %s' % (f.qual, show(r)[:200]))
    for name in ('loglike', 'loglike2'):
        f = method(ctx, c, name)
        n = 0
        for p in tidy(run(ctx, f, c, 'list')):
            n += 1
            r = p.end[1]
            lab = 'x given' if given(p) else 'no x'
            ll = dict(r[1]).get('ll', NONE) if r[0] == 'dictx' else r
            needs_attr = r[0] == 'dictx'
            ctx.ob('sum-over-members', f.qual + ':ll', is_ll(ll, needs_attr, name), f.loc(), '%s [%s]: the log likelihood is not the sum over all members but %s' % (f.qual, lab, show(ll)[:220]))
            if name == 'loglike2':
                d = dict(r[1]).get('dll', NONE) if r[0] == 'dictx' else NONE
                ok, why = is_dll(d)
                ctx.ob('sum-over-members', f.qual + ':dll', ok, f.loc(), '%s [%s]: %s: %s' % (f.qual, lab, why, show(d)[:220]))
            pushed(ctx, f, p, lab)
        if n == 0:
            raise AnalysisBroken('no returning path in %s' % f.qual)
    for name, what in (('_frame_values_have_changed', ('set_values', '_frame_values_have_changed')), ('set_values', ('set_values',)), ('load_data', ('load_data',)), ('unmangle', ('unmangle',)), ('doctor', ('doctor',))):
        f = method(ctx, c, name)
        for p in tidy(run(ctx, f, c, 'list')):
            for w in what:
                ok = any(over_all(e) and el_call(e, w) for e in p.effects)
                ctx.ob('reaches-all', '%s:%s' % (f.qual, w), ok, f.loc(), '%s does not call %s on every member' % (f.qual, w))
            if name in ('set_values', '_frame_values_have_changed'):
                own = [i for i, e in enumerate(p.effects) if e[1][:2] == ('call', ('super', 'set_values'))]
                push = [i for i, e in enumerate(p.effects) if over_all(e) and el_call(e, 'set_values') and carries(e[1])]
                ok = bool(push) and carries(p.effects[push[-1]][1], Run.sets(p.effects[:push[-1]])) and (not own or max(push) > max(own)) and (name != 'set_values' or bool(own))
                ctx.ob('values-first', f.qual, ok, f.loc(), '%s does not pass the current values to every member' % f.qual)
    imports(ctx, c)
    members_kept(ctx, c)


def given(p):
    v = [b for g, b in p.guards if g == ('cmp', 'is', ('p', 'x'), NONE)]
    return bool(v) and v[0] is False


def absent(p):
    return any(g == ('cmp', 'is', ('p', 'x'), NONE) and b for g, b in p.guards)


def is_ll(t, needs_attr, name):
    if t[0] != 'sum' or t[1] != ALL:
        return False
    x, n = t[2], t[4]
    if needs_attr:
        if x[0] != 'attr' or x[2] != 'll':
            return False
        x = x[1]
    if x[0] == 'attr' and x[2] == 'll':
        x = x[1]
    return member_call(x, n, {'loglike', 'loglike2', 'loglike2_bhhh'}) and no_x(x)


def no_x(x):
    return not [a for a in x[2] if a != NONE] and not [v for k, v in x[3] if k == 'x' and v != NONE]


def is_dll(t):
    if t[0] == 'idx':
        b, i = t[1], t[2]
        if b[0] == 'attr' and b[2] == 'loc':
            b = b[1]
    elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'reindex':
        b, i = t[1][1], (t[2] + tuple(v for _, v in t[3]) + (NONE,))[0]
    else:
        return False, 'the gradient is not put in the order of the group\'s own parameters'
    if i != ('attr', ('attr', SELF, 'pf'), 'index') and i != ('attr', ('attr', SELF, '_frame'), 'index'):
        return False, 'the gradient is not put in the order of the group\'s own parameters'
    if b[0] != 'sum' or b[1] != ALL:
        return False, 'the gradient is not the sum over all members'
    if b[3] != 'fill':
        return False, 'parameters that some members do not have get no derivative'
    x = b[2]
    if x[0] == 'attr' and x[2] == 'dll' and member_call(x[1], b[4], {'loglike2', 'loglike2_bhhh'}) and no_x(x[1]):
        return True, ''
    return False, 'the gradient is not the sum of the members\' gradients'


def carries(t, at=None):
    """a set_values call that carries the composite's values by name -- those in force after `at` assignments"""
    vals = [v for k, v in t[3] if k == '**'] + list(t[2]) + [v for k, v in t[3] if k == 'values']
    def current(v):
        if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] == 'to_dict':
            v = v[1][1]
        if v[0] == 'call' and v[1] == ('g', 'dict') and len(v[2]) == 1:
            v = v[2][0]
        if v[0] == 'as-of':
            return at is None or v[2] == at
        return False
    return any(current(v) for v in vals)


def pushed(ctx, f, p, lab):
    first = [i for i, e in enumerate(p.effects) if evals(e)]
    if not first:
        ctx.ob('values-first', f.qual, False, f.loc(), '%s [%s] evaluates no member' % (f.qual, lab))
        return
    k = first[0]
    before = p.effects[:k]
    push = [i for i, e in enumerate(before) if over_all(e) and el_call(e, 'set_values') and carries(e[1])]
    own = [i for i, e in enumerate(before) if e[1][:2] == ('call', ('super', 'set_values')) and not e[0]]
    ctx.ob('values-first', f.qual + ':push', bool(push) and carries(before[push[-1]][1], Run.sets(before[:push[-1]])), f.loc(), '%s [%s]: members are evaluated before every member has been given the current values' % (f.qual, lab))
    un = [i for i, e in enumerate(before) if e[1][:2] == ('call', ('super', 'unmangle'))]
    ctx.ob('values-first', f.qual + ':names', bool(un) and (not push or un[0] < push[-1]), f.loc(), '%s [%s]: parameters of edited members are not collected before the evaluation' % (f.qual, lab))
    if not absent(p):
        ok = any(carried_x(before[i][1]) for i in own) and bool(push) and push[-1] > max(own)
        ctx.ob('values-first', f.qual + ':x', ok, f.loc(), '%s: the values given do not reach every member before it is evaluated' % f.qual)
    late = [e for e in p.effects[k:] if e[1][:2] == ('call', ('super', 'set_values')) or e[1][0] == 'call' and e[1][1][0] == 'attr' and e[1][1][2] == 'set_values']
    ctx.ob('values-first', f.qual + ':late', not late, f.loc(), '%s assigns values after members have been evaluated' % f.qual)


def carried_x(t):
    return ('p', 'x') in t[2] or any(v == ('p', 'x') for _, v in t[3])


def imports(ctx, c):
    """names and initial rows of every member are taken over"""
    f = method(ctx, c, 'unmangle')
    for p in tidy(run(ctx, f, c, 'list', inline=lambda g: g.name != '_frame_values_have_changed')):
        ok = False
        for e in p.effects:
            t = e[1]
            if t[0] == 'store' and t[1] == ('attr', SELF, '_frame') and e[0] and e[0][0][0][0] == 'dom' and e[0][0][0][1] == COLL and e[0][0][0][2] in ('all', 'when'):
                n = e[0][0][1]
                if has(t[2], ('attr', ('el', n), 'pf')) or has(t[2], ('attr', ('el', n), '_frame')):
                    # the only condition allowed is that there is something to take over
                    gs = [g for alt in (e[3] if len(e) > 3 else ()) for path in alt for g in path]
                    ok = ok or all(something(g) and (has(g, ('attr', ('el', n), 'pf')) or has(g, ('attr', ('el', n), '_frame'))) for g, v in gs)
        ctx.ob('reaches-all', f.qual + ':import', ok, f.loc(), '%s does not take over the parameters of every member' % f.qual)


def something(g):
    """a test that a list is not empty"""
    if g[0] == 'cmp' and g[1] in ('>', '!=', '==') and g[3] == ('c', 0):
        g = g[2]
    if g[0] == 'call' and g[1] == ('g', 'len') and len(g[2]) == 1:
        g = g[2][0]
    return g[0] in ('list', 'call', 'idx')


def members_kept(ctx, c):
    f = method(ctx, c, '__init__')
    prm = ('p', f.params[1])
    dom = ('dom', prm, 'all')
    for p in tidy(run(ctx, f, c, 'list', {prm: 'list'})):
        cover = []
        for e in p.effects:
            t = e[1]
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('append', 'extend') and e[0] and e[0][0][0][1] == prm:
                n = e[0][0][1]
                v = t[2][0] if t[2] else NONE
                inner = [d for d, m in e[0][1:] if d == ('over', ('attr', ('el', n), '_k_models'))]
                if t[1][2] == 'append' and inner and len(e[0]) == 2 and v == ('item', ('attr', ('el', n), '_k_models'), e[0][1][1]):
                    cover.append(e)
                if t[1][2] == 'append' and v == ('el', n) or t[1][2] == 'extend' and v in (('attr', ('el', n), '_k_models'), ('tup', (('el', n),)), ('el', n)):
                    cover.append(e)
            if t[0] == 'store' and t[1] == COLL and t[2][0] == 'list' and t[2][1] == dom:
                cover.append(e)
            if t[0] == 'store' and t[1] == COLL and t[2][0] == 'call' and t[2][1] == ('g', 'list') and t[2][2] == (prm,):
                cover.append(e)
        full = [e for e in cover if not e[0] or e[0][0][0] == dom]
        when = [e for e in cover if e[0] and e[0][0][0] == ('dom', prm, 'when')]
        ok = bool(full)
        if not ok and len(when) >= 2:
            gs = [path for e in when for alt in e[3] for path in alt]
            tests = {g for path in gs for g, v in path}
            ok = len(tests) == 1 and {v for path in gs for g, v in path} == {True, False}
        ctx.ob('reaches-all', f.qual + ':members', ok, f.loc(), 'some of the models given to %s do not become members' % c.name)


# ------------------------------------------------------------- latent class
def latent(ctx, c):
    whole(ctx, c, 'dict')
    quiet = lambda g: g.name not in ('unmangle', 'mangle', 'set_value')
    for name in ('probability', 'd_probability', 'loglike', 'loglike2'):
        f = method(ctx, c, name)
        n = 0
        short = quiet if 'prob' in name else lambda g: quiet(g) and g.name not in ('probability', 'd_probability')
        for p in tidy(run(ctx, f, c, 'dict', inline=short)):
            n += 1
            lab = ('x given' if given(p) else 'no x') + (', tables' if any(g == ('cmp', 'is', ('attr', SELF, '_dataframes'), NONE) and not v for g, v in p.guards) else ', data sets')
            fresh(ctx, f, p, lab)
            if name in ('probability', 'd_probability'):
                r = p.end[1]
                if r[0] == 'call' and r[1][0] == 'attr' and r[1][2] == 'DataFrame' and r[2]:
                    r = r[2][0]
                why = mixed(r, name == 'd_probability')
                ctx.ob('sum-over-members', f.qual, why is None, f.loc(), '%s [%s]: %s: %s' % (f.qual, lab, why, show(r)[:300]))
            else:
                uses(ctx, f, p, lab)
        if n == 0:
            raise AnalysisBroken('no returning path in %s' % f.qual)
    f = method(ctx, c, 'loglike2_bhhh')
    for p in tidy(run(ctx, f, c, 'dict', inline=lambda g: quiet(g) and g.name not in ('probability', 'd_probability'))):
        ok = any(e[1][0] == 'store' and e[1][1][0] == 'attr' and e[1][1][2] == 'bhhh' for e in p.effects)
        ctx.ob('sum-over-members', f.qual + ':bhhh', ok, f.loc(), '%s does not compute the BHHH matrix' % f.qual)
    for name, w in (('mangle', 'mangle'), ('_frame_values_have_changed', '_frame_values_have_changed'), ('set_value', '_check_if_frame_values_changed')):
        f = method(ctx, c, name)
        for p in tidy(run(ctx, f, c, 'dict', inline=quiet)):
            a = any(over_all(e) and (el_call(e, w) or el_call(e, '_frame_values_have_changed')) for e in p.effects)
            b = any(not e[0] and e[1][0] == 'call' and e[1][1] in (('attr', MEMB, w), ('attr', MEMB, '_frame_values_have_changed')) for e in p.effects)
            ctx.ob('reaches-all', '%s:classes' % f.qual, a, f.loc(), '%s does not reach every class' % f.qual)
            ctx.ob('reaches-all', '%s:membership' % f.qual, b, f.loc(), '%s does not reach the membership model' % f.qual)
    sharers = set()
    f = method(ctx, c, 'unmangle')
    for p in tidy(run(ctx, f, c, 'dict', inline=lambda g: g.name != 'mangle' and g.cls is not None)):
        mangled = any(g in (('attr', SELF, '_mangled'), ('p', 'force')) and v for g, v in p.guards) or any(e[1] == ('call', ('attr', SELF, 'mangle'), (), ()) for e in p.effects)
        if mangled:
            if not any(v for g, v in p.guards if g in (('attr', SELF, '_mangled'), ('p', 'force'))):
                continue                                # mangle() marks the model, so this way through does not exist
            a = any(over_all(e) and el_call(e, 'unmangle') for e in p.effects)
            b = any(not e[0] and e[1][0] == 'call' and e[1][1] == ('attr', MEMB, 'unmangle') for e in p.effects)
            s = synced(p)
            sharers.add(s)
            ctx.ob('reaches-all', f.qual + ':classes', a, f.loc(), '%s does not unmangle every class' % f.qual)
            ctx.ob('reaches-all', f.qual + ':membership', b, f.loc(), '%s does not unmangle the membership model' % f.qual)
            ctx.ob('reaches-all', f.qual + ':frames', s is not None, f.loc(), '%s does not bring the parameters of the model, the membership model and every class together' % f.qual)
        else:
            asked = [g for g, v in p.guards if not v]
            a = any(has(g, ('list', ALL, ('call', ('attr', ('el', -1), '_is_mangled'), (), ()), -1)) for g in asked)
            b = any(has(g, ('call', ('attr', MEMB, '_is_mangled'), (), ())) for g in asked)
            ctx.ob('reaches-all', f.qual + ':edited', a and b, f.loc(), '%s may go on without noticing that a class or the membership model was edited' % f.qual)
    f = setter(ctx, c)
    for p in tidy(run(ctx, f, c, 'dict', inline=quiet)):
        a = any(over_all(e) and e[1][0] == 'store' and e[1][1] == ('attr', ('el', e[0][-1][1]), 'dataframes') for e in p.effects)
        b = any(not e[0] and e[1][0] == 'store' and e[1][1] == ('attr', MEMB, 'dataframes') for e in p.effects)
        ctx.ob('reaches-all', f.qual + ':classes', a, f.loc(), 'data assigned to a latent class model do not reach every class')
        ctx.ob('reaches-all', f.qual + ':membership', b, f.loc(), 'data assigned to a latent class model do not reach the membership model')
    for g in sharers - {None}:
        frames(ctx, c.module, g)


def setter(ctx, c):
    f = ctx.prog.lookup(c, 'dataframes', 'setter')
    if f is None:
        raise AnalysisBroken('the dataframes setter of %s was not found' % c.name)
    ctx.seen(f)
    return f


def synced(p):
    """the function to which the model, the membership model and every class were handed to share their parameters"""
    for e in p.effects:
        t = e[1]
        if not e[0] and t[0] == 'call' and t[1][0] == 'g' and SELF in t[2] and MEMB in t[2] and any(x[0] == 'star' and covers(x[1]) for x in t[2]):
            return t[1][1]
    return None


def covers(t):
    return t == COLL or t[0] == 'call' and t[1] == ('attr', COLL, 'values') and not t[2] or t[0] == 'list' and t[1] == ALL and t[2] == ('el', t[3])


def frames(ctx, m, name):
    f = ctx.prog.resolve(m, name)
    if not hasattr(f, 'all_params'):
        raise AnalysisBroken('%s was not found' % name)
    ctx.seen(f)
    coll = ('p', '*' + f.vararg) if f.vararg else ('p', f.params[0])
    dom = ('dom', coll, 'all')
    r = Run(ctx.prog, None, {coll: 'list'})
    handed = False
    for p in tidy(r.method(f)):
        calls = [e for e in p.effects if e[1][0] == 'call' and e[1][1][0] == 'attr' and e[1][1][2] == 'set_frame']
        if not calls:
            continue
        handed = True
        ok = all(e[0] and e[0][0][0] == dom for e in calls)
        j = calls[0][1][2][0] if calls[0][1][2] else NONE
        ok2 = joined_all(j, dom)
        ctx.ob('reaches-all', f.qual + ':set', ok, f.loc(), 'the common parameter frame is not given to every model')
        ctx.ob('reaches-all', f.qual + ':join', ok2, f.loc(), 'the common parameter frame does not contain the parameters of every model')
    ctx.ob('reaches-all', f.qual + ':hands', handed, f.loc(), '%s hands out no common parameter frame' % f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            if isinstance(it, ast.Subscript):
                s = it.slice
                ok = isinstance(s, ast.Slice) and s.upper is None and s.step is None and (s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value in (0, 1))
                ctx.ob('whole-collection', f.qual + ':' + ast.unparse(it), ok, f.loc(it), '%s looks at some of the models only' % f.qual)


def joined_all(t, dom):
    if isinstance(t, tuple):
        if t[:2] == ('list', dom):
            return True
        return any(joined_all(x, dom) for x in t)
    return False


def mixed(t, deriv):
    """why this is not the class-weighted sum over the members (or its derivative)"""
    r = rng(t) if t[0] == 'call' else None
    if t[0] == 'call' and t[1] == ('attr', SELF, 'd_probability' if deriv else 'probability'):
        # the method itself is checked on its own
        if not no_x(t) or r is None or r[0] != ('p', 'start_case') or r[1] != ('p', 'stop_case') or r[2] != ('p', 'step_case'):
            return 'evaluated for other cases than requested'
        return None
    if t[0] != 'sum' or t[1] != ALL:
        return 'not a sum over all classes'
    n = t[4]
    terms = addends(t[2])
    ranges = set()

    def mcall(x, names):
        x, _ = strip(x)
        if member_call(x, n, names) and no_x(x):
            ranges.add(rng(x))
            return True
        return False

    def weight(x, fn):
        b = fn(x, n)
        if b is None:
            return False
        ranges.add(rng(b))
        return True
    want = [('probability', class_weight)] if not deriv else [('d_probability', class_weight), ('probability', d_class_weight)]
    got = []
    for a in terms:
        fs = factors(a)
        hit = None
        if len(fs) == 2:
            for x, y in (fs, fs[::-1]):
                for i, (nm, fn) in enumerate(want):
                    if mcall(x, {nm}) and weight(y, fn):
                        hit = i
        got.append(hit)
    if sorted(got, key=str) != sorted(range(len(want)), key=str):
        return 'not %s' % ('the derivative of the mixed probability' if deriv else 'the class probability times the probability within the class')
    if len(ranges) != 1 or None in ranges:
        return 'the parts cover different cases'
    r = list(ranges)[0]
    if r[0] != ('p', 'start_case') or r[2] != ('p', 'step_case') or not (has(r[1], ('p', 'stop_case')) or has_n(r[1])):
        return 'the cases requested are not the cases evaluated'
    return None


def same_cases(v):
    if v[0] != 'idx':
        return False
    i = v[2][1][0] if v[2][0] == 'tup' and v[2][1] else v[2]
    if i[0] == 'call' and i[1] == ('g', 'slice') and len(i[2]) == 3:
        i = ('slice',) + i[2]
    return i[0] == 'slice' and i[1] == ('p', 'start_case') and i[3] == ('p', 'step_case') and (i[2] == ('p', 'stop_case') or has_n(i[2]))


def has_n(t):
    return t[0] in ('attr', 'call') and 'n_cases' in show(t)


def fresh(ctx, f, p, lab):
    first = [i for i, e in enumerate(p.effects) if evals(e)]
    if not first:
        ctx.ob('values-first', f.qual, False, f.loc(), '%s [%s] evaluates no class' % (f.qual, lab))
        return
    before = p.effects[:first[0]]
    un = any(not e[0] and e[1][0] == 'call' and e[1][1] == ('attr', SELF, 'unmangle') for e in before)
    ctx.ob('values-first', f.qual + ':names', un, f.loc(), '%s [%s]: edits of the classes are not taken in before they are evaluated' % (f.qual, lab))
    sets = [e for e in p.effects if e[1][0] == 'call' and e[1][1][0] == 'attr' and e[1][1][2] == 'set_values' or e[1][:2] == ('call', ('super', 'set_values'))]
    if not absent(p):
        ok = any(carried_x(e[1]) for e in sets if e in before)
        ctx.ob('values-first', f.qual + ':x', ok, f.loc(), '%s [%s]: the values given are not assigned before the classes are evaluated' % (f.qual, lab))
    ctx.ob('values-first', f.qual + ':late', all(e in before for e in sets), f.loc(), '%s assigns values after classes have been evaluated' % f.qual)


def uses(ctx, f, p, lab):
    """the likelihood is computed from the mixed probability (and its derivative)"""
    n = 0
    pk = [(g, v) for g, v in p.guards if g == ('p', 'probability_only')]
    for e in p.effects:
        t = e[1]
        if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('loglike_from_probability', 'd_loglike_from_d_probability'):
            n += 1
            why = mixed(t[2][0], False) if t[2] else 'no probability'
            k = 2 if t[1][1].startswith('d_') else 1
            a = dict(t[3])
            names = ('choices', 'weights')
            vals = [t[2][k + i] if len(t[2]) > k + i else a.get(('choice', 'weight')[i], NONE) for i in range(2)]
            for nm, v in zip(names, vals):
                ctx.ob('sum-over-members', '%s:%s:%s' % (f.qual, t[1][1], nm), v == NONE or same_cases(v), f.loc(), '%s [%s]: the %s given to %s are not those of the cases evaluated: %s' % (f.qual, lab, nm, t[1][1], show(v)[:200]))
            ctx.ob('sum-over-members', '%s:%s' % (f.qual, t[1][1]), why is None, f.loc(), '%s [%s]: %s is given something that is %s' % (f.qual, lab, t[1][1], why))
            if t[1][1].startswith('d_'):
                why = mixed(t[2][1], True) if len(t[2]) > 1 else 'no derivative'
                ctx.ob('sum-over-members', '%s:%s:derivative' % (f.qual, t[1][1]), why is None, f.loc(), '%s [%s]: %s is given something that is %s' % (f.qual, lab, t[1][1], why))
    if not (pk and pk[0][1]):
        ctx.ob('sum-over-members', f.qual + ':used', n > 0, f.loc(), '%s [%s] does not compute the log likelihood from the mixed probability' % (f.qual, lab))
