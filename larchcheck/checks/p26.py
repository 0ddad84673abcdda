"""P26  Parametric constraints: slack, gradient, penalty, note and linear form describe the same bound."""
import ast
import re

from ..report import AnalysisBroken
from ..symex import Poly, Exec, Path, Inst, Arr, Closure, INF, NONE, Unknown, norm_lt

TECHNIQUE = 'symbolic evaluation of the constraint classes into polynomial terms per path, with symbolic differentiation and comparison of terms'
EXPLAIN = ('Each constraint class is constructed and linked symbolically, for each combination of present and absent bounds and three linking histories; its slack, gradient, note, linear form '
           'and soft penalty are evaluated along every path into polynomials over the parameters, the bounds and positive scale factors. The terms are compared with the sides the bound stands for, '
           'and gradients with the symbolic derivative of the values. The text forms of constraints are compared through the structure of their regular expressions.')
NOTE = ('Ties between the two sides are ignored; the cut-offs inside softplus and the floating point arithmetic are not modelled; scale, intensity and sharpness are taken as positive. '
        'Terms of a shape the analysis does not evaluate are reported in the evidence as undecided and raise nothing.')
ASSUME = ['softplus(i, s) is log(1+exp(i s))/s and d_softplus(i, s) its derivative 1/(1+exp(-i s))', 'the positions of different parameters differ', 'scale, intensity and sharpness are positive']

KINDS = {
    'RatioBound': dict(params=('p_num', 'p_den'), bounds=('min_ratio', 'max_ratio')),
    'OrderingBound': dict(params=('p_less', 'p_more'), bounds=()),
    'FixedBound': dict(params=('p',), bounds=('minimum', 'maximum')),
}
S = Poly.atom('scale')


class Hooks:
    def __init__(self, ctx, module, classes):
        self.ctx, self.prog, self.module, self.classes = ctx, ctx.prog, module, classes

    # ---- signs
    def positive(self, a):
        if a in ('scale', 'intensity', 'sharpness'):
            return True
        if isinstance(a, tuple):
            if a[0] in ('abs', 'sig', 'softplus', 'exp'):
                return True
            if a[0] == 'max':
                return any(self.pos(x) for x in a[1:])
            if a[0] == 'inv':
                return self.pos(a[1])
        return False

    def pos(self, v):
        return isinstance(v, Poly) and bool(v.t) and all(c > 0 and all(p % 2 == 0 or self.positive(a) for a, p in m) for m, c in v.t.items())

    # ---- symbolic model
    def attr(self, ex, b, name, p):
        o = ex.deref(b, p)
        if isinstance(o, Inst) and name not in o.attrs:
            m = self.method(o.cls, name)
            if m is not None and m.kind == 'property':
                return NotImplemented
        if isinstance(b, tuple) and b and b[0] == 'model':
            if name in ('_frame', 'pf'):
                return ('frame', b)
            if name == 'constraints':
                return NotImplemented
        if isinstance(b, tuple) and b and b[0] == 'frame' and name in ('index', 'loc', 'at'):
            return ('f' + name, b[1])
        return NotImplemented

    def sub(self, ex, o, i, p):
        if isinstance(o, tuple) and o and o[0] in ('floc', 'fat'):
            if isinstance(i, tuple) and i and i[0] == 'tuple' and len(i[1]) == 2:
                return Poly.atom(('cell', o[1], i[1][0], i[1][1]))
            return ('frow', o[1], i)
        if isinstance(o, tuple) and o and o[0] == 'frow':
            return Poly.atom(('cell', o[1], o[2], i))
        return NotImplemented

    def method(self, cls, name):
        for k in self.prog.mro(cls):
            if name in k.methods:
                return k.methods[name]
        return None

    def call(self, ex, n, f, args, kw, p):
        nm = ex.fname(f)
        if isinstance(f, tuple) and f and f[0] == 'attr':
            base, name = f[1], f[2]
            o = ex.deref(base, p)
            if isinstance(o, Inst):
                m = self.method(o.cls, name)
                if m is not None:
                    self.ctx.seen(m)
                    return ex.invoke(m.node, {}, [base] + args if not is_static(m) else args, kw, p)
            if isinstance(base, tuple) and base and base[0] == 'super':
                o = ex.deref(base[1], p)
                for k in self.prog.mro(base[2])[1:]:
                    if name in k.methods:
                        self.ctx.seen(k.methods[name])
                        return ex.invoke(k.methods[name].node, {}, [base[1]] + args, kw, p)
                return [(p, NONE)]
            if isinstance(base, tuple) and base and base[0] == 'findex' and name == 'get_loc' and args:
                return [(p, Poly.atom(('idx', base[1], args[0])))]
            if isinstance(base, tuple) and base and base[0] == 'findex' and name == 'get_indexer' and args:
                it = ex.deref(args[0], p)
                if isinstance(it, tuple) and it[0] in ('list', 'tuple'):
                    return [(p, ('tuple', tuple(Poly.atom(('idx', base[1], x)) for x in it[1])))]
        if nm == 'super':
            return [(p, ('super', p.env.get('self'), p.env.get('__class__')))]
        if nm == 'LinearConstraint':
            a = list(args) + [None] * 3
            names = ('A', 'lb', 'ub')
            for i, k in enumerate(names):
                if k in kw:
                    a[i] = kw[k]
            arr = ex.deref(a[0], p)
            return [(p, ('lincon', Arr(arr.fill, arr.ent) if isinstance(arr, Arr) else arr, a[1] if a[1] is not None else ('neginf',), a[2] if a[2] is not None else INF))]
        if nm in ('softplus', 'd_softplus') and 1 <= len(args) + len(kw) <= 2:
            a = args[0] if args else kw.get('i')
            s = args[1] if len(args) > 1 else kw.get('sharpness', Poly.const(10))
            if a == ('neginf',):
                return [(p, Poly())]
            if isinstance(a, Poly) and isinstance(s, Poly):
                return [(p, Poly.atom(('softplus', a, s)) if nm == 'softplus' else Poly.atom(('sig', a * s)))]
            return [(p, ('call', nm, a, s))]
        if isinstance(f, tuple) and f and f[0] == 'name':
            r = self.prog.resolve(self.module, nm)
            if getattr(r, 'node', None) is not None and isinstance(r.node, ast.FunctionDef) and r.module.name == self.module.name:
                self.ctx.seen(r)
                return ex.invoke(r.node, {}, args, kw, p)
        return NotImplemented


def is_static(m):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list)


def run_method(hk, ex, path, ref, name, args, kw=None):
    o = ex.deref(ref, path)
    m = hk.method(o.cls, name)
    if m is None:
        raise Unknown('no method %s' % name)
    hk.ctx.seen(m)
    env = {}
    return ex.invoke(m.node, env, [ref] + args, kw or {}, path)


class FixSuper(Exec):
    """binds the defining class so that super() can be followed"""
    def invoke(self, node, env, args, kw, p, keep=None):
        env = dict(env)
        env.setdefault('__class__', self.h.owner.get(id(node)))
        return super().invoke(node, env, args, kw, p)


def linked(hk, cls, spec, present, history):
    """[(path, ref)] after construction and linking"""
    ex = FixSuper(hk)
    p = Path({})
    ref = ex.new(Inst(cls, {}), p)
    kw = {k: ('par', k) for k in spec['params']}
    for b in spec['bounds']:
        kw[b] = Poly.atom(('bound', b)) if b in present else NONE
    M = ('model', 2)
    if history == 'at construction':
        kw.update(model=M, scale=S)
    elif history == 'later':
        kw.update(model=NONE)
    else:
        kw.update(model=('model', 1), scale=S)
    cur = [(q, ref) for q, v in run_method(hk, ex, p, ref, '__init__', [], kw)]
    if history != 'at construction':
        cur = [(r, ref) for q, _ in cur for r, v in run_method(hk, ex, q, ref, 'link_model', [M])]
    return ex, cur


def x_at(k):
    return Poly.atom(('at', 'x', Poly.atom(('idx', ('model', 2), ('par', k)))))


def sides(cls, present, path):
    """{bound: polynomial that must be >= 0}; None when the sign of the denominator is not known on the path"""
    if cls == 'OrderingBound':
        return {'order': x_at('p_more') - x_at('p_less')}
    if cls == 'FixedBound':
        out = {}
        if 'minimum' in present:
            out['minimum'] = x_at('p') - Poly.atom(('bound', 'minimum'))
        if 'maximum' in present:
            out['maximum'] = Poly.atom(('bound', 'maximum')) - x_at('p')
        return out
    sign = None
    for c, b in path.conds:
        if c[0] == 'pos' and isinstance(c[1], Poly) and len(c[1].t) == 1:
            (m, k), = c[1].t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'cell' and m[0][0][1] == ('model', 2) and m[0][0][2] == ('par', 'p_den'):
                up = b == (k > 0)
                if m[0][0][3] == 'minimum' and up:
                    sign = 1
                if m[0][0][3] == 'maximum' and not up and sign is None:
                    sign = -1
    out = {}
    if not present:
        return out
    if sign is None:
        return None
    k = Poly.const(sign)
    if 'min_ratio' in present:
        out['min_ratio'] = k * (x_at('p_num') - Poly.atom(('bound', 'min_ratio')) * x_at('p_den'))
    if 'max_ratio' in present:
        out['max_ratio'] = k * (Poly.atom(('bound', 'max_ratio')) * x_at('p_den') - x_at('p_num'))
    return out


LEAD = {'RatioBound': 'p_num', 'OrderingBound': 'p_more', 'FixedBound': 'p'}


def factor(hk, v, side, lead):
    """k with v == k*side, k positive; else None"""
    if not isinstance(v, Poly):
        return None
    a = x_at(lead)
    (m, _), = a.t.items()
    atom = m[0][0]
    cs, cv = side.diff(atom), v.diff(atom)
    if not cs.is_const() or not cs.t:
        return None
    k = cv * cs.inv()
    if not hk.pos(k) or (v - k * side).t:
        return None
    return k


def has_unknown(v):
    return not isinstance(v, Poly) and v not in (INF, ('neginf',))


def which(hk, v, sd, lead):
    for b, s in sd.items():
        k = factor(hk, v, s, lead)
        if k is not None:
            return b, k
    return None, None


def least(hk, path, v, b, sd, lead):
    """every other side is known on the path to be no less than v (up to positive factors of that side)"""
    for b2, s2 in sd.items():
        if b2 == b:
            continue
        ok = False
        for c, t in path.conds:
            if c[0] != 'pos' or not isinstance(c[1], Poly):
                continue
            d = c[1] if t else -c[1]            # d > 0 on this path: d ~ k2*s2 - k1*s1
            if split(hk, d, b, sd[b], b2, s2):
                ok = True
        if not ok:
            return False
    return True


def split(hk, d, b1, s1, b2, s2):
    """d == k2*s2 - k1*s1 with k1, k2 positive: the factors are read off the terms of the two bounds"""
    ks = []
    for b, s in ((b1, s1), (b2, s2)):
        own = s.diff(('bound', b))
        if len(own.t) != 1:
            return False
        ks.append(d.diff(('bound', b)) * own.inv())
    k1, k2 = -ks[0], ks[1]
    return hk.pos(k1) and hk.pos(k2) and not (d - k2 * s2 + k1 * s1).t


def grad(ex, v, entries_of):
    out = {}
    for k in entries_of:
        (m, _), = x_at(k).t.items()
        out[k] = v.diff(m[0][0], dfun) if isinstance(v, Poly) else Poly()
    return out


def dfun(a, atom):
    if isinstance(a, tuple) and a[0] == 'softplus':
        d = a[1].diff(atom, dfun)
        return Poly.atom(('sig', a[1] * a[2])) * d if d.t else None
    return None


def array_grad(ex, arr, params):
    """entries per parameter; None if not readable"""
    if not isinstance(arr, Arr):
        return None
    idx = {Poly.atom(('idx', ('model', 2), ('par', k))): k for k in params}
    out = {k: arr.fill for k in params}
    for e, v in arr.ent.items():
        if e in idx:
            out[idx[e]] = v
        elif isinstance(v, Poly) and not v.t:
            continue
        else:
            out[str(e)] = v
    if not all(isinstance(v, Poly) for v in out.values()):
        return None
    return out


def configs(spec):
    b = spec['bounds']
    if not b:
        return [()]
    return [b, b[:1], b[1:]]


def constraint_rules(ctx, mod):
    ctx.rule('slack', 'fun is, on every path, a positive multiple of the side (num - r den, more - less, value - bound) that is least there', 10)
    ctx.rule('gradient', 'jac equals the derivative of fun for every parameter, on every path', 10)
    ctx.rule('note', 'the binding note names the bound of the side that fun reports', 4)
    ctx.rule('linear', 'the linear form has a row for every side, and no row that is not a side', 6)
    ctx.rule('penalty', 'the soft penalty is a negative softplus of the violation of the least side', 8)
    ctx.rule('penalty gradient', 'the gradient of the soft penalty is its derivative', 8)
    ctx.rule('binding gradient', 'the gradient at a binding side points as the gradient of that side, where that side is the one tested', 3)
    ctx.rule('dictionary', 'the constraint dictionary is an inequality made of fun and jac', 1)
    classes = [c for c in mod.classes.values()]
    hk = Hooks(ctx, mod, classes)
    hk.owner = {}
    for c in classes:
        for m in c.functions():
            hk.owner[id(m.node)] = c
    undecided = {}
    X, I, SH = ('vec', 'x'), Poly.atom('intensity'), Poly.atom('sharpness')
    done = set()
    for name, spec in KINDS.items():
        cls = mod.classes.get(name)
        if cls is None:
            raise AnalysisBroken('constraint class %s not found' % name)
        lead = LEAD[name]
        for present in configs(spec):
            for history in ('at construction', 'later', 'again'):
                tag = '%s(%s) linked %s' % (name, ', '.join(present), history)
                try:
                    ex, cur = linked(hk, cls, spec, present, history)
                except Unknown as e:
                    undecided[tag] = str(e)
                    continue
                for q0, ref in cur:
                    sd = sides(name, present, q0)
                    if sd is None:
                        sd = {}
                    loc = cls.methods['link_model'].loc(cls.methods['link_model'].node) if 'link_model' in cls.methods else mod.rel
                    for rule, fn in (('slack', r_slack), ('gradient', r_grad), ('note', r_note), ('linear', r_linear), ('penalty', r_penalty), ('dictionary', r_dict)):
                        try:
                            for rl, ok, where, msg in fn(hk, ex, q0.copy(), ref, cls, spec, sd, lead, (X, I, SH)):
                                done.add(rl)
                                ctx.ob(rl, '%s.%s' % (name, where), ok, loc if where not in cls.methods else cls.methods[where].loc(cls.methods[where].node), '%s: %s' % (tag, msg))
                        except Unknown as e:
                            undecided['%s %s' % (tag, rule)] = str(e)
    ctx.info['undecided'] = undecided


def show(v):
    s = repr(v)
    s = re.sub(r"\('at', 'x', \('idx', \('model', 2\), \('par', '(\w+)'\)\)\)", r'x[\1]', s)
    s = re.sub(r"\('bound', '(\w+)'\)", r'\1', s)
    return s[:300]


def r_slack(hk, ex, q0, ref, cls, spec, sd, lead, a):
    for q, v in run_method(hk, ex, q0, ref, 'fun', [a[0]]):
        if has_unknown(v):
            raise Unknown('fun returns %s' % str(v)[:80])
        if not sd:
            # nothing is known to be bounded: no violation may be reported
            yield 'slack', v == INF or (isinstance(v, Poly) and not v.t), 'fun', 'fun is %s although no side is bounded (or the sign of the denominator is not known)' % show(v)
            continue
        if v == INF:
            yield 'slack', False, 'fun', 'fun is infinite although %s is bounded' % ', '.join(sd)
            continue
        b, k = which(hk, v, sd, lead)
        if b is None:
            yield 'slack', False, 'fun', 'fun is %s, which is not a positive multiple of a side (%s)' % (show(v), '; '.join(show(s) for s in sd.values()))
            continue
        yield 'slack', least(hk, q, v, b, sd, lead), 'fun', 'fun reports the side of %s without having found it to be the least' % b


def r_grad(hk, ex, q0, ref, cls, spec, sd, lead, a):
    if not sd:
        return
    for q, v in run_method(hk, ex, q0, ref, 'fun', [a[0]]):
        if has_unknown(v) or v == INF:
            raise Unknown('fun not evaluated')
        for r, j in run_method(hk, ex, q, ref, 'jac', [a[0]]):
            g = array_grad(ex, ex.deref(j, r), spec['params'])
            if g is None:
                raise Unknown('jac not readable')
            w = grad(ex, v, spec['params'])
            bad = [k for k in g if g[k] != w.get(k, Poly())]
            yield 'gradient', not bad, 'jac', 'where fun is %s, jac is %s for %s, not %s' % (show(v), show(g[bad[0]]) if bad else '', bad[:1], show(w.get(bad[0], Poly())) if bad else '')


def r_note(hk, ex, q0, ref, cls, spec, sd, lead, a):
    if not sd:
        return
    for q, v in run_method(hk, ex, q0, ref, 'fun', [a[0]]):
        b, k = which(hk, v, sd, lead)
        if b is None:
            continue
        for r, s in run_method(hk, ex, q, ref, 'get_binding_note', [a[0]]):
            if not (isinstance(s, tuple) and s and s[0] == 'str'):
                raise Unknown('note not readable')
            parts = s[1]
            text = ''.join(x for x in parts if isinstance(x, str))
            if b == 'order':
                names = [x[1] for x in parts if isinstance(x, tuple) and x[:1] == ('par',)]
                up = bool(re.search('≥|>', text))
                want = ['p_more', 'p_less'] if up else ['p_less', 'p_more']
                yield 'note', names == want, 'get_binding_note', 'the note names %s %s %s' % (names[:1], text.strip(), names[1:])
            else:
                bs = [m[0][0][1] for x in parts if isinstance(x, Poly) for m in x.t if m and m[0][0][0] == 'bound']
                ge = bool(re.search('≥|>', text))
                yield 'note', bs == [b] and ge == (b.startswith('min')), 'get_binding_note', 'the side of %s binds and the note says "%s %s"' % (b, text.strip(), bs)


def r_linear(hk, ex, q0, ref, cls, spec, sd, lead, a):
    if not sd:
        return
    for q, v in run_method(hk, ex, q0, ref, 'as_linear_constraints', []):
        v = ex.deref(v, q)
        if not (isinstance(v, tuple) and v[0] in ('list', 'tuple')):
            raise Unknown('linear form not readable')
        cover, bad = set(), []
        for c in v[1]:
            if not (isinstance(c, tuple) and c[0] == 'lincon' and isinstance(c[1], Arr)) or c[1].fill != Poly():
                raise Unknown('linear form not readable')
            rows = {}
            for e, coef in c[1].ent.items():
                if not (isinstance(e, tuple) and len(e) == 2) or not isinstance(coef, Poly):
                    raise Unknown('linear form not readable')
                (m, _), = e[1].t.items() if isinstance(e[1], Poly) and len(e[1].t) == 1 else (((('?', 1),), 1),)
                rows[e[0]] = rows.get(e[0], Poly()) + coef * Poly.atom(('at', 'x', e[1]))
            for n, row in rows.items():
                for bnd, lower in ((c[2], True), (c[3], False)):
                    bnd = ex.deref(bnd, q)
                    if isinstance(bnd, tuple) and bnd and bnd[0] in ('list', 'tuple') and isinstance(n, Poly) and n.is_const():
                        bnd = bnd[1][int(n.value())]
                    if bnd == (('neginf',) if lower else INF):
                        continue
                    if not isinstance(bnd, Poly):
                        raise Unknown('bound of the linear form not readable')
                    s = row - bnd if lower else bnd - row
                    if not s.t:
                        continue
                    b, k = which(hk, s, sd, lead)
                    if b is None:
                        bad.append(s)
                    else:
                        cover.add(b)
        yield 'linear', not bad, 'as_linear_constraints', 'requires %s >= 0, which is not a side' % (show(bad[0]) if bad else '')
        yield 'linear', cover == set(sd), 'as_linear_constraints', 'no row for %s' % ', '.join(sorted(set(sd) - cover))


def r_penalty(hk, ex, q0, ref, cls, spec, sd, lead, a):
    if not sd:
        return
    X, I, SH = a
    if hk.method(cls, 'as_soft_penalty') is None:
        yield 'penalty', False, 'as_soft_penalty', 'the numba engine asks every constraint for its soft penalty, and this kind has none'
        return
    for q, t in run_method(hk, ex, q0, ref, 'as_soft_penalty', []):
        t = ex.deref(t, q)
        if not (isinstance(t, tuple) and t[0] in ('tuple', 'list') and len(t[1]) == 3 and all(isinstance(f, Closure) for f in t[1])):
            raise Unknown('as_soft_penalty does not return three functions')
        pen, dpen, bind = t[1]
        for q1, v in ex.invoke(pen.node, dict(pen.env), [X, I, SH], {}, q.copy()):
            if not isinstance(v, Poly):
                raise Unknown('penalty is %s' % str(v)[:80])
            used, ok, why = {}, bool(v.t), 'is zero'
            for m, c in v.t.items():
                sp = [x for x, e in m if isinstance(x, tuple) and x[0] == 'softplus']
                if len(sp) != 1 or c >= 0 or not all(hk.positive(x) for x, e in m) or not hk.pos(sp[0][2]):
                    ok, why = False, 'is %s, which is not a negative softplus of a violation' % show(v)
                    break
                b, k = which(hk, -sp[0][1], sd, lead)
                if b is None:
                    ok, why = False, 'has the violation %s, which is not the negative of a positive multiple of a side' % show(sp[0][1])
                    break
                used[b] = -sp[0][1]
            if ok and set(used) != set(sd):
                b = next(iter(used))
                if len(used) != 1 or not least(hk, q1, used[b], b, sd, lead):
                    ok, why = False, 'penalises the side of %s without having found it to be the least' % b
            yield 'penalty', ok, 'as_soft_penalty', 'the penalty ' + why
            for q2, d in ex.invoke(dpen.node, dict(dpen.env), [X, I, SH], {}, q1.copy()):
                g = array_grad(ex, ex.deref(d, q2), spec['params'])
                if g is None:
                    raise Unknown('penalty gradient not readable')
                w = grad(ex, v, spec['params'])
                bad = [k for k in g if g[k] != w.get(k, Poly())]
                yield 'penalty gradient', not bad, 'as_soft_penalty', 'the gradient of the penalty is %s for %s, not %s' % (show(g[bad[0]]) if bad else '', bad[:1], show(w.get(bad[0], Poly())) if bad else '')
        for q1, d in ex.invoke(bind.node, dict(bind.env), [X, I], {}, q.copy()):
            g = array_grad(ex, ex.deref(d, q1), spec['params'])
            if g is None:
                raise Unknown('binding gradient not readable')
            if not any(x.t for x in g.values()):
                continue
            hit = None
            for b, s in sd.items():
                w = grad(ex, s, spec['params'])
                ks = [g[k] * w[k].inv() for k in spec['params'] if w[k].t and len(w[k].t) == 1]
                if ks and all(k == ks[0] for k in ks) and hk.pos(ks[0]) and set(g) == set(w):
                    hit = b
            yield 'binding gradient', hit is not None, 'as_soft_penalty', 'the gradient at a binding side is %s, which points as no side' % {k: show(x) for k, x in g.items()}
            if hit is None or len(sd) < 2:
                continue
            near, far = set(), set()
            for c, tr in q1.conds:
                if c[0] == 'pos' and isinstance(c[1], Poly) and len(c[1].t) == 2:
                    for m, co in c[1].t.items():
                        if len(m) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'abs':
                            small = tr == (co < 0)
                            for b, s in sd.items():
                                if which(hk, m[0][0][1], {b: s}, lead)[0] or which(hk, -m[0][0][1], {b: s}, lead)[0]:
                                    (near if small else far).add(b)
            if near or far:
                yield 'binding gradient', hit in near, 'as_soft_penalty', 'the gradient is that of %s where %s was found near its bound' % (hit, ', '.join(near) or 'nothing')


def r_dict(hk, ex, q0, ref, cls, spec, sd, lead, a):
    for q, v in run_method(hk, ex, q0, ref, 'as_constraint_dicts', []):
        v = ex.deref(v, q)
        if not (isinstance(v, tuple) and v[0] in ('list', 'tuple')):
            raise Unknown('dictionaries not readable')
        for d in v[1]:
            if isinstance(d, tuple) and d and d[0] == 'call' and ex.fname(d[1]) == 'dict':
                d = ('dict', d[3])
            if not (isinstance(d, tuple) and d and d[0] == 'dict'):
                raise Unknown('dictionaries not readable')
            d = dict(d[1])
            yield 'dictionary', d.get('type') == 'ineq', 'as_constraint_dicts', 'the type is %r' % (d.get('type'),)
            for k, m in (('fun', 'fun'), ('jac', 'jac')):
                yield 'dictionary', d.get(k) == ('attr', ref, m), 'as_constraint_dicts', '%s is not the %s of the constraint' % (k, m)


# ------------------------------------------------------------------ text forms
import re._parser as rp
import re._constants as rc

OPS = {'<=': -1, '<': -1, '>=': 1, '>': 1}


def tokens_of(pattern):
    """the pattern as a sequence of (kind, group): kinds 'num', 'tok', ('op', sign), '/'"""
    tree = rp.parse(pattern)
    out = []

    def literals(items):
        opts = ['']
        for op, av in items:
            if op is rc.LITERAL:
                opts = [o + chr(av) for o in opts]
            elif op is rc.BRANCH:
                alts = [l for b in av[1] for l in (literals(b) or [None])]
                if None in alts:
                    return None
                opts = [o + a for o in opts for a in alts]
            elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT) and av[0] == 0 and av[1] == 1:
                l = literals(av[2])
                if l is None:
                    return None
                opts = opts + [o + a for o in opts for a in l]
            elif op is rc.SUBPATTERN:
                l = literals(av[3])
                if l is None:
                    return None
                opts = [o + a for o in opts for a in l]
            elif op is rc.IN and all(o is rc.LITERAL for o, _ in av):
                opts = [o + chr(c) for o in opts for _, c in av]
            else:
                return None
        return opts

    def classes(items, acc):
        for op, av in items:
            if op is rc.IN:
                for o, c in av:
                    if o is rc.CATEGORY:
                        acc.add(c)
                    elif o is rc.LITERAL:
                        acc.add(chr(c))
                    elif o is rc.RANGE:
                        acc.add(('range', c))
                    elif o is rc.NEGATE:
                        acc.add('negate')
            elif op is rc.CATEGORY:
                acc.add(av)
            elif op is rc.LITERAL:
                acc.add(chr(av))
            elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
                classes(av[2], acc)
            elif op is rc.SUBPATTERN:
                classes(av[3], acc)
            elif op is rc.BRANCH:
                for b in av[1]:
                    classes(b, acc)
        return acc

    items, run = [], []
    for op, av in list(tree) + [(None, None)]:
        one = literals([(op, av)]) if op is not None and not (op is rc.SUBPATTERN and av[0] is not None) else None
        if one and all(set(x) <= set('<>=') for x in one):
            run.append((op, av))
            continue
        if run:
            items.append(('ops', run))
            run = []
        if op is not None:
            items.append((op, av))
    for op, av in items:
        if op == 'ops':
            l = literals(av)
            if not (all(x in OPS for x in l) and len({OPS[x] for x in l}) == 1):
                raise Unknown('operators %s' % l)
            out.append((('op', OPS[l[0]]), None))
            continue
        if op is rc.AT:
            continue
        if op in (rc.MAX_REPEAT, rc.MIN_REPEAT) and classes(av[2], set()) <= {rc.CATEGORY_SPACE, ' '}:
            continue
        if op is rc.SUBPATTERN and av[0] is not None:
            l = literals(av[3])
            if l and all(x in OPS for x in l) and len({OPS[x] for x in l}) == 1:
                out.append((('op', OPS[l[0]]), av[0]))
                continue
            c = classes(av[3], set())
            if rc.CATEGORY_WORD in c:
                if c & set('<>=/'):
                    raise Unknown('the name of a parameter may contain an operator')
                out.append(('tok', av[0]))
            elif rc.CATEGORY_DIGIT in c or any(isinstance(x, tuple) for x in c):
                out.append(('num', av[0]))
            else:
                raise Unknown('group %s of %s' % (av[0], pattern))
            continue
        if op is rc.LITERAL and chr(av) in '/ ':
            if chr(av) == '/':
                out.append(('/', None))
            continue
        raise Unknown('%s in %s' % (op, pattern))
    return out


def meaning(seq):
    """(class, {argument: group}) the form stands for; groups of numbers are ('num', g)"""
    kinds = [k for k, g in seq]
    # terms separated by operators
    terms, ops, cur = [], [], []
    for k, g in seq:
        if isinstance(k, tuple):
            terms.append(cur)
            ops.append(k[1])
            cur = []
        else:
            cur.append((k, g))
    terms.append(cur)

    def shape(t):
        return ' '.join(k for k, g in t)
    sh = [shape(t) for t in terms]
    if len(ops) == 1 and sh == ['tok', 'tok']:
        less, more = (terms[0], terms[1]) if ops[0] < 0 else (terms[1], terms[0])
        return 'OrderingBound', {'p_less': less[0][1], 'p_more': more[0][1]}
    mid = [i for i, s in enumerate(sh) if s != 'num']
    if len(mid) != 1 or sh[mid[0]] not in ('tok', 'tok / tok'):
        return None, None
    m = terms[mid[0]]
    ratio = sh[mid[0]] != 'tok'
    lo, hi = ('min_ratio', 'max_ratio') if ratio else ('minimum', 'maximum')
    args = {'p_num': m[0][1], 'p_den': m[2][1]} if ratio else {'p': m[0][1]}
    for i, o in enumerate(ops):
        left, right = terms[i], terms[i + 1]
        if i == mid[0]:              # middle OP number
            args[hi if o < 0 else lo] = ('num', right[0][1])
        elif i + 1 == mid[0]:        # number OP middle
            args[lo if o < 0 else hi] = ('num', left[0][1])
        else:
            return None, None
    return ('RatioBound' if ratio else 'FixedBound'), args


class TextHooks(Hooks):
    def call(self, ex, n, f, args, kw, p):
        nm = ex.fname(f)
        if nm in ('match', 'fullmatch', 'search') and args and not (isinstance(f, tuple) and f[0] == 'attr' and f[1] == ('text',)):
            pat, text = args[0], args[1] if len(args) > 1 else None
            if isinstance(pat, tuple) and pat and pat[0] == 'compiled':
                pat = pat[1]
            elif isinstance(f, tuple) and f[0] == 'attr' and isinstance(f[1], tuple) and f[1][:1] == ('compiled',):
                pat = f[1][1]
            if not isinstance(pat, str):
                raise Unknown('pattern not constant')
            if nm == 'fullmatch':
                pat = '^' + pat + '$'
            if not (pat.startswith('^') or nm == 'match') or not pat.endswith('$'):
                self.loose.append(pat)
            return [(p, ('rx', pat))]
        if nm == 'compile' and args and isinstance(args[0], str):
            return [(p, ('compiled', args[0]))]
        if isinstance(f, tuple) and f[0] == 'attr' and isinstance(f[1], tuple) and f[1][:1] == ('rx',):
            if nm == 'group' and len(args) == 1 and isinstance(args[0], Poly):
                return [(p, ('grp', f[1][1], int(args[0].value())))]
            if nm == 'group' and len(args) > 1:
                return [(p, ('tuple', tuple(('grp', f[1][1], int(a.value())) for a in args)))]
            if nm == 'groups':
                k = rp.parse(f[1][1]).state.groups - 1
                return [(p, ('tuple', tuple(('grp', f[1][1], i + 1) for i in range(k))))]
        if nm == 'strip' and isinstance(f, tuple) and f[0] == 'attr' and isinstance(f[1], tuple) and f[1][:1] == ('grp',):
            return [(p, f[1])]
        if nm in ('asfloat', 'float') or (args and isinstance(args[0], tuple) and args[0][:1] == ('grp',) and nm == self.asfloat):
            if len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('grp',):
                return [(p, ('num', args[0][2]))]
        if nm in KINDS and isinstance(f, tuple) and f[0] == 'name':
            cls = self.module.classes[nm]
            ps = self.method(cls, '__init__').params[1:]
            a = dict(zip(ps, args))
            a.update(kw)
            return [(p, ('new', nm, tuple(sorted((k, v) for k, v in a.items() if v != NONE))))]
        return NotImplemented

    def sub(self, ex, o, i, p):
        if isinstance(o, tuple) and o[:1] == ('rx',) and isinstance(i, Poly) and i.is_const():
            return ('grp', o[1], int(i.value()))
        return super().sub(ex, o, i, p)


def text_rules(ctx, mod):
    ctx.rule('text form', 'every textual form of a constraint is read as the bound it states: class, parameters, bounds and direction', 6)
    ctx.rule('text number', 'a fraction in a textual bound is its first number over its second', 1)
    f = next((mod.funcs[n] for n in ('interpret_contraint', 'interpret_constraint') if n in mod.funcs), None)
    if f is None:
        raise AnalysisBroken('interpret_contraint not found')
    ctx.seen(f)
    hk = TextHooks(ctx, mod, [])
    hk.owner, hk.loose, hk.asfloat = {}, [], 'asfloat'
    ex = FixSuper(hk)
    p = Path({})
    for n, c in mod.consts.items():
        v = c[0] if isinstance(c, (list, tuple)) else c
        if isinstance(v, ast.AST):
            try:
                p.env[n] = ex.ev(v, p)[0][1]
            except Exception:
                pass
    und = ctx.info.setdefault('undecided', {})
    try:
        paths = ex.invoke(f.node, dict(p.env), [('text',)], {}, p)
    except Unknown as e:
        und['interpret'] = str(e)
        paths = []
    for q, v in paths:
        pats = [c[1][1] for c, t in q.conds if t and c[0] == 'truth' and isinstance(c[1], tuple) and c[1][:1] == ('rx',)]
        if not pats:
            continue
        try:
            seq = tokens_of(pats[-1])
        except Unknown as e:
            und['form ' + pats[-1]] = str(e)
            continue
        form = ' '.join(k if isinstance(k, str) else ('<=' if k[1] < 0 else '>=') for k, g in seq)
        cls, want = meaning(seq)
        if cls is None:
            und['form ' + form] = 'no meaning known'
            continue
        if not (isinstance(v, tuple) and v[:1] == ('new',)):
            und['form ' + form] = 'result not readable'
            continue
        got = {k: (('num', x[1]) if isinstance(x, tuple) and x[0] == 'num' else x[2] if isinstance(x, tuple) and x[0] == 'grp' and x[1] == pats[-1] else x) for k, x in v[2]}
        ok = v[1] == cls and got == want
        ctx.ob('text form', '%s reads "%s"' % (f.qual, form), ok, f.loc(f.node), '"%s" is read as %s(%s), it means %s(%s) (numbers are groups of the pattern)' % (form, v[1], got, cls, want))
    g = mod.funcs.get('asfloat')
    if g is not None:
        ctx.seen(g)
        ex2 = Exec(None)
        try:
            for q, v in ex2.invoke(g.node, {}, [('text',)], {}, Path({})):
                if isinstance(v, tuple) and v[:2] == ('op', 'Div'):
                    l, r = v[2], v[3]
                    def ix(z):
                        return z[2].value() if isinstance(z, tuple) and z[0] == 'sub' and isinstance(z[2], Poly) else None
                    if ix(l) is not None and ix(r) is not None:
                        ctx.ob('text number', g.qual, (ix(l), ix(r)) == (0, 1), g.loc(g.node), 'part %s is divided by part %s' % (ix(l), ix(r)))
        except Unknown as e:
            und['asfloat'] = str(e)
    ctx.floors['text number'] = 0


class SplitHooks(Hooks):
    def call(self, ex, n, f, args, kw, p):
        nm = ex.fname(f)
        if isinstance(f, tuple) and f[0] == 'attr' and f[1] == ('text',) and nm in ('split', 'partition', 'rsplit') and args and isinstance(args[0], str):
            a, b = ('part', args[0], 0), ('part', args[0], 1)
            return [(p, ('list', (a, args[0], b) if nm == 'partition' else (a, b)))]
        if nm == 'strip' and isinstance(f, tuple) and f[0] == 'attr' and isinstance(f[1], tuple) and f[1][:1] == ('part',):
            return [(p, f[1])]
        if nm == 'map' and len(args) == 2 and isinstance(args[1], tuple) and args[1][:1] in (('list',), ('tuple',)):
            return [(p, args[1])]
        return super().call(ex, n, f, args, kw, p)


def order_text_rules(ctx, mod):
    ctx.rule('ordering text', 'an ordering given as text puts the parameter on the small side of the sign below the other', 0)
    cls = mod.classes['OrderingBound']
    hk = SplitHooks(ctx, mod, [])
    hk.owner = {id(m.node): c for c in mod.classes.values() for m in c.functions()}
    ex = FixSuper(hk)
    p = Path({})
    ref = ex.new(Inst(cls, {}), p)
    f = cls.methods['__init__']
    try:
        paths = run_method(hk, ex, p, ref, '__init__', [('text',)])
    except Unknown as e:
        ctx.info.setdefault('undecided', {})['ordering text'] = str(e)
        return
    for q, _ in paths:
        a = q.heap[ref].attrs
        l, m = a.get('p_less'), a.get('p_more')
        if not (isinstance(l, tuple) and isinstance(m, tuple) and l[:1] == m[:1] == ('part',)):
            continue
        sep = l[1]
        conds = {c[1]: t for c, t in q.conds if c[0] == 'in' and c[2] == ('text',)}
        want = (0, 1) if '<' in sep else (1, 0)
        ctx.ob('ordering text', 'OrderingBound("a %s b")' % sep, sep == m[1] and (l[2], m[2]) == want, f.loc(f.node), 'the smaller is taken from part %s of the text' % l[2])
        if sep in '<>':
            ctx.ob('ordering text', 'OrderingBound("a %s= b")' % sep, conds.get(sep + '=') is False, f.loc(f.node), 'the text is split at %s although it may have %s=' % (sep, sep))


# ------------------------------------------------------------------ bounds of parameters in the numba engine
class NumbaHooks(Hooks):
    def call(self, ex, n, f, args, kw, p):
        nm = ex.fname(f)
        if nm in ('range', 'prange'):
            return [(p, ('list', (Poly.atom('i'),)))]
        if nm == 'max' or nm == 'maximum':
            return NotImplemented
        return super().call(ex, n, f, args, kw, p)


def numba_rules(ctx):
    ctx.rule('bounds penalty', 'the penalty on parameter bounds is the negative softplus of each violation, and its gradient the derivative', 2)
    ctx.rule('bounds binding', 'the gradient at a binding bound points away from that bound', 1)
    m = ctx.prog.need_module('larch.numba.model')
    f = m.funcs.get('bounds_penalty')
    und = ctx.info.setdefault('undecided', {})
    if f is None:
        und['bounds_penalty'] = 'not found'
        ctx.floors['bounds penalty'] = ctx.floors['bounds binding'] = 0
        return
    ctx.seen(f)
    hk = NumbaHooks(ctx, m, [])
    hk.owner = {}
    base = hk.positive
    hk.positive = lambda a: (isinstance(a, tuple) and a[0] == 'at' and a[1] in ('constraint_intensity', 'constraint_sharpness', f.params[3], f.params[4])) or base(a)
    ex = FixSuper(hk)
    p = Path({})
    ins = [('vec', n) for n in f.params[:5]]
    outs = [ex.new(Arr(Poly.atom(('junk', n))), p) for n in f.params[5:8]]
    i = Poly.atom('i')
    x, lo, hi = (Poly.atom(('at', n, i)) for n in f.params[:3])
    intensity = Poly.atom(('at', f.params[3], Poly()))
    (mx, _), = x.t.items()
    try:
        paths = ex.invoke(f.node, {}, ins + outs, {}, p)
    except Unknown as e:
        und['bounds_penalty'] = str(e)
        ctx.floors['bounds penalty'] = ctx.floors['bounds binding'] = 0
        return
    for q, _ in paths:
        if any((not t and c[0] == 'truth') or (t and c[0] == 'zero') for c, t in q.conds):
            continue                 # a penalty of exactly zero
        pen = q.heap[outs[0]].ent.get(Poly(), q.heap[outs[0]].fill)
        g = q.heap[outs[1]].ent.get(i, q.heap[outs[1]].fill)
        b = q.heap[outs[2]].ent.get(i, q.heap[outs[2]].fill)
        if not all(isinstance(v, Poly) for v in (pen, g, b)):
            und['bounds_penalty'] = 'not readable'
            continue
        seen, bad = set(), None
        for mm, c in pen.t.items():
            sp = [a for a, e in mm if isinstance(a, tuple) and a[0] == 'softplus']
            if len(sp) != 1 or c >= 0 or not all(hk.positive(a) for a, e in mm):
                bad = 'is %s' % show(pen)
                break
            s = -sp[0][1]
            if s == x - lo:
                seen.add('lower')
            elif s == hi - x:
                seen.add('upper')
            else:
                bad = 'has the violation %s' % show(sp[0][1])
        ctx.ob('bounds penalty', f.qual + ' value', bad is None and seen == {'lower', 'upper'}, f.loc(f.node), 'the penalty ' + (bad or 'covers only %s' % sorted(seen)))
        w = pen.diff(mx[0][0], dfun)
        ctx.ob('bounds penalty', f.qual + ' gradient', g == w, f.loc(f.node), 'the gradient is %s, the derivative %s' % (show(g), show(w)))
        near = set()
        for c, t in q.conds:
            if c[0] == 'pos' and isinstance(c[1], Poly):
                for mm, co in c[1].t.items():
                    for a, e in mm:
                        if isinstance(a, tuple) and a[0] == 'abs' and len(mm) == 1 and t == (co < 0):
                            if a[1] in (x - lo, lo - x):
                                near.add(1)
                            if a[1] in (x - hi, hi - x):
                                near.add(-1)
        if b.t:
            sign = 1 if hk.pos(b) else -1 if hk.pos(-b) else 0
            ctx.ob('bounds binding', f.qual, sign in near, f.loc(f.node), 'at the %s bound the gradient is %s' % ('/'.join('lower' if z > 0 else 'upper' for z in sorted(near)) or 'no', show(b)))


def wiring_rules(ctx):
    """constraint_penalty adds value to value, gradient to gradient, binding gradient to binding gradient"""
    ctx.rule('penalty sum', 'the penalties, gradients and binding gradients of bounds and constraints are each added to their own kind, at the current values', 3)
    cls = ctx.prog.cls('larch.numba.model', 'NumbaModel')
    f = ctx.prog.lookup(cls, 'constraint_penalty') if cls else None
    und = ctx.info.setdefault('undecided', {})
    if f is None:
        und['constraint_penalty'] = 'not found'
        ctx.floors['penalty sum'] = 0
        return
    ctx.seen(f)
    names = ('value', 'gradient', 'binding gradient')

    class W(Hooks):
        def attr(self, ex, b, name, p):
            if name == '_constraint_funcs':
                return ('list', (('tuple', tuple(('name', 'C%d' % k) for k in range(3))),))
            return NotImplemented

        def call(self, ex, n, fv, args, kw, p):
            nm = ex.fname(fv)
            if nm == 'bounds_penalty':
                return [(p, ('tuple', tuple(Poly.atom(('B', k, repr(args[:3]))) for k in range(3))))]
            if nm in ('C0', 'C1', 'C2'):
                return [(p, Poly.atom((nm, repr(args))))]
            if nm == 'set_values':
                return [(p, NONE)]
            return NotImplemented
    hk = W(ctx, ctx.prog.need_module('larch.numba.model'), [])
    hk.owner = {}
    ex = FixSuper(hk)
    try:
        paths = ex.invoke(f.node, {}, [('self',), NONE], {}, Path({}))
    except Unknown as e:
        und['constraint_penalty'] = str(e)
        ctx.floors['penalty sum'] = 0
        return
    for q, v in paths:
        if not (isinstance(v, tuple) and v[0] == 'tuple' and len(v[1]) == 3):
            und['constraint_penalty'] = 'result not readable'
            ctx.floors['penalty sum'] = 0
            continue
        for k, x in enumerate(v[1]):
            if not isinstance(x, Poly):
                und['constraint_penalty'] = 'result not readable'
                ctx.floors['penalty sum'] = 0
                continue
            got = sorted((a[0], a[1] if a[0] == 'B' else None) for a in x.atoms())
            ok = got == [('B', k), ('C%d' % k, None)] and all(c == 1 and len(m) == 1 for m, c in x.t.items())
            ctx.ob('penalty sum', '%s %s' % (f.qual, names[k]), ok, f.loc(f.node), 'the %s is made of %s' % (names[k], got))


def link_rules(ctx, mod):
    ctx.rule('relink', 'before constraints are used their parameter positions are looked up again whenever parameters may have changed', 1)
    ctx.rule('rebuild', 'changing the list of constraints, or their scale, marks the model so that compiled penalties are rebuilt', 4)
    prog = ctx.prog
    from ..flatten import View
    Model = prog.cls('larch.model.model', 'Model')
    # the constraint list belongs to Model: its unmangle must link every constraint after the names are ensured
    um = prog.lookup(Model, 'unmangle')
    ok, why, fn = False, 'unmangle does not link the constraints again', um
    seen = set()

    def links(func, depth=0):
        """line order: 'base' (names ensured) and 'link' events"""
        ev = []
        if func is None or func.qual in seen or depth > 3:
            return ev
        seen.add(func.qual)
        ctx.seen(func)
        for n in ordered(func.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if nm == '_is_mangled':
                    ev.append('test')
                if nm == '_scan_all_ensure_names' or (nm == 'unmangle' and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
                    ev.append('base')
                elif nm == 'link_model' or nm == 'set_instance' or nm == 'rescale':
                    ev.append('link')
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == func.params[0]:
                    ev += links(prog.lookup(Model, nm), depth + 1)
        return ev
    if um is not None:
        ev = links(um)
        ok = 'link' in ev and 'base' in ev[:ev.index('link')] if 'link' in ev else False
        if ok and 'test' in ev and ev.index('base') < ev.index('test'):
            ok, why = False, 'whether parameters may have changed is asked after the model has been brought up to date'
        ctx.ob('relink', um.qual, ok, um.loc(um.node), why)
    L = mod.classes.get('ParametricConstraintList')
    if L is None:
        raise AnalysisBroken('ParametricConstraintList not found')
    for name in ('__set__', '__setitem__', '__delitem__', '__delete__', 'insert', 'rescale'):
        f = L.methods.get(name)
        if f is None:
            continue
        ctx.seen(f)
        def calls(func, want, depth=0):
            for n in ast.walk(func.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                    if nm == want:
                        return True
                    if depth < 2:
                        g = L.methods.get(nm) or L.methods.get('_%s%s' % (L.name, nm))
                        if g is not None and g is not func and calls(g, want, depth + 1):
                            return True
            return False
        ctx.ob('rebuild', '%s mangles' % f.qual, calls(f, 'mangle'), f.loc(f.node), 'the model is not marked as changed')
    N = prog.cls('larch.numba.model', 'NumbaModel')
    mg = prog.lookup(N, 'mangle') if N else None
    if mg is not None:
        ctx.seen(mg)
        hit = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '_constraint_funcs' for t in n.targets)
                  and isinstance(n.value, ast.Constant) and n.value.value is None for k in prog.mro(N) for nm, g in k.methods.items() if nm == 'mangle' for n in ast.walk(g.node))
        ctx.ob('rebuild', '%s drops the compiled penalties' % mg.qual, hit, mg.loc(mg.node), '_constraint_funcs is kept')
        um = N.methods.get('unmangle')
        if um is not None:
            base = build = None
            for k, n in enumerate(ordered(um.node)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr == 'unmangle' and base is None:
                        base = k
                    if n.func.attr == 'as_soft_penalty' and build is None:
                        build = k
            if build is not None:
                ctx.ob('rebuild', '%s compiles after linking' % um.qual, base is not None and base < build, um.loc(um.node), 'penalties are compiled before the constraints are linked')


def use_rules(ctx):
    """where the penalty is added to a log likelihood, value goes to value and gradient to gradient"""
    ctx.rule('penalty use', 'the penalty is added to the log likelihood, its gradient to the gradient, with the same sign', 0)
    m = ctx.prog.need_module('larch.numba.model')
    for f in m.all_funcs():
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)
                    and n.value.func.attr == 'constraint_penalty' and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 3):
                continue
            ctx.seen(f)
            nm = {e.id: k for k, e in enumerate(n.targets[0].elts) if isinstance(e, ast.Name)}
            for a in ast.walk(f.node):
                if isinstance(a, ast.AugAssign):
                    t, v, op = a.target, a.value, a.op
                elif isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.BinOp) and a is not n:
                    t, v, op = a.targets[0], a.value, a.value.op
                else:
                    continue
                t = t.value if isinstance(t, ast.Subscript) else t
                role = t.attr if isinstance(t, ast.Attribute) else None
                used = {nm[x.id] for x in ast.walk(v) if isinstance(x, ast.Name) and x.id in nm}
                if role not in ('loglike', 'd_loglike') or not used:
                    continue
                neg = any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) for x in ast.walk(v))
                ok = isinstance(op, ast.Add) and not neg and (used == {0} if role == 'loglike' else used <= {1, 2})
                ctx.ob('penalty use', '%s %s' % (f.qual, role), ok, f.loc(a), '%s takes %s of the penalty, with %s' % (role, '/'.join(('value', 'gradient', 'binding gradient')[k] for k in sorted(used)), type(op).__name__))


def ordered(node):
    out = []
    for n in ast.iter_child_nodes(node):
        out.extend(ordered(n))
        out.append(n)
    return out


def bounds_rules(ctx):
    """bounds of the parameter frame turned into constraints keep their side"""
    ctx.rule('bounds as constraints', 'the constraints made of parameter bounds take minimum from minimum and maximum from maximum', 1)
    Model = ctx.prog.cls('larch.model.model', 'Model')
    f = ctx.prog.lookup(Model, '_get_bounds_constraints')
    und = ctx.info.setdefault('undecided', {})
    if f is None:
        ctx.floors['bounds as constraints'] = 0
        return
    ctx.seen(f)
    made = []
    init = ctx.prog.cls('larch.model.constraints', 'FixedBound').methods['__init__']

    class B(Hooks):
        def sub(self, ex, o, i, p):
            if o == ('row',) and isinstance(i, str):
                return Poly.atom(('cell', i))
            return NotImplemented

        def attr(self, ex, b, name, p):
            if b == ('row',):
                return Poly.atom(('cell', name))
            return NotImplemented

        def call(self, ex, n, fv, args, kw, p):
            nm = ex.fname(fv)
            if nm == 'iterrows':
                return [(p, ('list', (('tuple', (('par', 'name'), ('row',))),)))]
            if nm == 'FixedBound':
                a = dict(zip(init.params[1:], args))
                a.update(kw)
                made.append((a, n))
                return [(p, ('made', len(made)))]
            if nm in ('unmangle', 'append'):
                return [(p, NONE)]
            return NotImplemented
    hk = B(ctx, f.module, [])
    hk.owner = {}
    ex = FixSuper(hk)
    try:
        ex.invoke(f.node, {}, [('self',)], {}, Path({}))
    except Unknown as e:
        und['_get_bounds_constraints'] = str(e)
    for a, n in made:
        for k in ('minimum', 'maximum'):
            v = a.get(k, NONE)
            if v in (NONE, INF, ('neginf',)):
                continue
            ok = isinstance(v, Poly) and v == Poly.atom(('cell', k))
            if isinstance(v, Poly):
                ctx.ob('bounds as constraints', '%s %s' % (f.qual, k), ok, f.loc(n), '%s of the constraint is %s' % (k, v))
        ctx.ob('bounds as constraints', '%s parameter' % f.qual, a.get('p') == ('par', 'name'), f.loc(n), 'the constraint is on %s' % (a.get('p'),))
    if not made:
        ctx.floors['bounds as constraints'] = 0
        und.setdefault('_get_bounds_constraints', 'no constraint made')


def check(ctx):
    mod = ctx.prog.need_module('larch.model.constraints')
    constraint_rules(ctx, mod)
    text_rules(ctx, mod)
    order_text_rules(ctx, mod)
    numba_rules(ctx)
    wiring_rules(ctx)
    use_rules(ctx)
    link_rules(ctx, mod)
    bounds_rules(ctx)
    if ctx.info['undecided']:
        # what could not be evaluated is listed in the evidence; the rest still counts
        for r in ctx.floors:
            ctx.floors[r] = 0
