"""P27: estimation leaves the model at the values it reports."""
import ast

from ..program import AnalysisBroken
from ..versions import NOTHING, Versions, State, TooMany, ALGO

TECHNIQUE = ('abstract interpretation of every estimation algorithm over an equality partition: each variable carries the version of the parameter values it was computed from, '
             'the model the version it holds; loops and exception handlers run to a fixed point')
NOTE = ('numbers are not computed; the minimiser of scipy is trusted to return matching x and fun; '
        'constraint penalties included in a reported value are not separated from the log likelihood')
EXPLAIN = ('On every way out of every estimation algorithm (including after failed steps, resets and switches to another algorithm) the log likelihood returned, the parameter values returned '
           'and the values in the model must carry the same version; algorithms assign values only through set_values, which respects held parameters, and pass the bounds to every minimiser that takes them.')
ASSUME = ['callbacks given by the caller do not assign parameter values']

MODULES = ['larch.model.abstract_model', 'larch.model.controller', 'larch.model.model', 'larch.model.optimization', 'larch.model.latentclass', 'larch.model.model_group', 'larch.numba.model', 'larch.numba.optimization']
BOUNDED = ('slsqp', 'l-bfgs-b', 'tnc', 'trust-constr')


def algorithms(ctx):
    """functions that move the parameter values of a model to look for a better log likelihood"""
    for name in MODULES:
        m = ctx.prog.module(name)
        if m is None:
            continue
        for f in m.all_funcs():
            if not f.params or f.name.startswith('__'):
                continue
            model = f.params[0]
            v = Versions(ctx.prog, f, model, lambda *a: None)
            moves = evals = False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    k = v.method(x.func)
                    if k in ('set_values',) or k in ALGO and k != f.name or any(v.bound(a) for a in list(x.args) + [y.value for y in x.keywords]):
                        moves = True
                    if k is not None and ('loglike' in k or k in ALGO) or any(v.bound(a) for a in list(x.args) + [y.value for y in x.keywords]):
                        evals = True
            if moves and evals and f.name in ('loglike3', 'check_d_loglike') or moves and evals and any(w in f.name for w in ('fit', 'maximize', 'step', 'jumpstart', 'estimate', 'optimi')):
                yield f, model


def check(ctx):
    ctx.rule('reported-together', 'the log likelihood and values returned belong to the values left in the model', 5)
    ctx.rule('reset-on-failure', 'a step given up is undone before the failure is reported', 3)
    ctx.rule('assigned-by-the-model', 'values are changed only through set_values, respecting held parameters', 10)
    ctx.rule('bounds-passed', 'bounds are passed to every minimiser that accepts them', 4)
    ctx.rule('starts-here', 'minimisers start from the values of the model and get the gradient of their objective', 1)
    n = 0
    for f, model in algorithms(ctx):
        n += 1
        ctx.seen(f)
        one(ctx, f, model)
    if n < 5:
        raise AnalysisBroken('only %d estimation algorithms found' % n)
    ctx.info['algorithms'] = n


def one(ctx, f, model):
    said = set()

    def ob(rule, construct, ok, loc, msg):
        k = (rule, construct, ok, loc)
        if k not in said:
            said.add(k)
            ctx.ob(rule, construct, ok, loc, msg)

    def events(kind, node, s, v):
        if kind == 'return' and node.value is not None:
            if isinstance(node.value, ast.Tuple) and not f.name.startswith('maximize'):
                first = ver.value(node.value.elts[0], s.copy())
                if first[0]:
                    ob('reported-together', '%s:%s' % (f.qual, ast.unparse(node.value)[:60]), first[0] == {s.model}, f.loc(node),
                       '%s may return a log likelihood that does not belong to the parameter values it leaves in the model' % f.qual)
            elif v[0]:
                ob('reported-together', '%s:%s' % (f.qual, ast.unparse(node.value)[:60]), v[0] == {s.model}, f.loc(node),
                   '%s may return results that do not belong to the parameter values it leaves in the model' % f.qual)
        if kind == 'raise' and node.exc is not None and 'StepFailure' in ast.unparse(node.exc):
            ob('reset-on-failure', '%s:raise' % f.qual, s.vars.get('@put back', NOTHING)[0] == {s.model}, f.loc(node),
               '%s gives up on a step without putting the values before it back in the model' % f.qual)
        if kind == 'direct':
            ob('assigned-by-the-model', '%s:%s' % (f.qual, ast.unparse(node)[:60]), False, f.loc(node), '%s writes parameter values itself' % f.qual)
        if kind == 'assign':
            r = next((k.value for k in node.keywords if k.arg == 'respect_holdfast'), None)
            ok = r is None or isinstance(r, ast.Constant) and r.value is True
            ob('assigned-by-the-model', '%s:%s' % (f.qual, ast.unparse(node)[:60]), ok, f.loc(node), '%s moves parameters that are held' % f.qual)
        if kind == 'minimise':
            vals, kws = v
            start = vals[1] if len(vals) > 1 else kws.get('x0')
            if start is not None:
                ob('starts-here', '%s:start' % f.qual, start[1] and start[0] == {s.model}, f.loc(node), '%s does not start from the values of the model' % f.qual)
            fun = node.args[0] if node.args else next((k.value for k in node.keywords if k.arg == 'fun'), None)
            jac = next((k.value for k in node.keywords if k.arg == 'jac'), None)
            if fun is not None and jac is not None and ver.method(fun) and ver.method(jac):
                pair = (ver.method(fun), ver.method(jac))
                ob('starts-here', '%s:gradient' % f.qual, pair == ('neg_loglike', 'neg_d_loglike'), f.loc(node), '%s minimises %s with the gradient %s' % ((f.qual,) + pair))
            m = s.consts.get('method')
            if isinstance(m, str) and m.lower() in BOUNDED:
                b = kws.get('bounds')
                ob('bounds-passed', '%s:%s' % (f.qual, m), b is not None and b[2] == 'bounds', f.loc(node), '%s does not pass the bounds of the parameters to %s' % (f.qual, m))

    ver = Versions(ctx.prog, f, model, events)
    try:
        ver.run()
        if 'method' in f.all_params:
            for m in BOUNDED:
                ver.run(State(consts={'method': m}))
    except TooMany:
        raise AnalysisBroken('too many states in %s' % f.qual)
