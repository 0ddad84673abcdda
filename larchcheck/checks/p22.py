"""P22: cross validation scores the cases left out of the fit."""
import ast
import itertools

from ..program import AnalysisBroken
from ..engines import ENGINES, is_prange
from ..members import Run, show, has
from ..versions import EVAL, SET, ONE, ALGO, Versions

TECHNIQUE = ('symbolic summary of one generic round of the cross validation (which fit, which score, what is summed), constant propagation through the case loops of the engines for every residue class, '
             'and argument binding of every evaluation made during a fit')
NOTE = 'fold sizes and the quality of the assignment of cases to folds are not judged; the cases are assumed to be in random order already, as documented'
EXPLAIN = ('In the summary of cross_validate, each round must hold exactly one fit that leaves out the label of the round and one score, of the fitted values, that keeps only the same label under the same number of folds, '
           'and the scores of all rounds are summed; each engine must process a case exactly if the selection says so (decided for every combination of label and residue), for the row of the data the case is in; '
           'every evaluation on behalf of a fit receives the selection of the fit.')
ASSUME = ['row numbers enter the selection through their residue only', 'P01: entry points hand the selection on to the engines']

FOLD = ('leave_out', 'keep_only', 'subsample')
MODULES = ['larch.model.abstract_model', 'larch.model.controller', 'larch.model.model', 'larch.model.optimization', 'larch.model.latentclass', 'larch.model.model_group', 'larch.numba.model', 'larch.numba.optimization']
FITS = {'maximize_loglike', 'fit_bhhh', 'simple_fit_bhhh', 'estimate'}
SCORES = {'loglike', 'loglike2', 'loglike2_bhhh', '_loglike2_bhhh_tuple'}
MOVES = SET | ONE | ALGO


def check(ctx):
    ctx.rule('round', 'a round fits without a fold and scores that fold, at the values fitted', 5)
    ctx.rule('every-fold', 'every fold is scored once and the scores are summed', 2)
    ctx.rule('case-selected', 'a case takes part in a computation exactly if the selection says so', 3)
    ctx.rule('selection-of-the-fit', 'every evaluation made for a fit gets the selection of the fit', 12)
    rounds(ctx)
    engines(ctx)
    select_fold(ctx)
    fits(ctx)


# ---------------------------------------------------------------- the rounds
def rounds(ctx):
    n = 0
    for name in MODULES:
        m = ctx.prog.module(name)
        for c in (m.classes.values() if m is not None else ()):
            f = c.methods.get('cross_validate')
            if f is not None:
                n += 1
                ctx.seen(f)
                rounds_of(ctx, c, f)
    if not n:
        raise AnalysisBroken('no cross_validate found')


def called(t):
    """(name, args, kwargs) of a call of a method of the model"""
    if t[:1] == ('call',) and t[1][0] == 'attr' and t[1][1] == ('self',):
        return t[1][2], t[2], dict(t[3])
    return None, (), {}


def off(t):
    return t is None or t[0] == 'c' and (t[1] is None or isinstance(t[1], (int, float)) and t[1] < 0)


def rounds_of(ctx, c, f):
    p = [x for x in f.all_params if x not in ('self',)]
    if not p:
        raise AnalysisBroken('%s takes no number of folds' % f.qual)
    total = ('p', p[0])
    colls = {('call', ('g', 'range'), a, ()): 'list' for a in ((total,), (('c', 0), total), (('c', 0), total, ('c', 1)))}
    run = Run(ctx.prog, c, colls, inline=lambda g: g.name not in EVAL | ALGO | SET | ONE)
    paths = [q for q in run.method(f) if q.end[0] == 'return']
    if not paths:
        raise AnalysisBroken('%s never returns' % f.qual)
    for q in paths:
        fit, score, order = [], [], []
        for e in q.effects:
            k, a, kw = called(e[1])
            if k in FITS:
                fit.append((e, a, kw))
                order.append('fit')
            elif k in SCORES and (e[0] or 'keep_only' in kw):
                score.append((e, a, kw))
                order.append('score')
            elif k in MOVES or e[1][:1] == ('store',) and has(e[1][1], ('c', 'value')):
                order.append('move')

        def ob(rule, what, ok, msg, line=None):
            ctx.ob(rule, '%s:%s' % (f.qual, what), ok, '%s:%d' % (f.module.rel, line or f.node.lineno), '%s: %s' % (f.qual, msg))

        ob('round', 'one-fit', len(fit) == 1, '%d fits in a round' % len(fit))
        ob('round', 'one-score', len(score) == 1, '%d scores in a round' % len(score))
        if len(fit) != 1 or len(score) != 1:
            continue
        (e1, a1, k1), (e2, a2, k2) = fit[0], score[0]
        in1, in2 = e1[0], e2[0]
        whole = len(in2) == 1 and in2[0][0][0] == 'dom' and in2[0][0][2] == 'all'
        ob('every-fold', 'folds', whole, 'not every fold from 0 to the number of folds is scored', e2[2])
        ob('round', 'same-round', in1 == in2, 'the fit and the score are not made in the same round', e2[2])
        el = ('el', in2[0][1]) if in2 else None
        ob('round', 'fit-leaves-out', k1.get('leave_out') == el and k1.get('subsample') == total and off(k1.get('keep_only')), 'the fit does not leave out exactly the fold of the round (it gets leave_out=%s, keep_only=%s, subsample=%s)' % tuple('-' if x is None else show(x) for x in (k1.get('leave_out'), k1.get('keep_only'), k1.get('subsample'))), e1[2])
        ob('round', 'score-keeps', k2.get('keep_only') == el and k2.get('subsample') == total and off(k2.get('leave_out')), 'the score is not that of exactly the fold of the round (it gets leave_out=%s, keep_only=%s, subsample=%s)' % tuple('-' if x is None else show(x) for x in (k2.get('leave_out'), k2.get('keep_only'), k2.get('subsample'))), e2[2])
        at = [x for x in a2] + [v for k, v in k2.items() if k == 'x']
        own = all(x == ('c', None) or x == e1[1] or x[0] in ('attr', 'idx') and x[1] == e1[1] or x == ('attr', ('self',), 'pvals') for x in at)
        ob('round', 'score-at-the-fit', order.index('fit') < order.index('score') and 'move' not in order[order.index('fit'):order.index('score')] and own, 'the score is not computed at the values that were fitted', e2[2])
        r = q.end[1]
        while r[0] == 'call' and r[1] == ('g', 'float') and len(r[2]) == 1:
            r = r[2][0]
        ok = r[0] == 'sum' and r[1] == in2[0][0] and (r[2] == e2[1] or r[2][0] in ('idx', 'attr') and r[2][1] == e2[1]) if in2 else False
        ob('every-fold', 'sum', ok, 'the result is not the sum of the scores of all folds')


# ---------------------------------------------------- abstract evaluation
class Unknown(Exception):
    pass


U = object()
OPS = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
       ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b}
BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b if b else U, ast.Mod: lambda a, b: a % b if b else U,
       ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b}


def value(n, env, special=None):
    """constant propagation; U where the value is not known"""
    if special is not None:
        r = special(n, env)
        if r is not None:
            return r[0]
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        return env.get(n.id, U)
    if isinstance(n, ast.UnaryOp):
        v = value(n.operand, env, special)
        if v is U:
            return U
        if isinstance(n.op, ast.Not) or isinstance(n.op, ast.Invert) and isinstance(v, bool):
            return not v
        return -v if isinstance(n.op, ast.USub) else ~v if isinstance(n.op, ast.Invert) else v
    if isinstance(n, ast.BoolOp):
        stop, res = isinstance(n.op, ast.Or), None
        for x in n.values:
            v = value(x, env, special)
            if v is U:
                res = U
            elif bool(v) == stop:
                return v
            elif res is not U:
                res = v
        return res
    if isinstance(n, ast.Compare):
        left, res = value(n.left, env, special), True
        for op, r in zip(n.ops, n.comparators):
            right = value(r, env, special)
            if left is U or right is U or type(op) not in OPS:
                res = U
            elif not OPS[type(op)](left, right):
                return False
            left = right
        return res
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        a, b = value(n.left, env, special), value(n.right, env, special)
        if a is U or b is U:
            return U
        try:
            return BIN[type(n.op)](a, b)
        except TypeError:
            return U
    if isinstance(n, ast.IfExp):
        t = value(n.test, env, special)
        if t is U:
            a, b = value(n.body, env, special), value(n.orelse, env, special)
            return a if a is not U and a == b else U
        return value(n.body if t else n.orelse, env, special)
    return U


class Body:
    """which statements with an effect may be executed, by constant propagation"""

    def __init__(self, special=None):
        self.special = special
        self.done = {}                                  # line, text -> value of the first argument, for calls
        self.returned = []

    def block(self, stmts, env):
        """environments that reach the end, and whether the block may be left by continue / break / return"""
        for s in stmts:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.If):
            t = value(s.test, env, self.special)
            if t is not U:
                return self.block(s.body if t else s.orelse, env)
            a, b = self.block(s.body, dict(env)), self.block(s.orelse, dict(env))
            if a is None or b is None:
                return a if b is None else b
            return {k: v for k, v in a.items() if k in b and (b[k] is v or b[k] == v)}
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        if isinstance(s, ast.Return):
            self.returned.append((s, dict(env)))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.For, ast.While)):
            env = dict(env)
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env.pop(x.id, None)
            self.block(s.body, dict(env))
            return env
        if isinstance(s, ast.With):
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            return self.block(s.body, env)
        for x in ast.walk(s):
            if isinstance(x, ast.Call):
                k = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')
                if 'compute' in k or 'from_' in k:
                    self.done[(x.lineno, ast.unparse(x))] = value(x.args[0], env, self.special) if x.args else U
        targets = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
        for t in targets:
            for y in ast.walk(t):
                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store):
                    self.done[(s.lineno, ast.unparse(t))] = U
            if isinstance(t, ast.Name):
                if isinstance(s, ast.AugAssign):
                    v = value(ast.BinOp(ast.Name(t.id, ast.Load()), s.op, s.value), env, self.special)
                else:
                    v = value(s.value, env, self.special) if s.value is not None else U
                env = dict(env)
                env[t.id] = v
            else:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        env = {k: v for k, v in env.items() if k != y.id}
        return env


def combos():
    for sub in (1, 2, 3, 4):
        for lo in range(-1, sub):
            for ko in range(-1, sub):
                yield sub, lo, ko


def chosen(row, sub, lo, ko):
    return not (lo >= 0 and row % sub == lo) and not (ko >= 0 and row % sub != ko)


# ------------------------------------------------------------- the engines
def engines(ctx):
    for mod, fn in ENGINES:
        f = ctx.prog.func(mod, fn)
        ctx.seen(f)
        loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and is_prange(x.iter)]
        if len(loops) != 1 or not isinstance(loops[0].target, ast.Name):
            raise AnalysisBroken('no case loop in %s' % f.qual)
        loop = loops[0]
        c = loop.target.id
        cases = 0
        bad = None
        for start, step, k in itertools.product((0, 3), (1, 2), range(5)):
            args = [ast.unparse(a) for a in loop.iter.args]
            first = k if len(args) == 1 else start + k * step if args[0] == 'start_case' else k
            base = {'start_case': start, 'step_case': step, c: first}
            b = Body()
            b.block(loop.body, dict(base, leave_out=-1, keep_only=-1, subsample=-1))
            rows = {v for (_, t), v in b.done.items() if '_compute_utility_onecase' in t or '_compute_d_utility_onecase' in t}
            if len(rows) != 1 or U in rows:
                raise AnalysisBroken('which row is processed is not known in %s' % f.qual)
            row, every = rows.pop(), set(b.done)
            for sub, lo, ko in combos():
                cases += 1
                b = Body()
                b.block(loop.body, dict(base, leave_out=lo, keep_only=ko, subsample=sub))
                got = set(b.done)
                if got != (every if chosen(row, sub, lo, ko) else set()) and bad is None:
                    bad = 'row %d with leave_out=%d, keep_only=%d, subsample=%d is %s' % (row, lo, ko, sub, 'dropped' if chosen(row, sub, lo, ko) else 'processed')
        ctx.info['%s residues' % fn] = cases
        ctx.ob('case-selected', f.qual, bad is None, f.loc(loop), '%s: %s' % (f.qual, bad))


# --------------------------------------------------------- numba: the filter
def select_fold(ctx):
    m = ctx.prog.need_module('larch.numba.model')
    n = 0
    for f in m.all_funcs():
        if not set(FOLD) <= set(f.all_params) or 'loglike' in f.name or not any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] == 'arange' for x in ast.walk(f.node)):
            continue
        n += 1
        ctx.seen(f)
        one_filter(ctx, f)
    if not n:
        raise AnalysisBroken('the selection of folds for numba was not found')


def one_filter(ctx, f):
    names = [x for x in f.params if x not in FOLD and x != 'self']
    arrays, cs = names[0], (names + [None])[1]
    bad = None
    cases = 0
    sets = [(y.targets[0].id, y.value) for y in ast.walk(f.node) if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name)]
    defs = {t: v for t, v in sets if [x for x, _ in sets].count(t) == 1}
    for start, step, k in itertools.product((0, 3), (1, 2), range(5)):
        row = start + k * step

        def tail(x):
            return x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '')

        def special(n, env):
            # element k of the arrays: a vector stands for its element
            if isinstance(n, ast.Call):
                t = tail(n.func)
                if t == 'arange':
                    if cs and any(isinstance(x, ast.Name) and x.id == cs for a in n.args for x in ast.walk(a)):
                        return (row,)
                    return (('position', k),)
                if t in ('ones', 'ones_like', 'full', 'full_like', 'zeros', 'zeros_like'):
                    if t.startswith('full'):
                        return (value(n.args[1], env, special),)
                    return (t.startswith('ones'),)
                if t in ('logical_and', 'logical_or', 'equal', 'not_equal', 'mod', 'remainder', 'bitwise_and', 'bitwise_or') and len(n.args) >= 2:
                    a, b = plain(value(n.args[0], env, special)), plain(value(n.args[1], env, special))
                    if a is U or b is U:
                        return (U,)
                    return ({'logical_and': lambda: a and b, 'bitwise_and': lambda: a & b, 'logical_or': lambda: a or b, 'bitwise_or': lambda: a | b, 'equal': lambda: a == b,
                             'not_equal': lambda: a != b, 'mod': lambda: a % b, 'remainder': lambda: a % b}[t](),)
                if t in ('logical_not', 'invert') and n.args:
                    v = value(n.args[0], env, special)
                    return (U if v is U else not v,)
                if t == 'where' and len(n.args) == 3:
                    v = value(n.args[0], env, special)
                    return (U if v is U else value(n.args[1 if v else 2], env, special),)
                if t in ('asarray', 'array', 'astype', 'copy', 'nonzero', 'flatnonzero', 'list', 'tuple', 'bool'):
                    x = n.func.value if t in ('astype', 'copy') and isinstance(n.func, ast.Attribute) and tail(n.func.value) not in ('np', 'numpy') else n.args[0] if n.args else None
                    return (value(x, env, special),) if x is not None else None
                return None
            if isinstance(n, ast.Subscript):
                v = value(n.value, env, special)
                if isinstance(v, tuple) and v[0] == 'position' and isinstance(n.slice, ast.Name) and n.slice.id == cs:
                    return (row,)
                return None
            if isinstance(n, (ast.BinOp, ast.Compare)):
                parts = [n.left, n.right] if isinstance(n, ast.BinOp) else [n.left] + n.comparators
                vs = [value(x, env, special) for x in parts]
                if any(isinstance(v, tuple) for v in vs):
                    q = [ast.Constant(plain(v)) if v is not U else ast.Name('?', ast.Load()) for v in vs]
                    return (value(ast.BinOp(q[0], n.op, q[1]) if isinstance(n, ast.BinOp) else ast.Compare(q[0], n.ops, q[1:]), {}),)
            return None

        for sub, lo, ko in combos():
            cases += 1
            b = Body(special)
            end = b.block(f.node.body, {'leave_out': lo, 'keep_only': ko, 'subsample': sub, arrays: 'ARRAYS', '@defs': defs})
            if end is not None or not b.returned:
                raise AnalysisBroken('%s does not return the arrays' % f.qual)
            for s, env in b.returned:
                kept = result(s.value, env, arrays, special)
                if kept is U:
                    raise AnalysisBroken('what %s keeps is not known (%s)' % (f.qual, ast.unparse(s.value)))
                if kept is None:
                    bad = bad or 'not every array is filtered alike'
                elif bool(kept) != chosen(row, sub, lo, ko):
                    bad = bad or 'the row %d (the %d-th of those computed) with leave_out=%d, keep_only=%d, subsample=%d is %s' % (row, k, lo, ko, sub, 'kept' if kept else 'dropped')
    ctx.info['%s residues' % f.name] = cases
    ctx.ob('case-selected', f.qual, bad is None, f.loc(f.node), '%s: %s' % (f.qual, bad))
    # the range given to the filter is the one the arrays were computed for
    for g in f.module.all_funcs():
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and cs:
                i = f.params.index(cs) - 1
                a = x.args[i] if len(x.args) > i else next((y.value for y in x.keywords if y.arg == cs), None)
                src = a
                if isinstance(a, ast.Name):
                    defs = [y.value for y in ast.walk(g.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in y.targets)]
                    src = defs[0] if len(defs) == 1 else a
                want = 'slice(start_case, stop_case, step_case)' if 'start_case' in g.all_params else 'slice(None)'
                ctx.ob('case-selected', '%s:range' % g.qual, src is not None and ast.unparse(src) in (want, 'slice(None, None, None)' if want == 'slice(None)' else want), g.loc(x), '%s selects the folds for another range of cases than it computed' % g.qual)


def plain(v):
    return v[1] if isinstance(v, tuple) and v[:1] == ('position',) else v


def result(n, env, arrays, special):
    """whether the element is kept in what is returned; None if the arrays differ in that"""
    if isinstance(n, ast.Name):
        v = env.get(n.id, U)
        if v is U and n.id in env.get('@defs', {}):
            return result(env['@defs'][n.id], env, arrays, special)
        return True if v == 'ARRAYS' else U
    if isinstance(n, ast.Call):
        parts = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        if isinstance(n.func, ast.Attribute) and n.func.attr == '_make' or len(parts) == 1 and (isinstance(parts[0], (ast.GeneratorExp, ast.ListComp)) or n.args and isinstance(n.args[0], ast.Starred)):
            return result(parts[0], env, arrays, special)
        if len(parts) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'list'):
            return result(parts[0], env, arrays, special)
        vs = {result(x, env, arrays, special) for x in parts}
        if U in vs:
            return U
        return vs.pop() if len(vs) == 1 and len(parts) >= 6 else None
    if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
        g = n.generators
        if len(g) == 1 and isinstance(g[0].iter, ast.Name) and env.get(g[0].iter.id) == 'ARRAYS' and isinstance(g[0].target, ast.Name):
            if g[0].ifs:
                return None
            return result(n.elt, dict(env, **{g[0].target.id: 'ARRAYS'}), arrays, special)
        return U
    if isinstance(n, ast.Subscript):
        b = n.value
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and env.get(b.value.id) == 'ARRAYS' or isinstance(b, ast.Name) and env.get(b.id) == 'ARRAYS':
            v = value(n.slice, env, special)
            return U if v is U else bool(v)
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and env.get(n.value.id) == 'ARRAYS':
        return True
    if isinstance(n, ast.IfExp):
        t = value(n.test, env, special)
        if t is not U:
            return result(n.body if t else n.orelse, env, arrays, special)
        a, b = result(n.body, env, arrays, special), result(n.orelse, env, arrays, special)
        return U if U in (a, b) else a if a == b else None
    return U


# -------------------------------------------------------------------- fits
def fits(ctx):
    prog = ctx.prog
    todo, seen = [], set()
    for name in MODULES:
        m = prog.module(name)
        for f in (m.all_funcs() if m is not None else ()):
            if set(FOLD) <= set(f.all_params) and any(w in f.name for w in ('fit', 'maximize', 'step_bhhh', 'jumpstart')):
                todo.append(f)
    if len(todo) < 5:
        raise AnalysisBroken('only %d fits found' % len(todo))
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        ctx.seen(f)
        v = Versions(prog, f, f.params[0], lambda *a: None)
        same = aliases(f)
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            k = v.method(x.func)
            if k is not None:
                gs = [g for g in v.versions_of(k) if set(FOLD) <= set(g.all_params)]
                if k in EVAL | ALGO and k not in ('estimate',) or gs:
                    given(ctx, f, x, k, gs, same)
                    for g in gs:
                        if k not in EVAL | ALGO:
                            todo.append(g)
            elif any(v.bound(a) for a in list(x.args) + [y.value for y in x.keywords]):
                objective(ctx, f, x, v, same)
            elif isinstance(x.func, ast.Name) and x.func.id not in v.local:
                try:
                    g = prog.resolve(f.module, x.func.id)
                except Exception:
                    g = None
                if hasattr(g, 'all_params') and set(FOLD) <= set(g.all_params):
                    given(ctx, f, x, x.func.id, [g], same)
                    todo.append(g)


def aliases(f):
    """names that hold a selection argument of the function, dictionaries that hold all of them"""
    same = {p: p for p in FOLD}
    dicts = set()
    stores = {}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stores[x.id] = stores.get(x.id, 0) + 1
    for p in FOLD:
        if stores.get(p):
            same.pop(p)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores.get(x.targets[0].id) == 1:
            t, val = x.targets[0].id, x.value
            if isinstance(val, ast.Name) and val.id in same:
                same[t] = same[val.id]
            items = None
            if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == 'dict':
                items = [(k.arg, k.value) for k in val.keywords]
            elif isinstance(val, ast.Dict):
                items = [(k.value if isinstance(k, ast.Constant) else None, y) for k, y in zip(val.keys, val.values)]
            if items is not None and all((p, p) in [(k, same.get(y.id) if isinstance(y, ast.Name) else None) for k, y in items] for p in FOLD):
                dicts.add(t)
    return same, dicts


def given(ctx, f, x, name, gs, same):
    same, dicts = same
    if any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id in dicts for k in x.keywords):
        ok, miss = True, []
    else:
        kw = {k.arg: k.value for k in x.keywords}
        pos = {}
        if gs:
            ps = [p for p in gs[0].params if p not in ('self', 'model')]
            pos = dict(zip(ps, x.args))
        miss = [p for p in FOLD if not (lambda a: isinstance(a, ast.Name) and same.get(a.id) == p)(kw.get(p, pos.get(p)))]
    ctx.ob('selection-of-the-fit', '%s:%s' % (f.qual, name), not miss, f.loc(x), '%s calls %s without the %s of the fit' % (f.qual, name, ', '.join(miss)))


def objective(ctx, f, x, v, same):
    """a minimiser: the further arguments are bound to the parameters of objective and gradient by position"""
    same, dicts = same
    args = next((k.value for k in x.keywords if k.arg == 'args'), None)
    if args is None and len(x.args) > 2:
        args = x.args[2]
    funs = [a for a in list(x.args) + [k.value for k in x.keywords] if isinstance(a, ast.Attribute) and v.method(a)]
    lam = [a for a in list(x.args) + [k.value for k in x.keywords] if isinstance(a, ast.Lambda)]
    if args is None and lam:
        return                                          # the calls inside are judged themselves
    items = tuple_items(args, f, 3)
    for a in funs:
        k = v.method(a)
        for g in v.versions_of(k):
            ps = [p for p in g.params if p != 'self'][1:]
            if g.vararg:
                continue
            got = dict(zip(ps, items)) if items is not None else {}
            miss = [p for p in FOLD if not (isinstance(got.get(p), ast.Name) and same.get(got[p].id) == p)]
            ctx.ob('selection-of-the-fit', '%s:%s of %s' % (f.qual, k, g.qual), not miss, f.loc(x), '%s minimises %s without the %s of the fit' % (f.qual, g.qual, ', '.join(miss)))


def tuple_items(n, f, unknown):
    """elements of a tuple that is put together; a part of unknown content has the length of a case range"""
    if n is None:
        return None
    if isinstance(n, (ast.Tuple, ast.List)):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += tuple_items(e.value, f, unknown) or []
            else:
                out.append(e)
        return out
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = tuple_items(n.left, f, unknown), tuple_items(n.right, f, unknown)
        return None if a is None or b is None else a + b
    if isinstance(n, ast.Name):
        defs = [y.value for y in ast.walk(f.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in y.targets)]
        if len(defs) == 1:
            return tuple_items(defs[0], f, unknown)
        return None
    if isinstance(n, ast.Call) and '_null_slice' in ast.unparse(n) or isinstance(n, ast.Attribute) and n.attr == '_null_slice':
        return [None] * unknown
    return None
