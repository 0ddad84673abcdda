"""P01: parameter values and case selection given to an evaluation reach the engines.

Interprocedural, path-sensitive provenance analysis.  Every evaluation entry
point of every concrete model class is analysed with each of its selection
arguments carrying a provenance label; internal calls are analysed in place, so
the check follows the value and not the spelling.  At each call into an engine
every argument the entry point accepted must have arrived, or the path must
imply that the argument has its default.
"""
import ast

from ..absint import Domain, Interp, V, State, TOP, NOLAB
from ..program import AnalysisBroken, Func

EXPLAIN = ('Provenance (taint) analysis over the syntax tree of all model classes with in-place analysis of internal calls: '
           'each selection argument of each evaluation entry point must flow into every engine call made on its behalf, on every path, '
           'unless the path condition implies the default value (or the path raises).')
ASSUME = ['set_values stores the values it is given (its own behaviour is covered by P11)',
          'scipy.optimize.minimize and functools.partial pass their argument tuples to the callables they are given']

TECHNIQUE = 'interprocedural path-sensitive provenance (taint) analysis over the syntax tree'
NOTE = ('every evaluation entry point of every model class, on every path, up to the calls into the engines and the case-filter tests inside the engines; '
        'sound for the call forms the interpreter resolves, arithmetic on the arguments inside the engines is not verified')

CASE = ['start_case', 'stop_case', 'step_case', 'leave_out', 'keep_only', 'subsample']
FOLD = ('leave_out', 'keep_only', 'subsample')
SEL = ['x'] + CASE
ENGINES = ('larch.model.mnl', 'larch.model.nl')
CLASSES = [('larch.model.model', 'Model'), ('larch.numba.model', 'NumbaModel'),
           ('larch.model.latentclass', 'LatentClassModel'), ('larch.model.model_group', 'ModelGroup')]
DRIVERS = [('larch.model.optimization', 'maximize_loglike'), ('larch.numba.optimization', 'fit_bhhh')]
# entry points that change values as their job; only case selection applies
NOT_EVAL = {'set_dataframes', 'set_values', 'set_value', 'unmangle', 'mangle'}
NOT_ROOT = {'set_dataframes', 'set_values', 'get_values'}


def is_engine_call(fv):
    o = fv.obj
    if isinstance(o, tuple) and o[0] == 'func' and o[1].module.name in ENGINES:
        return o[1]
    return None


def eval_names(prog):
    """method names that (transitively, by name) reach an engine."""
    funcs = []
    for m in prog.all_modules():
        if m.name.startswith('larch.model.') or m.name.startswith('larch.numba'):
            funcs += list(m.funcs.values())
            for c in m.classes.values():
                funcs += [f for f in c.functions() if f.kind == 'method' and not (f.name.startswith('__') and f.name.endswith('__'))]
    funcs = [f for f in funcs if f.module.name not in ENGINES and f.name not in NOT_EVAL]
    ment = {}
    for f in funcs:
        s = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
            elif isinstance(n, ast.Name):
                s.add(n.id)
            elif isinstance(n, ast.alias):
                s.add(n.name)
        ment.setdefault(f.name, []).append((f, s))
    seed = {'_numba_master_vectorized'}
    for f, names in [x for v in ment.values() for x in v]:
        for n in ast.walk(f.node):
            if isinstance(n, ast.ImportFrom) and f.module._abs(n.module, n.level) in ENGINES:
                seed |= {a.name for a in n.names}
    for m in prog.all_modules():
        for nm, (b, n) in m.imports.items():
            if b in ENGINES and n:
                seed.add(n)
    reach = set(seed)
    while True:
        new = {n for n, fs in ment.items() if n not in reach and any(s & reach for f, s in fs)}
        new -= {'__init__', '__getstate__', '__setstate__'}
        if not new:
            break
        reach |= new
    return reach


class Fwd(Domain):
    cap = 10
    max_depth = 5

    def __init__(self, ctx, root, params, reach, public_eval, cls):
        self.ctx, self.root, self.params, self.reach, self.public_eval, self.cls = ctx, root, params, reach, public_eval, cls
        self.sites = 0

    def inline(self, f, ip):
        m = f.module.name
        if not (m.startswith('larch.model.') or m.startswith('larch.numba')):
            return False
        if m in ENGINES or f.name in ('set_values', 'unmangle', 'mangle'):
            return False
        if f.kind in ('getter', 'setter', 'deleter'):
            return False
        if f.name in self.reach:
            return True
        return any(p in f.all_params for p in SEL) and any(isinstance(n, ast.Attribute) and n.attr == 'set_values' for n in ast.walk(f.node))

    def assume(self, ip, test, truth, st):
        if st.conds.get('(x is None)') is True:
            st.facts['xok'] = True
        return st

    def implied(self, p, st):
        root = self.root
        d = root.default_of(p)
        keys = []
        if d is not None:
            try:
                c = ast.literal_eval(d)
            except ValueError:
                c = TOP
            if c is not TOP:
                r = repr(c)
                a, b = sorted([p, r])
                keys += ['(%s == %s)' % (a, b), '(%s is %s)' % (p, r)]
        for k in keys:
            if st.conds.get(k) is True:
                return True
        if p in ('leave_out', 'keep_only'):
            if st.conds.get('(0 <= %s)' % p) is False or st.conds.get('(%s < 0)' % p) is True:
                return True
        if p == 'subsample':
            return all(q not in self.params or self.implied(q, st) for q in ('leave_out', 'keep_only'))
        return False

    def xok(self, st):
        if st.facts.get('xok'):
            return True
        return st.conds.get('(x is None)') is True

    def leaf(self, ip, node, what, labels_of, accepts, st):
        """labels_of(p) -> labels of the binding of p at this leaf."""
        self.sites += 1
        st.facts['leaf'] = 2 if (self.xok(st) or st.facts.get('leaf') == 2) else 1
        f = ip.frame.func
        for p in self.params:
            if p == 'x':
                continue
            ok = ('arg:' + p) in labels_of(p) or self.implied(p, st)
            if not ok and what == '_numba_master_vectorized' and p in FOLD:
                # rows may also be selected after the kernel: decided where the root returns
                st.facts['pend:' + p] = (f.loc(node), f.qual)
                continue
            self.ctx.ob('case-selection-reaches-engine', '%s.%s(%s)->%s' % (self.cls.name if self.cls else '', self.root.name, p, what), ok, f.loc(node),
                        '%s accepts %s, but the call of %s in %s is reached with a value of %s that does not come from it (and no condition on the path says it has its default)'
                        % (self.root.qual, p, what, f.qual, p))

    def on_call(self, ip, node, fv, args, kw, st):
        o = fv.obj
        eng = is_engine_call(fv)
        f = ip.frame.func
        if eng is not None and (f is None or f.module.name not in ENGINES):
            env, extra, kwd = ip.bind(eng, args, kw)
            if eng.name.startswith('_'):
                return None
            labels = lambda p: env[p].labels if p in env else NOLAB
            if not any(p in eng.all_params for p in CASE):
                # an engine without selection parameters computes over the arrays it is handed
                allv = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
                labels = lambda p: allv
            self.leaf(ip, node, eng.name, labels, eng.all_params, st)
            labs = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
            return V('%s(..)' % eng.name, labs)
        name = node.func.attr if isinstance(node.func, ast.Attribute) else (node.func.id if isinstance(node.func, ast.Name) else '')
        labs = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
        if fv.expr.endswith('_numba_master_vectorized'):
            self.leaf(ip, node, '_numba_master_vectorized', lambda p: labs, None, st)
            return V('_numba_master_vectorized(..)', labs)
        # an evaluation that is itself responsible for the same arguments
        if isinstance(o, tuple) and o[0] in ('method', 'func', 'unbound'):
            g = o[1]
            if g.name in self.reach and g.module.name not in ENGINES and g.module.name.startswith('larch.') and g is not self.root or (g is self.root and len(ip.frames) > 1):
                acc = list(g.all_params)
                if (g.kwarg and g.name in self.public_eval) or all(p in acc for p in self.params if p != 'x'):
                    if 'x' not in self.params or 'x' in acc or not any(p in acc for p in CASE) or self.xok(st):
                        if 'x' in acc or any(p in acc for p in CASE) or g.kwarg:
                            a2 = ([o[2]] + list(args)) if o[0] == 'method' and g.kind != 'staticmethod' else list(args)
                            env, extra, kwd = ip.bind(g, a2, kw)

                            def lab(p):
                                if p in env:
                                    return env[p].labels
                                if p in kwd:
                                    return kwd[p].labels
                                if '**' in kw:
                                    return kw['**'].labels
                                return NOLAB
                            if 'x' in acc and ({'arg:x', 'cb'} & lab('x')):
                                st.facts['xok'] = True
                            self.leaf(ip, node, g.name, lab, acc, st)
                            return V('%s(..)' % g.name, labs | fv.labels)
        # values given to the model
        tgt_name = name or fv.expr.rsplit('.', 1)[-1]
        if tgt_name == 'set_values':
            labs = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
            if labs & {'arg:x', 'cb'}:
                st.facts['xok'] = True
            return V('None', NOLAB, None)
        # an evaluation of a member (an object this analysis does not know the class of)
        if tgt_name in self.public_eval and not (isinstance(o, tuple) and o[0] in ('method', 'func', 'unbound', 'closure', 'super')) and isinstance(node.func, ast.Attribute):
            labs = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
            if ('arg:x' in labs) or ('cb' in labs):
                st.facts['xok'] = True
            acc = self.public_eval[tgt_name]
            pos = [q for q in acc]
            def labels(p, args=args, kw=kw, pos=pos):
                if p in kw:
                    return kw[p].labels
                if p in pos and pos.index(p) < len(args):
                    return args[pos.index(p)].labels
                if '**' in kw:
                    return kw['**'].labels
                if any(isinstance(a.obj, tuple) and a.obj[0] == 'starred' for a in args):
                    return frozenset().union(*[a.labels for a in args])
                return NOLAB
            if any(p in acc for p in CASE) or tgt_name == 'logsums':
                self.leaf(ip, node, 'member.' + tgt_name, labels, acc, st)
            return None
        # scipy minimize and the like: callables of the model run with the args tuple
        callbacks = [a for a in list(args) + list(kw.values()) if isinstance(a.obj, tuple) and a.obj[0] in ('closure', 'method')]
        if callbacks and not (isinstance(o, tuple) and o[0] in ('func', 'method', 'closure', 'unbound') and ip.can_inline(o[1])):
            extra = []
            if 'args' in kw:
                av = kw['args']
                if isinstance(av.obj, tuple) and av.obj[0] in ('tuple', 'list'):
                    extra = av.obj[1]
                else:
                    extra = [av.with_(obj=('starred', av))]
            for cb in callbacks:
                fn = cb.obj[1]
                if fn.name in ('callback',):
                    continue
                cbargs = [V('cb', frozenset(['arg:x', 'cb']))] + list(extra)
                sub = st.copy()
                if fn.kind == 'func' and fn.params[:1] == ['self']:
                    continue
                ip.call_value(node, cb, cbargs, {}, sub)
                st.facts.update(sub.facts)
        return None

    def on_return(self, ip, f, node, st):
        if len(ip.frames) != 1:
            # the fold was applied to the rows of what this helper returns
            for p in FOLD:
                if 'pend:' + p in st.facts and self.implied(p, st):
                    del st.facts['pend:' + p]
            return
        for p in self.params:
            if 'pend:' + p in st.facts:
                loc, q = st.facts['pend:' + p] if st.facts['pend:' + p] is not TOP else (f.loc(), f.qual)
                ok = ('arg:' + p) in st.ret.labels or self.implied(p, st)
                self.ctx.ob('case-selection-reaches-engine', '%s.%s(%s)->_numba_master_vectorized' % (self.cls.name, self.root.name, p), ok, loc,
                            '%s accepts %s, but neither the kernel call in %s nor the selection of result rows depends on it' % (self.root.qual, p, q))

    def join_fact(self, k, a, b):
        if k == 'xok':
            return bool(a and b)
        if k == 'leaf':
            if a == 1 or b == 1:
                return 1
            return max(a or 0, b or 0)
        return Domain.join_fact(self, k, a, b)


def public_evals(prog, reach):
    out = {}
    for mod, cn in CLASSES:
        c = prog.cls(mod, cn)
        for cc in prog.mro(c):
            for n, f in cc.methods.items():
                if n in reach and not n.startswith('_') and any(p in f.all_params for p in CASE) and n not in out:
                    out[n] = [p for p in f.params if p != 'self'] + f.kwonly
    # evaluation without a range (group, latent class members)
    for n in ('logsums', 'utility', 'exputility'):
        out.setdefault(n, ['x'])
    for n in ('fit_bhhh',):
        out.setdefault(n, [])
    return out


def roots(prog, reach):
    out = []
    for mod, cn in CLASSES:
        c = prog.cls(mod, cn)
        names = {}
        for cc in prog.mro(c):
            for n, f in cc.methods.items():
                names.setdefault(n, (f, cc))
        for n, (f, cc) in sorted(names.items()):
            if n in NOT_ROOT or n not in reach or f.kind in ('staticmethod', 'classmethod'):
                continue
            if any(isinstance(s, ast.Raise) for s in f.node.body) and not any(isinstance(s, ast.Return) for s in ast.walk(f.node)):
                continue
            ps = [p for p in SEL if p in f.all_params]
            kws = []
            if f.kwarg:
                for bc in prog.mro(c)[1:]:
                    g = bc.methods.get(n)
                    if g is not None and g is not f:
                        kws += [p for p in SEL if p in g.all_params and p not in ps and p not in kws]
            if ps or kws:
                out.append((c, f, ps, kws))
    for mod, fn in DRIVERS:
        f = prog.func(mod, fn)
        ps = [p for p in CASE if p in f.all_params]
        out.append((prog.cls('larch.numba.model', 'NumbaModel'), f, ps, []))
        if fn == 'maximize_loglike':
            out.append((prog.cls('larch.model.model', 'Model'), f, ps, []))
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule('case-selection-reaches-engine',
             'at every engine call made on behalf of an entry point, every case-selection argument the entry point accepts must be the source of the corresponding engine argument, '
             'unless the path implies the default', 90)
    ctx.rule('values-reach-engine', 'no return path of an entry point that accepts x has computed with the engines without x having been stored in the model first', 25)
    ctx.rule('engine-uses-selection', 'inside an engine, the case loop depends on every selection argument of the engine', 10)
    ctx.rule('labels-follow-selection', 'a helper that takes a case range to label results receives the range of the caller', 0)
    reach = eval_names(prog)
    pub = public_evals(prog, reach)
    for c, f, ps, kws in roots(prog, reach):
        d = Fwd(ctx, f, ps + kws, reach, pub, c)
        ip = Interp(prog, d)
        args = {}
        if f.params and f.params[0] == 'self' or (f.cls is None and f.params and f.params[0] == 'model'):
            args[f.params[0]] = V('self', NOLAB, TOP, ('inst', c))
        for p in f.all_params:
            if p not in args:
                args[p] = V(p, frozenset(['arg:' + p]) if p in SEL else NOLAB)
        if kws:
            args[f.kwarg] = V('kwargs', frozenset('arg:' + p for p in kws), TOP, ('dict', {p: V(p, frozenset(['arg:' + p])) for p in kws}))
        elif f.kwarg:
            args[f.kwarg] = V('kwargs', NOLAB)
        if f.vararg:
            args[f.vararg] = V('args', NOLAB)
        st = State()
        st.facts['xok'] = False
        res = ip.run(f, args, cls=c, st=st)
        ctx.seen(f)
        for q in ip.inlined:
            ctx.functions.add(q)
        if d.sites == 0 and (kws or ps != ['x']) and f.name not in ('cross_validate',):
            # an evaluation that never reaches an engine: only legitimate when it raises
            if res['return'] and f.name in ('loglike', 'loglike2', 'loglike2_bhhh', 'd_loglike', 'probability', 'd2_loglike', 'bhhh', 'd_probability'):
                raise AnalysisBroken('no engine call found below %s of %s' % (f.qual, c.name))
        if 'x' in f.all_params:
            for s in res['return']:
                if s.facts.get('leaf'):
                    ctx.ob('values-reach-engine', '%s.%s(x)' % (c.name, f.name), s.facts['leaf'] == 2, f.loc(),
                           '%s accepts x but a return path computes without x ever being stored in the model' % f.qual)
    ctx.info['entry_points'] = len(roots(prog, reach))
    engine_rule(ctx)
    label_rule(ctx, pub)


def engine_rule(ctx):
    """inside each engine with selection parameters: the loop over cases depends on all of them."""
    prog = ctx.prog
    for e in ENGINES:
        m = prog.need_module(e)
        for f in m.funcs.values():
            sel = [p for p in CASE if p in f.all_params]
            if len(sel) < 3:
                continue

            class Eng(Domain):
                cap = 24
                max_depth = 3
                used = set()

                def inline(self, g, ip):
                    return g.module is m and len(list(ast.walk(g.node))) < 150

                def on_loop(self, ip, node, itv, st):
                    if 'arg:start_case' in itv.labels or 'arg:stop_case' in itv.labels:
                        self.used |= {p for p in CASE if 'arg:' + p in itv.labels}
                        t = V('case', frozenset(['case']))
                        return t
                    return None

                def assume(self, ip, test, truth, st):
                    v = ip.ev(test, st)
                    if 'case' in v.labels:
                        self.used |= {p for p in CASE if 'arg:' + p in v.labels}
                    return st
            d = Eng()
            d.used = set()
            Interp(prog, d).run(f, {p: V(p, frozenset(['arg:' + p])) for p in f.all_params})
            ctx.seen(f)
            for p in sel:
                ctx.ob('engine-uses-selection', '%s(%s)' % (f.name, p), p in d.used, f.loc(), 'the case loop of %s does not depend on %s' % (f.qual, p))


def label_rule(ctx, pub):
    prog = ctx.prog
    for mod, cn in CLASSES:
        c = prog.cls(mod, cn)
        for f in c.functions():
            own = [p for p in CASE if p in f.all_params]
            if not own:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                    g = prog.lookup(c, n.func.attr)
                    if g is None or g.name in pub or not g.name.startswith('_wrap'):
                        continue
                    pos = [p for p in g.params if p != 'self']
                    for p in own:
                        if p in g.all_params:
                            given = any(k.arg == p or k.arg is None for k in n.keywords) or (p in pos and pos.index(p) < len(n.args))
                            ctx.ob('labels-follow-selection', '%s.%s(%s)->%s' % (cn, f.name, p, g.name), given, f.loc(n),
                                   '%s labels its result with %s without passing %s, so labels and rows disagree' % (f.qual, g.name, p))
