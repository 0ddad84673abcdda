"""P02: the recorded best log likelihood only comes from complete evaluations.

Every place that stores into the record is found; every function from which a
store is reached is analysed path by path, and at the store the path conditions
must imply that each case-selection argument in force has the value that
selects every case.
"""
import ast

from ..absint import Domain, Interp, V, State, TOP, NOLAB
from ..program import AnalysisBroken
from .common import CASE, MODEL_CLASSES, means_whole, concrete_methods, model_classes

TECHNIQUE = 'path-sensitive abstract interpretation: path conditions at every store into the record'
NOTE = ('all stores into the best-value record, on every path of every method of the model classes; the arithmetic of the likelihood itself is not verified')
EXPLAIN = ('Every store into the best-log-likelihood record is located; for every function from which one is reached the path conditions at the store must imply '
           'that each selection argument (of the function, and of every evaluation whose result is stored) selects the whole sample.')
ASSUME = ['an evaluation called without case-selection arguments covers every case (P01)']

REC = '_cached_loglike_best'


class Best(Domain):
    cap = 24
    max_depth = 5

    def __init__(self, ctx, root, cls, stores, carriers):
        self.ctx, self.root, self.cls, self.stores, self.carriers = ctx, root, cls, stores, carriers
        self.events = 0

    def inline(self, f, ip):
        if f.kind in ('setter', 'deleter', 'getter'):
            return False
        if f.name in self.carriers and not any(p in f.all_params for p in CASE):
            return True
        # predicates over the selection
        return len(f.node.body) <= 6 and f.module.name.startswith('larch.') and not f.name.startswith('__') and len(list(ast.walk(f.node))) < 120 \
            and f.cls is not None and any(isinstance(n, ast.Return) for n in ast.walk(f.node))

    def on_call(self, ip, node, fv, args, kw, st):
        o = fv.obj
        f = o[1] if isinstance(o, tuple) and o[0] in ('method', 'func', 'unbound') else None
        sel = set()
        if f is not None:
            if any(p in f.all_params for p in CASE):
                a2 = ([o[2]] + list(args)) if o[0] == 'method' and f.kind != 'staticmethod' else list(args)
                env, extra, kwd = ip.bind(f, a2, kw)
                for p in CASE:
                    if p in env:
                        sel.add((p, env[p].expr))
                    elif p in kwd:
                        sel.add((p, kwd[p].expr))
                    elif '**' in kw:
                        sel.add((p, '%s[%s]' % (kw['**'].expr, p)))
        else:
            for p in CASE:
                if p in kw:
                    sel.add((p, kw[p].expr))
        if sel:
            labs = frozenset().union(fv.labels, *[v.labels for v in list(args) + list(kw.values())])
            return V('%s(%s)' % (fv.expr, ', '.join([v.expr for v in args] + ['%s=%s' % (k, v.expr) for k, v in sorted(kw.items())])),
                     labs | frozenset('sel:%s:%s' % t for t in sel))
        return None

    def store(self, ip, node, val, st):
        fn = ip.frame.func
        if val.const is not TOP or val.expr.lstrip('(').startswith('-') and 'inf' in val.expr:
            return      # reset to a constant
        if fn.name in ('__setstate__', '__init__'):
            return
        self.events += 1
        f = self.root
        need = [(p, p) for p in CASE if p in f.all_params]
        if f.kwarg and not need:
            need = [(p, f.kwarg + '[' + p + ']') for p in ()]
        need += [tuple(l[4:].split(':', 1)) for l in val.labels if l.startswith('sel:')]
        for p, e in sorted(set(need)):
            ok = means_whole(p, e, st.conds)
            if p == 'subsample' and not ok:      # only in force together with a fold
                ok = all(means_whole(q, qe, st.conds) for q, qe in need if q in ('leave_out', 'keep_only'))
            self.ctx.ob('record-only-complete', '%s.%s(%s)' % (self.cls.name if self.cls else f.module.short, f.name, p), ok, f.loc(),
                        'the best log likelihood is replaced (%s) on a path of %s that does not imply that %s selects every case' % (fn.loc(node), f.qual, p))
        rec = [k for k in st.conds if REC in k]
        ok = val.expr.startswith('max(') or val.expr.startswith('numpy.fmax(')
        for k in rec:
            v = st.conds[k]
            for op in (' < ', ' <= '):
                if op in k and k.startswith('('):
                    a, b = k[1:-1].split(op, 1)
                    if v and a.endswith(REC) and b == val.expr or (not v and b.endswith(REC) and a == val.expr):
                        ok = True
        self.ctx.ob('record-only-improves', fn.qual, ok, fn.loc(node), '%s stores a log likelihood in the record without having compared it with the recorded one' % fn.qual)
        st.facts['rec'] = 'done' if st.facts.get('rec') == 'pre' else 'half'

    def on_store_attr(self, ip, node, base, attr, val, st):
        if attr == REC:
            self.store(ip, node, val, st)

    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        if idx is not None and idx.const == 'best' and base.expr.endswith('_frame'):
            st.facts['rec'] = 'pre' if st.facts.get('rec') is None else 'done'

    def on_return(self, ip, f, node, st):
        if st.facts.get('rec') in ('half', 'done') and len(ip.frames) == 1:
            self.ctx.ob('record-pairs-values', '%s.%s' % (self.cls.name, self.root.name), st.facts['rec'] == 'done', f.loc(),
                        '%s replaces the best log likelihood without recording the parameter values that belong to it' % f.qual)

    def join_fact(self, k, a, b):
        if k == 'rec':
            return 'half' if 'half' in (a, b) else 'done' if 'done' in (a, b) else None
        return Domain.join_fact(self, k, a, b)


def check(ctx):
    prog = ctx.prog
    ctx.rule('record-only-complete', 'at every store into the record, the path implies that each selection argument in force selects every case', 40)
    ctx.rule('record-only-improves', 'a value enters the record only after a comparison showing that it is better than the recorded one', 5)
    ctx.rule('record-pairs-values', 'the parameter values are recorded together with the log likelihood', 5)
    # functions that can reach a store, by name
    funcs = [f for m in prog.all_modules() for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in c.functions()]]
    ment = {}
    stores = set()
    for f in funcs:
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
                if n.attr == REC and isinstance(n.ctx, (ast.Store, ast.Del)) and f.name not in ('__init__', '__setstate__'):
                    stores.add(f.name)
            elif isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Constant) and n.value == REC:
                names.add(REC)
        ment.setdefault(f.name, []).append((f, names))
    if not stores:
        raise AnalysisBroken('no store into %s found' % REC)
    for f in funcs:     # setattr on the record cannot be followed
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and any(isinstance(a, ast.Constant) and a.value == REC for a in n.args):
                ctx.ob('record-only-complete', f.qual + ':setattr', False, f.loc(n), 'the record is written by setattr')
    # carriers: helpers without selection arguments of their own that lead to a store
    carriers = {s for s in stores}
    while True:
        new = set()
        for n, fs in ment.items():
            if n in carriers or n in ('mangle', 'clear_best_loglike', '__init__', '__setstate__', '__getstate__'):
                continue
            for f, names in fs:
                if not any(p in f.all_params for p in CASE) and f.name.startswith('_') and (names & carriers) - {'clear_best_loglike'}:
                    new.add(n)
        if not new:
            break
        carriers |= new
    carriers.discard('clear_best_loglike')
    carriers.discard('mangle')
    n = 0
    done = set()
    todo = []
    for c in model_classes(prog):
        for nm, f in sorted(concrete_methods(prog, c).items()):
            todo.append((c, f))
    for f in funcs:
        if f.cls is None:
            todo.append((None, f))
    for c, f in todo:
        names = next((s for g, s in ment[f.name] if g is f), set())
        if f.name in carriers and f.cls is not None and not any(p in f.all_params for p in CASE):
            ctx.seen(f)
        if not (names & carriers) and f.name not in stores:
            continue
        if f.name in carriers and not any(p in f.all_params for p in CASE):
            continue
        d = Best(ctx, f, c, stores, carriers)
        ip = Interp(prog, d)
        args = {}
        if f.params and f.params[0] in ('self', 'model'):
            args[f.params[0]] = V('self', NOLAB, TOP, ('inst', c) if c is not None else None)
        ip.run(f, args, cls=c)
        ctx.seen(f)
        n += d.events
    ctx.info['stores_found_in'] = sorted(stores)
    ctx.info['carriers'] = sorted(carriers)
    if n == 0:
        raise AnalysisBroken('no path to a store into the record was found')
