"""P09: case weights (and the weight normalisation) enter every likelihood quantity exactly once."""
import ast

from ..engines import ENGINES, flags, configs, run_engine
from ..kern import Exec, KDomain, K, St, D0, NC, degmul, zero
from ..program import AnalysisBroken

TECHNIQUE = ('degree analysis: abstract interpretation of every engine and evaluation method in which each value carries the set of exponents (weight, normalisation) it may have; '
             'multiplication adds exponents, sums join them, stores into arrays accumulate them')
NOTE = ('degrees are symbolic exponents, so an equality such as w*w = w for 0/1 weights is not used; the NaN log likelihood of a probability-only evaluation and values the engines multiply by literal zero are neutral; '
        'the dataset-based (numba) data path has no weight normalisation and is judged with the property of the same name on the model')
EXPLAIN = ('With weights present, every result of an engine or evaluation method that depends on the weight must have exactly the exponents (1,1); one path with (0,*) skips the weight, one with (2,*) doubles it, '
           '(1,0) drops the normalisation.  Without weights the exponents must be (0,1) or (0,0).')
ASSUME = ['exp, log and other library functions of a weighted value do not occur (they would be reported as an unknown degree)']

WANT = frozenset({(1, 1)})


class EvDomain(KDomain):
    """evaluation methods written in Python: the kernel's outputs have the degrees found in the kernel"""
    cap = 200
    weighted_not_none = True

    def __init__(self, outs, runner):
        self.outs, self.runner = outs, runner
        self.best = []
        self.ran = 0
        self.rets = []

    def deg_of(self, ex, root, idxs, st):
        a = root.rsplit('.', 1)[-1]
        if root.startswith('RUN.') and a in self.outs:
            return self.outs[a]
        if a in ('weight_normalization', '_weight_normalization'):
            return frozenset({(0, 1)})
        if '.data_wt' in root or a in ('_array_wt', '_data_wt') or 'array_wt(' in root:
            return frozenset({(1, 0)})
        if root.endswith(".data_as_loaded") and idxs and "'wt'" in idxs[0]:
            return frozenset({(1, 1)})       # dataset path: no normalisation exists there
        return st.may.get('deg:' + root, D0)

    def follow(self, f, ex):
        return f.name not in ('weight_normalization', self.runner, '_check_if_best', '_wrap_as_dataframe', 'probability', 'd_probability', '__prep_for_compute', 'dataframes', 'n_cases')

    def on_call(self, ex, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
        if nm == self.runner:
            self.ran += 1
            return K('(RUN, penalty)', obj=('tuple', [K('RUN', view=('RUN', ())), K('penalty')]))
        if nm == 'array_wt':
            return K(fv.text + '()', view=(fv.text + '()', ()), deg=frozenset({(1, 0)}))
        if nm == '_check_if_best' and args:
            self.best.append((ex.degk(args[-1] if not args[0].text == 'self' else args[-1], st), ex.func.loc(node), args[0].text))
        return None

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if aug in ('*', '/'):
            d = ex.degk(val, st)
            mark = ('mul', ex.func.loc(node), root)
            if d != D0 and mark not in st.may.get('mul', ()):
                st.add_may('mul', mark)
                old = st.may.get('deg:' + root)
                if old:
                    st.may['deg:' + root] = degmul(old, d, 1 if aug == '*' else -1)
            return
        if not zero(val):
            st.may['deg:' + root] = st.may.get('deg:' + root, frozenset()) | ex.degk(val, st)


class NumbaDom(KDomain):
    cap = 6

    def __init__(self):
        self.outdeg = {}

    def deg_of(self, ex, root, idxs, st):
        if root == 'array_wt':
            return frozenset({(1, 0)})
        return st.may.get('deg:' + root, D0)

    on_store = EvDomain.on_store

    def is_array(self, ex, k, st):
        """in the numba kernel the parameters (but for the count of alternatives) and whole allocations are arrays"""
        return k.view is not None and not k.view[0].startswith('undef:') and all(':' in i for i in k.view[1]) and k.view[0] != 'n_alts'


def fields(ex, dom, states):
    """(name, degree) of everything a method gives back"""
    out = []
    for st in states:
        r = st.ret
        if r is None:
            continue
        if isinstance(r.obj, tuple) and r.obj[0] == 'rec':
            for k, v in st.heap.items():
                if k.startswith(r.text + '.'):
                    out.append((k[len(r.text) + 1:], ex.degk(v, st), v.text))
        elif isinstance(r.obj, tuple) and r.obj[0] == 'tuple':
            for i, v in enumerate(r.obj[1]):
                out.append(('#%d' % i, ex.degk(v, st), v.text))
        else:
            out.append(('value', ex.degk(r, st), r.text))
    return out


def show(d):
    return '{' + ', '.join('weight^%s x normalisation^%s' % x for x in sorted(d)) + '}'


FIELDS = ('ll', 'dll', 'bhhh', 'll_casewise', 'dll_casewise')


def check(ctx):
    prog = ctx.prog
    ctx.rule('engine-result', 'each likelihood quantity of the Cython engines has the exponents (1,1) with weights, (0,<=1) without', 60)
    ctx.rule('kernel-output', 'the likelihood outputs of the numba kernel have weight exponent exactly 1', 3)
    ctx.rule('method-result', 'each value an evaluation method derives from weighted data has exponents exactly (1,1)', 10)
    ctx.rule('best-cache', 'the value offered to the best-so-far cache is fully weighted', 2)
    ctx.rule('rescale-pair', 'rescaling the weights by a factor changes the normalisation by its inverse on the same path', 3)
    rescaling(ctx, prog)
    fl = flags(prog)
    for mod, fn in ENGINES:
        for persist in configs(fl, ctx.thorough):
            for dll, bhhh, po in ((True, True, False), (True, False, False), (False, False, False)):
                for weighted in (True, False):
                    f, ex, dom, ret = run_engine(prog, mod, fn, fl, persist, dll, bhhh, po, weighted=weighted)
                    for q in ex.funcs:
                        ctx.seen(q)
                    for nm, d, text in fields(ex, dom, ret):
                        if nm not in FIELDS and not any(x[0] for x in d):
                            continue
                        ok = d == WANT if weighted else d <= frozenset({(0, 0), (0, 1)})
                        ctx.ob('engine-result', '%s:%s' % (fn, nm), ok, f.loc(f.node),
                               '%s [persist=%#x, gradient=%s, bhhh=%s, weights=%s]: result "%s" carries %s' % (fn, persist, dll, bhhh, weighted, nm, show(d)))
    # ---- the numba kernel
    nk = prog.func('larch.numba.model', '_numba_master')
    outs = numba_outputs(prog, nk, ctx)
    # ---- evaluation methods of the numba model
    c = prog.cls('larch.numba.model', 'NumbaModel')
    n = 0
    for f in c.functions():
        if f.kind != 'method' or not any(isinstance(x, ast.Attribute) and x.attr == '_loglike_runner' for x in ast.walk(f.node)) or f.name == '_loglike_runner':
            continue
        dom = EvDomain(outs, '_loglike_runner')
        ex = Exec(prog, dom, dict(fl))
        ret, _ = ex.run(f, {f.params[0]: K('self', view=None, obj=('inst', c))})
        if not dom.ran:
            continue
        ctx.seen(f)
        judge(ctx, f, ex, dom, ret)
        n += 1
    if n < 6:
        raise AnalysisBroken('only %d evaluation methods of NumbaModel found' % n)
    # ---- the latent class model
    c = prog.cls('larch.model.latentclass', 'LatentClassModel')
    n = 0
    for f in c.functions():
        if f.kind != 'method' or not any(isinstance(x, ast.ImportFrom) and any(a.name in ('loglike_from_probability', 'd_loglike_from_d_probability') for a in x.names)
                                         or isinstance(x, ast.Call) and getattr(x.func, 'id', '') in ('loglike_from_probability', 'd_loglike_from_d_probability') for x in ast.walk(f.node)):
            continue
        dom = EvDomain({}, '_loglike_runner')
        ex = Exec(prog, dom, dict(fl))
        st = St()
        for t in ('self.dataframes', '(self.dataframes is not None)'):
            st.conds[t] = True
        for t in ('(self.dataframes is None)', '(self.dataframes.data_wt is None)', '(self._dataframes is None)', '(self._dataframes.data_wt is None)', 'probability_only'):
            st.conds[t] = False
        ret, _ = ex.run(f, {f.params[0]: K('self', view=None, obj=('inst', c))}, st)
        ctx.seen(f)
        judge(ctx, f, ex, dom, ret, names=('ll', 'dll', 'bhhh'))
        n += 1
    if n < 2:
        raise AnalysisBroken('evaluation methods of LatentClassModel not found')


class ScaleDom(KDomain):
    """rescaling of the weight array and of its normalisation factor"""
    cap = 64

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if root.endswith('._array_wt') and aug in ('*', '/'):
            st.add_may('wt', (aug, val.text))

    def on_attr(self, ex, base, attr, val, node, st):
        n = base.text + '._weight_normalization'
        if attr != '_weight_normalization' or val.text == n:
            return
        if n not in val.text:
            if val.const is not NC and base.text == 'self' and not ex.func.name.startswith('__'):
                st.add_may('norm', ('/', n))
            return
        t = val.text
        for op in ('*', '/'):
            if t.startswith('(' + n + ' %s ' % op) and t.endswith(')'):
                st.add_may('norm', (op, t[len(n) + 4:-1]))
                return
            if op == '*' and t.endswith(' * %s)' % n):
                st.add_may('norm', (op, t[1:-len(n) - 4]))
                return
        st.add_may('norm', ('?', t))


def rescaling(ctx, prog):
    c = prog.cls('larch.dataframes', 'DataFrames')
    n = 0
    for f in c.functions():
        if f.kind != 'method' or not any(isinstance(x, ast.Attribute) and x.attr in ('_array_wt', '_weight_normalization') and isinstance(x.ctx, ast.Store) or
                                         isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == '_array_wt' for x in ast.walk(f.node)):
            continue
        dom = ScaleDom()
        ex = Exec(prog, dom)
        ret, _ = ex.run(f, {f.params[0]: K('self', view=None, obj=('inst', c))})
        hit = False
        for st in ret:
            wt, nm = st.may.get('wt', frozenset()), st.may.get('norm', frozenset())
            if not nm and not any(o == '/' for o, _ in wt):
                continue
            hit = True
            inv = {'*': '/', '/': '*'}
            bad = [x for x in nm if (inv.get(x[0]), x[1]) not in wt] + [x for x in wt if x[0] == '/' and ('*', x[1]) not in nm]
            ctx.ob('rescale-pair', f.qual, not bad, f.loc(f.node),
                   '%s: the weights are rescaled by %s but the normalisation factor by %s, so their product changes' % (f.qual, sorted(wt), sorted(nm)))
        if hit:
            ctx.seen(f)
            n += 1
    if n < 2:
        raise AnalysisBroken('weight rescaling methods not found')


def numba_outputs(prog, nk, ctx):
    """degrees of the kernel outputs"""
    outs = {}
    dom = NumbaDom()
    ex = Exec(prog, dom)
    ret, _ = ex.run(nk, {})
    for q in ex.funcs:
        ctx.seen(q)
    for o in ('loglike', 'd_loglike', 'bhhh'):
        if o not in nk.all_params:
            raise AnalysisBroken('the numba kernel has no output called %s' % o)
        d = frozenset()
        for st in ret:
            d |= st.may.get('deg:' + o, frozenset())
        outs[o] = d
        ctx.ob('kernel-output', '%s:%s' % (nk.name, o), d == frozenset({(1, 0)}), nk.loc(nk.node),
               'numba kernel: output "%s" carries %s' % (o, show(d)))
    return outs


def judge(ctx, f, ex, dom, ret, names=None):
    for nm, d, text in fields(ex, dom, ret):
        if d == D0 and (names is None or nm not in names):
            continue
        ctx.ob('method-result', '%s:%s' % (f.qual, nm), d == WANT, f.loc(f.node), '%s: "%s" carries %s' % (f.qual, nm, show(d)))
    for d, loc, text in dom.best:
        ctx.ob('best-cache', f.qual, d == WANT, loc, '%s offers a value carrying %s to the best-so-far cache' % (f.qual, show(d)))
