"""P10: unavailable alternatives are excluded on every path."""
import ast
import re

from ..kern import Exec, KDomain, K, St, D0, NC, isslice
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of the utility kernels with path conditions: on every path to a normal return some loop over all alternatives has given minus infinity to each one whose '
             'availability test (or data row lookup) failed, and data of an alternative are only used where its availability test succeeded; infinity-taint analysis of the nesting kernels')
NOTE = ('decides which alternatives are excluded and where their data and infinite utilities flow, not the values of probabilities (P41); the loop over case-alternative rows is assumed to '
        'see rows in increasing order of alternative (the data layer sorts them); the arithmetic of exp(-inf) = 0 is the floating point standard')
EXPLAIN = ('For every alternative loop the analysis enumerates the paths through one iteration; a path on which the availability flag is not known to be set, or the data row is absent, must store '
           'minus infinity before the iteration ends.  In the nesting kernels a utility or conditional log probability that may be minus infinity must not be multiplied into a derivative.')
ASSUME = ['rows of case-alternative data are in increasing order of alternative within a case', 'parameter values are finite']

INF = frozenset({(1, 0)})


def clean(i):
    i = i.split('@:', 1)[0]
    return re.sub(r'phi\((\w+)\)', r'phi(\1)', i)


def minus_inf(k):
    t = k.text.replace(' ', '')
    return t.startswith('(-') and 'inf' in t.lower() and len(t) < 40 or t.lower() in ("float('-inf')", '-inf')


class AvDom(KDomain):
    """U, dU and Q are outputs, av is the availability, data the arrays of explanatory data"""
    cap = 200

    def __init__(self, ctx, outs, av, data, absent, alts, follow):
        self.ctx, self.outs, self.av, self.data, self.absent, self.alts, self.follow_ = ctx, outs, av, data, absent, alts, follow
        self.el, self.case, self.percase = {}, None, ()
        self.counters = {}
        self.label = ''
        self.nstores = 0

    def follow(self, f, ex):
        return self.follow_(f)

    # ---- path knowledge
    def available(self, st, el):
        for t, v in st.conds.items():
            m = re.match(r'^%s\[(.*)\]$' % re.escape(self.av), t)
            if m and v and clean(m.group(1).split(',')[-1]) == el:
                return True
            m = re.match(r'^\((?:0|False) (?:==|<) %s\[(.*)\]\)$' % re.escape(self.av), t)
            if m and clean(m.group(1).split(',')[-1]) == el and v == (' < ' in t):
                return True
            m = re.match(r'^\((?:1|True) == %s\[(.*)\]\)$' % re.escape(self.av), t)
            if m and clean(m.group(1).split(',')[-1]) == el and v:
                return True
        return False

    def tested(self, st, el):
        return any(t.find(self.av + '[') >= 0 and clean(m.split(',')[-1]) == el for t in st.conds for m in re.findall(re.escape(self.av) + r'\[(.*?)\](?:\)|$)', t))

    def row_absent(self, st):
        return any(v and any(a in t for a in self.absent) for t, v in st.conds.items() if self.absent and ('(-1 == ' in t or '.shape[' in t))

    def done(self, st, root, el):
        return (root, el) in st.must.get('inf', ()) or self.available(st, el) and not self.row_absent(st)

    def on_load(self, ex, root, idxs, node, st):
        if self.case and root in self.percase and idxs:
            self.ctx.ob('case-flag', '%s:%s' % (ex.func.name, root), clean(idxs[0]) == self.case, ex.func.loc(node), '%s reads %s of case %s instead of %s' % (ex.func.name, root, idxs[0], self.case))

    # ---- degrees: data
    def deg_of(self, ex, root, idxs, st):
        return INF if root in self.data else D0

    def on_loop(self, ex, node, itk, st):
        if isinstance(itk.obj, tuple) and itk.obj[0] == 'range':
            lo, hi, stp = itk.obj[1]
            if lo == '0' and stp == '1' and hi in self.alts:
                self.el[node] = 'idx{0:%s}' % hi
        return None

    def on_iter(self, ex, node, st):
        st.must.pop('inf', None)

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if root not in self.outs or not idxs:
            return
        el = clean(idxs[0])
        loc = ex.func.loc(node)
        main = self.outs[0]
        if root == main and aug is None and minus_inf(val):
            self.nstores += 1
            ok = not self.available(st, el) and (self.tested(st, el) or any(a in t for t in st.conds for a in self.absent)) or self.row_absent(st) or self.between(ex, node)
            self.ctx.ob('only-unavailable', '%s:%s' % (ex.func.name, root), ok, loc, '%s excludes an alternative on a path that does not establish that it is unavailable%s' % (ex.func.name, self.label))
            st.add_must('inf', (root, el))
            return
        if isslice(idxs[0]):
            return                       # whole array
        d = ex.degk(val, st)
        if aug is None and (root, el) in st.must.get('inf', ()):
            st.must['inf'] = frozenset(x for x in st.must['inf'] if x != (root, el))
        if d == D0:
            if aug is None and root == main and not st.must.get('excl', None) is None and not self.available(st, el) and main + '[' not in val.text:
                self.ctx.ob('not-undone', '%s:%s' % (ex.func.name, root), False, loc, '%s replaces the utility of an alternative that may have been excluded%s' % (ex.func.name, self.label))
            return
        self.ctx.ob('data-guarded', '%s:%s' % (ex.func.name, root), self.available(st, el) and not self.row_absent(st), loc,
                    '%s uses data of an alternative in "%s" without having tested that the alternative is available%s' % (ex.func.name, root, self.label))

    def between(self, ex, node):
        """a store in a loop that steps over alternatives without a data row"""
        return any(isinstance(l, ast.While) or l not in self.el for l in ex.loops if l in self.counters)

    def on_name(self, ex, name, val, aug, node, st):
        """a counter that runs over alternatives moves on"""
        if aug != '+' or name not in self.counter_names(ex.func):
            return
        old = st.env.get(name)
        if old is None:
            return
        el = clean(old.text)
        main = self.outs[0]
        self.ctx.ob('row-loop', '%s:%s' % (ex.func.name, name), self.done(st, main, el), ex.func.loc(node),
                    '%s moves past alternative %s on a path that neither found it available nor excluded it%s' % (ex.func.name, name, self.label))
        st.must['inf'] = frozenset(x for x in st.must.get('inf', ()) if x[1] != el)

    def counter_names(self, f):
        if f.qual not in self.counters:
            aug = {n.target.id for n in ast.walk(f.node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and n.value.value == 1}
            sub = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    x = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) and n.slice.elts else n.slice
                    if isinstance(x, ast.Name):
                        sub.add(x.id)
            self.counters[f.qual] = aug & sub
            for l in ast.walk(f.node):
                if isinstance(l, (ast.While, ast.For)) and any(isinstance(x, ast.Name) and x.id in aug & sub for x in ast.walk(l)):
                    self.counters[l] = True
        return self.counters[f.qual]

    def on_loop_out(self, ex, node, st, ends):
        main = self.outs[0]
        self.counter_names(ex.func)
        if node in self.el:
            el = self.el[node]
            if any(self.touched(s, main, el) for s in ends):
                bad = [s for s in ends if not self.done(s, main, el)]
                if not bad:
                    st.add_must('excl', 'all')
        elif isinstance(node, ast.While) and node in self.counters:
            t = node.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                a, b = ex.ev(t.left, st).text, ex.ev(t.comparators[0], st).text
                if a in self.alts or b in self.alts:
                    st.add_must('excl', 'all')        # the counter rule makes every step an exclusion
        elif isinstance(node, ast.For):
            it = node.iter
            if isinstance(it, ast.Call) and len(it.args) == 2 and ex.ev(it.args[1], st).text in self.alts and isinstance(it.args[0], ast.Name) and it.args[0].id in self.counter_names(ex.func):
                if all(any(x[0] == main for x in s.must.get('inf', ())) for s in ends):
                    st.add_must('excl', 'all')

    def touched(self, s, root, el):
        return (root, el) in s.must.get('inf', ())


class NestDom(KDomain):
    """infinity taint in the nesting kernels"""
    cap = 60

    def __init__(self, ctx, util, logp, av, ch, sinks):
        self.ctx, self.util, self.logp, self.av, self.ch, self.sinks = ctx, util, logp, av, ch, sinks
        self.label = ''

    def follow(self, f, ex): return False

    def finite(self, st, root, idxs):
        el = idxs[0] if idxs else ''
        txt = '%s[%s]' % (root, ','.join(idxs))
        for t, v in st.conds.items():
            if v and t.endswith(' < %s)' % txt) and 'inf' in t.lower():
                return True
            if not v and t.startswith('(%s <= ' % txt) and 'inf' in t.lower():
                return True
            if not v and t.startswith('(%s == ' % txt) and 'inf' in t.lower() or not v and t.endswith(' == %s)' % txt) and 'inf' in t.lower():
                return True
            for r in (self.av, self.ch):
                if r and v and t == '%s[%s]' % (r, el):
                    return True
        return False

    def deg_of(self, ex, root, idxs, st):
        if root in self.util or root in self.logp:
            if not idxs or isslice(idxs[0]):
                return D0
            if self.finite(st, root, idxs):
                return D0
            # an edge's conditional log probability also bounds the utilities at its two ends
            if root in self.util and any(self.finite_edge(st, lp, idxs) for lp in self.logp):
                return D0
            return INF
        return D0

    def finite_edge(self, st, lp, idxs):
        """utility of a node at the end of an edge whose conditional log probability is finite"""
        m = re.match(r'^\w+\[(.*)\]$', idxs[0])
        return bool(m) and self.finite(st, lp, (m.group(1),))

    def on_call(self, ex, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
        if nm in ('exp', 'expf', 'isinf', 'isneginf', 'isfinite') and args:
            return K('%s(%s)' % (nm, args[0].text))
        if nm in ('log', 'logf') and args:
            return K('%s(%s)' % (nm, args[0].text))
        return None

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if root not in self.sinks:
            return
        d = ex.degk(val, st)
        self.ctx.ob('no-infinite-derivative', '%s:%s' % (ex.func.name, root), d == D0, ex.func.loc(node),
                    '%s puts a utility that may be minus infinity into "%s"%s' % (ex.func.name, root, self.label))


def need(f, names):
    if not set(names) <= set(f.all_params):
        raise AnalysisBroken('%s no longer has the parameters %s' % (f.qual, sorted(set(names) - set(f.all_params))))


def check(ctx):
    prog = ctx.prog
    ctx.rule('excluded', 'on every path to a return that has computed utilities, unavailable alternatives have been excluded', 4)
    ctx.rule('only-unavailable', 'an alternative is excluded only on paths that establish that it is unavailable', 4)
    ctx.rule('data-guarded', 'data of an alternative are used only where it is known to be available', 6)
    ctx.rule('not-undone', 'an exclusion is not overwritten', 0)
    ctx.rule('row-loop', 'a counter over alternatives moves only past alternatives that are available or excluded', 0)
    ctx.rule('no-infinite-derivative', 'an infinite utility is not multiplied into a derivative', 8)
    ctx.rule('case-flag', 'the availability read for a case is that of the same case', 4)
    # ---- Cython
    c = prog.cls('larch.dataframes', 'DataFrames')
    for fn, outs in (('_compute_d_utility_onecase', ('U', 'dU', 'Q')), ('_compute_utility_onecase', ('U', 'Q'))):
        f = prog.lookup(c, fn)
        if f is None:
            raise AnalysisBroken('DataFrames.%s not found' % fn)
        need(f, ('c',) + outs + ('n_alts',))
        for ce in (False, True):
            dom = AvDom(ctx, outs, 'self._array_av', {'self._array_ca', 'self._array_co', 'self._array_ce'}, ('_array_ce_reversemap',) if ce else (), {'n_alts', 'U.shape[0]'},
                        lambda g: g.name not in ('_is_computational_ready', 'is_computational_ready'))
            dom.label = ' (case-alternative data)' if ce else ''
            dom.case, dom.percase = 'c', ('self._array_av', 'self._array_ca', 'self._array_co', 'self._array_ce_reversemap')
            ex = Exec(prog, dom)
            st = St()
            st.conds['(self._array_ce_reversemap is None)'] = not ce
            st.conds['self._is_computational_ready(activate=True)'] = True
            ret, _ = ex.run(f, {f.params[0]: K('self', view=None, obj=('inst', c))}, st)
            for q in ex.funcs:
                ctx.seen(q)
            for s in ret:
                ctx.ob('excluded', '%s:%s' % (fn, 'ce' if ce else 'ca'), 'all' in s.must.get('excl', ()), f.loc(f.node),
                       '%s has a path on which not every unavailable alternative is given minus infinity%s' % (fn, dom.label))
    # ---- numba
    nk = prog.func('larch.numba.model', '_numba_master')
    need(nk, ('array_av', 'array_ca', 'array_co', 'array_ce_data', 'array_ce_indices', 'utility', 'return_flags'))
    for ce in (False, True):
        dom = AvDom(ctx, ('utility', 'dutility'), 'array_av', {'array_ca', 'array_co', 'array_ce_data'}, ('array_ce_indices', 'array_ce_ptr') if ce else (), {'array_ca.shape[0]'},
                    lambda g: g.name != '_numba_utility_to_loglike')
        dom.label = ' (case-alternative data)' if ce else ''
        ex = Exec(prog, dom)
        st = St()
        st.conds['(0 < array_ce_data.shape[0])'] = ce
        st.env['array_ca.shape[0]'] = None
        ret, _ = ex.run(nk, {}, st)
        for q in ex.funcs:
            ctx.seen(q)
        for s in ret:
            ctx.ob('excluded', '%s:%s' % (nk.name, 'ce' if ce else 'ca'), 'all' in s.must.get('excl', ()), nk.loc(nk.node),
                   '%s has a path on which not every unavailable alternative is given minus infinity%s' % (nk.name, dom.label))
    # ---- nests
    f = prog.func('larch.numba.model', '_numba_utility_to_loglike')
    need(f, ('utility', 'logprob', 'array_av', 'array_ch', 'dutility', 'd_loglike', 'loglike', 'bhhh'))
    nest(ctx, f, NestDom(ctx, {'utility'}, {'logprob'}, 'array_av', 'array_ch', {'dutility', 'd_loglike', 'loglike', 'bhhh'}), dprob=True)
    f = prog.func('larch.model.nl', '_nl_d_utility_upstream_v2')
    need(f, ('utility', 'conditional_logprobability', 'dU'))
    nest(ctx, f, NestDom(ctx, {'utility'}, {'conditional_logprobability'}, None, None, {'dU'}))
    f = prog.func('larch.model.nl', '_nl_d_probability_from_d_utility')
    need(f, ('utility', 'log_cond_probability', 'd_probability', 'scratch'))
    nest(ctx, f, NestDom(ctx, {'utility'}, {'log_cond_probability'}, None, None, {'scratch', 'd_probability'}))


def nest(ctx, f, dom, dprob=False):
    ex = Exec(ctx.prog, dom)
    ex.run(f, {})
    if dprob:
        pass
    ctx.seen(f)
