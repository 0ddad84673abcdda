"""Runs the kernel interpreter over the multithreaded likelihood engines, one run
per configuration (persist flags x derivative / BHHH switches x weights present),
and keeps what happened to every array region."""
import ast

from .kern import Exec, KDomain, K, St, kconst, D0, NC, degmul, zero
from .frontend import parse_pxd
from .program import AnalysisBroken

ENGINES = (('larch.model.mnl', 'mnl_d_log_likelihood_from_dataframes_all_rows'),
           ('larch.model.nl', 'nl_d_log_likelihood_from_dataframes_all_rows'))


def is_prange(call):
    f = call.func if isinstance(call, ast.Call) else None
    return f is not None and (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) == 'prange'


class EngDomain(KDomain):
    """event log of one run; degrees per array region travel with the state"""
    cap = 1

    def __init__(self, wt_attr='_array_wt', norm_attr='_weight_normalization'):
        self.events, self.allocs, self.enters = {}, {}, []
        self.wt_attr, self.norm_attr = wt_attr, norm_attr
        self.prange_args = {}
        self.attr_stores = {}
        self.stale = {}
        self.pnames = {}
        self.team = None

    # the size of the thread team
    def on_call(self, ex, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
        if nm in ('parallel', 'prange') and 'num_threads' in kw:
            self.team = kw['num_threads'].text
        return None

    # the parallel loop
    def on_loop(self, ex, node, itk, st):
        if is_prange(node.iter):
            self.prange_args[ex.func.loc(node)] = itk.obj[1]
            return K('CASE')
        return None

    def on_iter(self, ex, node, st):
        if not is_prange(node.iter):
            return
        # what an iteration assigns is private to it: nothing may flow in from another iteration
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(getattr(n, 'aug', None), bool):
                if n.id not in self.augs(node):
                    old = st.env.get(n.id)
                    st.env[n.id] = K('stale:' + n.id, obj=old.obj if old is not None else None)

    @staticmethod
    def augs(node):
        plain, aug = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.add(n.target.id)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    plain |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return aug - plain

    def on_read(self, ex, name, k, node, st):
        if 'stale:' in k.text and k.text in ('stale:' + name, 'phi(stale:%s)' % name):
            self.stale.setdefault((ex.func.name, name), ex.func.loc(node))

    @staticmethod
    def in_par(ex):
        return any(isinstance(l, ast.For) and is_prange(l.iter) for l in ex.loops)

    def log(self, ex, kind, root, idxs, val, aug, node, st):
        k = (kind, root, idxs, None if val is None else (val.text, val.const is not NC), aug, self.in_par(ex), ex.func.loc(node))
        self.events.setdefault(k, ex.func.name)

    def on_store(self, ex, root, idxs, val, aug, node, st):
        self.log(ex, 'store', root, idxs, val, aug, node, st)
        if aug in ('*', '/'):
            d = ex.degk(val, st)
            if d != D0:
                mark = ('mul', ex.func.loc(node), root)
                if mark in st.may.get('mul', ()) and any('idx{' in i or i == 'CASE' for i in idxs):
                    return               # the same statement, for another element
                st.add_may('mul', mark)
                old = st.may.get('deg:' + root)
                if old:
                    st.may['deg:' + root] = degmul(old, d, 1 if aug == '*' else -1)
            return
        if zero(val):
            return
        st.may['deg:' + root] = st.may.get('deg:' + root, frozenset()) | ex.degk(val, st)

    def on_load(self, ex, root, idxs, node, st):
        self.log(ex, 'load', root, idxs, None, None, node, st)

    def on_alloc(self, ex, k, shape, fill, node, st):
        self.allocs[k.view[0]] = (shape, fill, ex.func.loc(node), self.in_par(ex))

    def on_attr(self, ex, base, attr, val, node, st):
        if isinstance(base.obj, tuple) and base.obj[0] == 'rec':
            return
        self.attr_stores.setdefault((base.text, attr, ex.func.loc(node), self.in_par(ex)), []).append(val)

    def on_enter(self, ex, f, args, st):
        self.enters.append((f, args, ex.func, self.in_par(ex)))

    def deg_of(self, ex, root, idxs, st):
        a = root.rsplit('.', 1)[-1]
        if a in (self.wt_attr, '_data_wt'):
            return frozenset({(1, 0)})
        if a == self.norm_attr:
            return frozenset({(0, 1)})
        return st.may.get('deg:' + root, D0)


def flags(prog):
    en = parse_pxd(prog.repo + '/larch/model/persist_flags.pxd', 'larch.model.persist_flags')[0]
    fl = {k: v for k, v in en.items() if k.startswith('PERSIST_')}
    if len(fl) < 8:
        raise AnalysisBroken('only %d persist flags found' % len(fl))
    return fl


def configs(fl, thorough=False):
    """nothing, each flag alone, everything but one flag, everything (thorough: also every pair)"""
    single = sorted(v for v in fl.values() if v and v & (v - 1) == 0)
    full = max(fl.values())
    out = {0, full} | set(single) | {full & ~v for v in single}
    if thorough:
        out |= {a | b for a in single for b in single}
    return sorted(out)


def run_engine(prog, mod, fn, fl, persist, dll, bhhh, ponly, weighted=True):
    f = prog.func(mod, fn)
    dom = EngDomain()
    ex = Exec(prog, dom, dict(fl))
    st = St()
    if weighted is not None:
        for t in ('(dfs._array_wt is None)', '(dfs._data_wt is None)', '(dfs.data_wt is None)'):
            st.conds[t] = not weighted
    need = {'persist', 'return_dll', 'return_bhhh', 'probability_only'}
    if not need <= set(f.all_params):
        raise AnalysisBroken('%s no longer takes %s' % (f.qual, sorted(need - set(f.all_params))))
    ret, rai = ex.run(f, {'persist': kconst(persist), 'return_dll': kconst(dll), 'return_bhhh': kconst(bhhh), 'probability_only': kconst(ponly)}, st)
    if not ret or not dom.prange_args:
        raise AnalysisBroken('no normal return, or no parallel loop, found in %s' % f.qual)
    return f, ex, dom, ret
