"""P11: parameters held fast are never moved and have zero derivatives."""
import ast
import re

from ..kern import Exec, KDomain, K, St, D0, NC, kconst, zero, isslice
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of the derivative kernels: homogeneity of every value stored into a derivative array (degree in the derivatives read), with a path condition that the '
             'parameter of the slot is not held wherever a value enters that does not come from the same slot; path conditions on every write of the value column of the parameter frame')
NOTE = ('a slot that starts at zero and only ever receives multiples of the same slot of other derivative rows stays at zero, so it is enough that every other contribution is guarded; '
        'derivatives of constraint penalties are added by the models, not by the engines, and are not part of this property; explicit assignment to one named parameter (set_value, lock_value) is '
        'not a bulk assignment')
EXPLAIN = ('Each store into a derivative array is classified by how its value depends on derivative arrays.  A contribution that does not vanish with the derivatives needs a path on which the '
           'hold flag of that very slot is known to be off.  Every store into the "value" column of a parameter frame needs a row selection or a path condition that excludes held rows.')
ASSUME = ['the arrays of derivatives are zero, or reset to zero, when the kernel starts (P07)']


DERIV = {'dutility', 'dutility_elem', 'd_loglike', 'dU'}


class HfDom(KDomain):
    cap = 200

    def __init__(self, ctx, seeds, nofollow=()):
        self.ctx, self.seeds, self.more, self.nofollow = ctx, set(seeds), set(), nofollow
        self.final = False
        self.n = 0

    def follow(self, f, ex):
        return f.name not in self.nofollow

    def roots(self):
        return self.seeds | self.more

    def is_array(self, ex, k, st):
        return k.view is not None and (k.view[0].startswith('@') or k.view[0] in self.roots())

    def deg_of(self, ex, root, idxs, st):
        return frozenset({(1, 0)}) if root in self.roots() else D0

    def held_off(self, st, P, seen=()):
        """is the parameter of slot P known not to be held?"""
        C = st.conds
        for t, v in C.items():
            m = re.match(r'^holdfast_arr\[(.*)\]$', t)
            if m and not v and m.group(1) == P:
                return True
        m = re.match(r'^self\.(model_\w+?)\[(.*)\]$', P)
        if m and C.get('self.%s_holdfast[%s]' % (m.group(1), m.group(2))) is False:
            return True
        m = re.match(r'^self\.(model_\w+)$', P)
        if m and C.get('self.%s_holdfast' % m.group(1)) is False:
            return True
        if re.match(r'^param_slot_of_mu\[(.*)\]$', P):
            if C.get('(0 <= %s)' % P) or C.get('(-1 < %s)' % P) or C.get('(%s < 0)' % P) is False or C.get('(-1 == %s)' % P) is False or C.get('(%s <= -1)' % P) is False:
                return True
        for t, v in C.items():          # the slot is equal to another one
            if v and t.startswith('(') and t.endswith(')') and ' == ' in t:
                a, b = t[1:-1].split(' == ', 1)
                other = b if a == P else a if b == P else None
                if other and other not in seen and self.held_off(st, other, tuple(seen) + (P,)):
                    return True
        return False

    def on_enter(self, ex, f, args, st):
        for p in DERIV & set(f.all_params):
            k = st.env.get(p)
            if k is not None and k.view is not None and not self.final:
                self.more.add(k.view[0])

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if aug in ('*', '/') or zero(val):
            return
        d = ex.degk(val, st)
        if root not in self.roots():
            if any(x[0] for x in d) and not self.final:
                self.more.add(root)
            return
        if not self.final:
            return
        self.n += 1
        loc = ex.func.loc(node)
        name = '%s:%s' % (ex.func.name, root.split('/')[-1] if root.startswith('@') else root)
        if root.startswith('@'):
            name = '%s:local' % ex.func.name
        P = idxs[-1] if idxs else ':'
        if (0, 0) in d:
            self.ctx.ob('guarded', name, self.held_off(st, P), loc,
                        '%s adds to the derivative with respect to parameter slot "%s" without having tested that this parameter is not held' % (ex.func.name, P[:60]))
        else:
            self.ctx.ob('guarded', name, True, loc, '')
        for r in self.roots():
            for m in re.finditer(r'(?<![\w.])' + re.escape(r) + r'\[', val.text):
                q = closing(val.text, m.end())
                if q is None:
                    continue
                Q = split(q)[-1]
                ok = Q == P or P in (':', '') or isslice(P) or Q == ':' or len(idxs) == 2 and Q == idxs[0]
                self.ctx.ob('same-slot', name, ok, loc, '%s fills parameter slot "%s" of a derivative array from slot "%s" of another' % (ex.func.name, P[:50], Q[:50]))


def closing(t, i):
    d, s = 1, i
    while i < len(t):
        if t[i] in '([{':
            d += 1
        elif t[i] in ')]}':
            d -= 1
            if d == 0:
                return t[s:i]
        i += 1
    return None


def split(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


def kernel(ctx, f, seeds, need, args=None, nofollow=(), conds=()):
    if not set(need) <= set(f.all_params):
        raise AnalysisBroken('%s no longer has the parameters %s' % (f.qual, sorted(set(need) - set(f.all_params))))
    dom = HfDom(ctx, seeds, nofollow)
    for _ in range(6):
        n = len(dom.more)
        st = St()
        for c, v in conds:
            st.conds[c] = v
        ex = Exec(ctx.prog, dom)
        ex.run(f, dict(args or {}), st)
        if dom.final:
            break
        if len(dom.more) == n:
            dom.final = True
    if not dom.n:
        raise AnalysisBroken('%s stores nothing into %s' % (f.qual, seeds))
    for q in ex.funcs:
        ctx.seen(q)


class FrameDom(KDomain):
    """stores into a column of a parameter frame"""
    cap = 200

    def __init__(self, ctx, f):
        self.ctx, self.f, self.n = ctx, f, 0

    def follow(self, f, ex):
        return f.module is self.f.module and len(f.node.body) <= 6

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if not (root.endswith('.loc') or root.endswith('._frame') or root.endswith('.pf')) or not idxs or idxs[-1] not in ("'value'", '"value"'):
            return
        self.n += 1
        row = idxs[0] if len(idxs) > 1 else ':'
        ok = free_rows(row)
        for t, v in st.conds.items():
            if not ok and re.match(r"^[\w.]*\.(loc|at)\[%s,'holdfast'\]$" % re.escape(row), t) and not v:
                ok = True
            if not ok and re.match(r"^[\w.]*\.get_holdfast\(%s(, .*)?\)$" % re.escape(row), t) and not v:
                ok = True
        self.ctx.ob('bulk', '%s:value' % ex.func.name, ok, ex.func.loc(node), '%s writes parameter values in rows "%s" without leaving out the held ones' % (ex.func.name, row[:70]))


def free_rows(row):
    """does this row selection leave out the held parameters?"""
    t = re.sub(r'\.(values|to_numpy\(\)|astype\(bool\)|astype\(int\)|copy\(\))', '', row)
    old = None
    while old != t:
        old = t
        t = re.sub(r'(?:numpy|np)\.(?:asarray|asanyarray|array|flatnonzero)\(([^()]*(?:\([^()]*\))?[^()]*)\)', r'\1', t)
        t = re.sub(r'^(?:numpy|np)\.(?:where|nonzero)\((.*)\)\[0\]$', r'\1', t)
    H = r"[\w.]*(?:\['holdfast'\]|\.holdfast|\.loc\[:,'holdfast'\])"
    return any(re.match('^%s$' % x.replace('H', H), t) for x in (r'\((?:0|False) == H\)', r'H\.eq\(0\)', r'\(~H\)', r'\(not H\)', r'\(~\((?:0|False) != H\)\)', r'\(~H\.ne\(0\)\)',
                                                                  r'(?:numpy|np)\.logical_not\(H\)', r'\(H < 1\)', r'\(~\(0 < H\)\)', r'@?H\.isin\(\(0\)\)'))


def value_writes(f):
    """assignments into the value column of a parameter frame, by form"""
    out = []
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign,)) else []
        for t in ts:
            if isinstance(t, ast.Subscript):
                b = ast.unparse(t.value)
                sl = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                if any(isinstance(x, ast.Constant) and x.value == 'value' for x in sl) and ('_frame' in b or re.search(r'\bpf\b', b)):
                    out.append(n)
                elif re.search(r"(_frame|pf)(\['value'\]|\.value)(\.(loc|iloc|values|at))*$", b):
                    out.append(n)
            elif isinstance(t, ast.Attribute) and t.attr == 'value' and re.search(r'(_frame|\bpf)$', ast.unparse(t.value)):
                out.append(n)
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule('guarded', 'a contribution to a derivative slot that does not come from the same slot is made only when that parameter is known not to be held', 30)
    ctx.rule('same-slot', 'derivatives are combined slot by slot', 15)
    ctx.rule('flags', 'the hold flags the kernels read belong to the same parameters as the values they read', 5)
    ctx.rule('bulk', 'bulk assignment of parameter values leaves held rows alone', 3)
    ctx.rule('no-override', 'nothing in the package asks for held parameters to be moved', 3)
    # ---- kernels
    c = prog.cls('larch.dataframes', 'DataFrames')
    f = prog.lookup(c, '_compute_d_utility_onecase')
    for ce in (False, True):
        kernel(ctx, f, {'dU'}, ('c', 'U', 'dU', 'n_alts'), {f.params[0]: K('self', obj=('inst', c))}, ('_is_computational_ready', 'is_computational_ready'),
               [('(self._array_ce_reversemap is None)', not ce), ('self._is_computational_ready(activate=True)', True)])
    nl, mnl = 'larch.model.nl', 'larch.model.mnl'
    kernel(ctx, prog.func(nl, '_nl_d_utility_upstream_v2'), {'dU'}, ('dU', 'param_slot_of_mu'))
    kernel(ctx, prog.func(nl, '_nl_d_probability_from_d_utility'), {'d_utility', 'scratch', 'd_probability'}, ('d_utility', 'scratch', 'd_probability', 'param_slot_of_mu'))
    kernel(ctx, prog.func(nl, '_nl_d_loglike_from_d_probability'), {'d_probability', 'd_LL', 'd_loglike_cum', 'bhhh_cum', 'dLL_temp'}, ('d_probability', 'd_LL', 'd_loglike_cum', 'bhhh_cum', 'dLL_temp'))
    kernel(ctx, prog.func(mnl, '_mnl_d_log_likelihood_from_d_utility'), {'dU', 'd_loglike_case', 'd_loglike_cum', 'bhhh_cum', 'dLL_temp'}, ('dU', 'd_loglike_case', 'd_loglike_cum', 'bhhh_cum', 'dLL_temp'))
    nk = prog.func('larch.numba.model', '_numba_master')
    for ce in (False, True):
        kernel(ctx, nk, {'dutility', 'd_loglike', 'bhhh'} & set(nk.all_params) | {'d_loglike'}, ('holdfast_arr', 'd_loglike', 'bhhh'), conds=[('(0 < array_ce_data.shape[0])', ce)])
    # ---- flags
    flags(ctx, prog, c)
    # ---- bulk assignment
    pf = prog.cls('larch.model.parameter_frame', 'ParameterFrame')
    nwr = 0
    for m in prog.all_modules():
        if m.name.startswith('larch.util.activitysim'):
            continue
        for f in m.all_funcs():
            w = value_writes(f)
            if not w:
                continue
            dom = FrameDom(ctx, f)
            ex = Exec(prog, dom)
            args = {'respect_holdfast': kconst(True)} if 'respect_holdfast' in f.all_params else {}
            if f.cls is not None and f.params:
                args[f.params[0]] = K('self', obj=('inst', f.cls))
            ex.run(f, args)
            ctx.seen(f)
            nwr += dom.n
            if dom.n < 1:
                ctx.ob('bulk', '%s:value' % f.name, False, f.loc(w[0]), '%s writes parameter values in a way that cannot exclude the held ones' % f.name)
    sv = prog.lookup(pf, 'set_values')
    if sv is None or nwr < 2:
        raise AnalysisBroken('ParameterFrame.set_values not found, or it writes no values')
    d = sv.default_of('respect_holdfast')
    if d is not None:
        ctx.ob('no-override', 'set_values:default', isinstance(d, ast.Constant) and d.value is True, sv.loc(sv.node), 'set_values moves held parameters by default')
    else:
        ctx.ob('no-override', 'set_values:default', True, sv.loc(sv.node), '')
    n = 0
    for m in prog.all_modules():
        if m.name.startswith('larch.util.activitysim'):
            continue
        for f in m.all_funcs():
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call):
                    continue
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')
                if nm in ('set_values', 'update_values', 'shift_values'):
                    n += 1
                    bad = [k for k in x.keywords if k.arg == 'respect_holdfast' and not (isinstance(k.value, ast.Constant) and k.value.value is True or isinstance(k.value, ast.Name) and k.value.id in f.all_params)]
                    ctx.ob('no-override', '%s:%s' % (f.qual, nm), not bad, f.loc(x), '%s asks set_values to move held parameters' % f.qual)
                elif nm in ('set_value',) and m.name.endswith('optimization'):
                    ctx.ob('no-override', '%s:%s' % (f.qual, nm), False, f.loc(x), '%s steps through single-parameter assignment, which does not respect held parameters' % f.qual)


class FlagDom(KDomain):
    cap = 200

    def __init__(self): self.vals, self.stores, self.attrs = {}, [], []
    def follow(self, f, ex): return False

    def on_store(self, ex, root, idxs, val, aug, node, st):
        self.stores.append((root, idxs, val, ex.func.loc(node)))

    def on_attr(self, ex, base, attr, val, node, st):
        self.attrs.append((base.text + '.' + attr, val, ex.func.loc(node), dict(st.conds)))


def flags(ctx, prog, c):
    f = prog.lookup(c, '_read_in_model_parameters')
    if f is None:
        raise AnalysisBroken('DataFrames._read_in_model_parameters not found')
    dom = FlagDom()
    Exec(prog, dom).run(f, {f.params[0]: K('self', obj=('inst', c))})
    ctx.seen(f)
    n = 0
    for root, idxs, val, loc in dom.stores:
        m = re.match(r'^self\.(model_\w+)_(holdfast|value)$', root)
        if not m:
            continue
        n += m.group(2) == 'holdfast'
        want = '[self.%s[%s]]' % (m.group(1), idxs[0])
        col = "['%s']" % m.group(2)
        ok = want in val.text and col in val.text
        ctx.ob('flags', '%s:%s' % (f.name, root), ok, loc, '%s fills %s[%s] from "%s"' % (f.name, root, idxs[0], val.text[:90]))
    for t, val, loc, conds in dom.attrs:
        m = re.match(r'^self\.(model_\w+)_(holdfast|value)$', t)
        if not m:
            continue
        P = 'self.' + m.group(1)
        if val.const is not NC:
            ok = bool(val.const) and (conds.get('(0 <= %s)' % P) is False or conds.get('(%s < 0)' % P) or conds.get('(-1 == %s)' % P))
        else:
            ok = '[%s]' % P in val.text and "['%s']" % m.group(2) in val.text
        n += m.group(2) == 'holdfast'
        ctx.ob('flags', '%s:%s' % (f.name, t), bool(ok), loc, '%s sets %s from "%s"' % (f.name, t, val.text[:90]))
    if n < 4:
        raise AnalysisBroken('%s reads the hold flags of only %d groups of parameters' % (f.qual, n))
    # nesting parameters of the native engine
    t = prog.cls('larch.model.tree', 'NestingTree')
    g = prog.lookup(t, '_get_simple_mu_and_alpha')
    pf = prog.cls('larch.model.parameter_frame', 'ParameterFrame')
    gs = prog.lookup(pf, 'get_slot_x')
    if g is None or gs is None:
        raise AnalysisBroken('the functions that look up the slots of nesting parameters were not found')
    dom = FlagDom()
    rec = []

    def on_call(ex, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else ''
        if nm == 'get_slot_x':
            rec.append((args, kw, ex.func.loc(node)))
        return None
    dom.on_call = on_call
    d = g.default_of('holdfast_invalidates')
    Exec(prog, dom).run(g, {'holdfast_invalidates': kconst(d.value)} if isinstance(d, ast.Constant) else {})
    ctx.seen(g)
    if not rec:
        raise AnalysisBroken('%s does not look up parameter slots' % g.qual)
    for args, kw, loc in rec:
        h = kw.get('holdfast_invalidates') or (args[1] if len(args) > 1 else None)
        ctx.ob('flags', '%s:get_slot_x' % g.name, h is not None and h.const is not NC and bool(h.const), loc, '%s gives the native engine the slots of held nesting parameters' % g.name)
    ts = prog.cls('larch.model.tree_struct', 'TreeStructure')
    k = 0
    for m in ts.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '_get_simple_mu_and_alpha':
                k += 1
                a = [kk.value for kk in x.keywords if kk.arg == 'holdfast_invalidates'] + x.args[1:2]
                ctx.ob('flags', 'TreeStructure:slots', not a or isinstance(a[0], ast.Constant) and bool(a[0].value), m.loc(x), 'the tree structure is built with the slots of held nesting parameters')
    if not k:
        raise AnalysisBroken('TreeStructure no longer builds its slots from the tree')
    dom = FlagDom()
    outs = []
    dom.on_return = lambda ex, ff, val, st: outs.append((val, dict(st.conds)))
    Exec(prog, dom).run(gs, {'holdfast_invalidates': kconst(True)})
    ctx.seen(gs)
    for val, conds in outs:
        neg = val.text.replace(' ', '').strip('()') == '-1' or val.const == -1
        ok = neg or any(('holdfast' in t) and v is False for t, v in conds.items())
        ctx.ob('flags', 'get_slot_x', ok, gs.loc(gs.node), 'get_slot_x returns the slot of a parameter without having found it free')
