"""P07: compiled kernels write only their own outputs, and reset what they accumulate into."""
import ast
import re

from ..engines import ENGINES, EngDomain, flags, configs, is_prange
from ..gufunc import kernels, used
from ..kern import Exec, K, St, kconst, zero, isslice
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of the native engines (every persist flag configuration) and of the array kernels with symbolic array regions: effect analysis of every store, '
             'must-be-reset analysis of every accumulation with region coverage, alias analysis of kernel arguments')
NOTE = ('reads of elements that an earlier step of the same loop wrote (traversal order of the nesting tree) are only required to follow some store of the same array; '
        'casewise results of cases that an evaluation leaves out stay as allocated')
EXPLAIN = ('Every store in an engine or kernel must go to an array allocated in the same invocation or to a declared output.  Every accumulation into an array must be preceded, on every path and in the '
           'same iteration of the case loop, by stores that cover the accumulated elements; totals that are only ever accumulated must be allocated with zeros in the same invocation and not be read in the loop.  '
           'No kernel call passes the same memory as a written and as another argument.')
ASSUME = ['the loops that reset a buffer run over the whole dimension they name (dimension names are compared with the allocated shape)', 'distinct allocations do not overlap']


def dims_covered(have, want, shape):
    """do the stores `have` (tuples of index texts) together cover `want`?"""
    for h in have:
        if len(h) > len(want):
            continue
        if all(covers(a, b, i, shape) for i, (a, b) in enumerate(zip(h, want))):
            return True
    # two stores that split one dimension
    for i in range(len(want)):
        groups = {}
        for h in have:
            if len(h) == len(want):
                groups.setdefault(h[:i] + h[i + 1:], []).append(h[i])
        for rest, parts in groups.items():
            w = want[:i] + want[i + 1:]
            sh = None if shape is None else list(shape[:i]) + list(shape[i + 1:])
            if all(covers(a, b, j if j < i else j, sh) for j, (a, b) in enumerate(zip(rest, w))) and split_covers(parts, shape[i] if shape and i < len(shape) else None):
                return True
    return False


def rng(t):
    m = re.match(r'^idx\{(.*?):([^{}:]*)\}$', t) or re.match(r'^idx\{([^:]*):(.*)\}$', t)
    return (m.group(1), m.group(2)) if m and not m.group(2).count(':') else None


def plus1(t):
    m = re.match(r'^\((.*) - 1\)$', t)
    return m.group(1) if m else '(%s + 1)' % t


def split_covers(parts, dim):
    ivals = []
    for p in parts:
        r = rng(p)
        if r:
            ivals.append(r)
        elif isslice(p):
            a, b = p.split(':')[:2]
            ivals.append((a or '0', b or (dim or '')))
        else:
            ivals.append((p, plus1(p)))
    pos, grown = '0', True
    while grown:
        grown = False
        for a, b in ivals:
            if a == pos and b != pos:
                pos, grown = b, True
                if dim is not None and pos == dim or dim is None and pos.startswith('('):
                    return True
                ivals.remove((a, b))
                break
    return dim is not None and pos == dim


def covers(a, b, i, shape):
    if a == b or a in (':', '...'):
        return True
    r = rng(a)
    if r and r[0] == '0':
        if shape is None or i >= len(shape) or shape[i] == r[1] or shape[i].startswith('like:'):
            return True
        q = rng(b)
        if q and q[0] == '0' and q[1] == r[1]:
            return True
    if isslice(a):
        s = a.split(':')
        if s[0] in ('', '0') and len(s) == 2 and (b.startswith('idx{0:%s}' % s[1]) or b.endswith('@' + a)):
            return True
    return False


def widen(have, new, shape):
    """the store `new` with whole dimensions as ':'; stores that split a dimension are joined"""
    w = tuple(':' if whole(x, shape[i] if shape and i < len(shape) else None) else x for i, x in enumerate(new))
    out = {w}
    for i in range(len(w)):
        parts = [h[i] for h in have if len(h) == len(w) and h[:i] == w[:i] and h[i + 1:] == w[i + 1:]] + [w[i]]
        if len(parts) > 1 and split_covers(parts, shape[i] if shape and i < len(shape) else None):
            out.add(w[:i] + (':',) + w[i + 1:])
    return out


def whole(x, dim):
    if x in (':', '...'):
        return True
    r = rng(x)
    return bool(r) and r[0] == '0' and (dim is None or dim == r[1] or dim.startswith('like:'))


class InitDom(EngDomain):
    cap = 1

    def __init__(self, ctx, tag, outputs=(), label='', judge=True):
        super().__init__()
        self.ctx, self.tag, self.outputs, self.label, self.judge = ctx, tag, set(outputs), label, judge
        self.plain, self.loaded, self.pending = set(), set(), []
        self.names = {}
        self.nst = 0
        self.kernel = bool(outputs)
        self.summed, self.plain_at = {}, {}

    def is_array(self, ex, k, st):
        return k.view is not None and (k.view[0].startswith('@') or k.view[0] in self.outputs)

    def follow(self, f, ex):
        # the readiness test is one fact: the engine raises when it fails, the per-case functions return
        return f.name not in ('_is_computational_ready', 'is_computational_ready')

    def deg_of(self, ex, root, idxs, st):
        return frozenset({(0, 0)})

    def shape_of(self, ex, b, st):
        if b.view is None or b.view[0] not in self.allocs:
            return None
        sh = self.allocs[b.view[0]][0]
        if sh is None or any(x.startswith('like:') for x in sh):
            return None
        out = []
        for i, d in enumerate(sh):
            if i < len(b.view[1]):
                h = b.view[1][i]
                if h == ':':
                    out.append(d)
                elif isslice(h):
                    return None
            else:
                out.append(d)
        return out

    def name_of(self, root, ex):
        if root in self.names:
            return self.names[root]
        if root.startswith('@'):
            return 'local array of ' + root.split('/')[-1].split(':')[0].lstrip('@')
        return root

    def on_iter(self, ex, node, st):
        super().on_iter(ex, node, st)
        if is_prange(node.iter):
            st.must = {k: v for k, v in st.must.items() if not k.startswith('init:')}

    def on_alloc(self, ex, k, shape, fill, node, st):
        super().on_alloc(ex, k, shape, fill, node, st)
        if fill is not None:
            st.must['alloc:' + k.view[0]] = frozenset({'filled'})
            if self.in_par(ex) or self.kernel:
                st.add_must('init:' + k.view[0], (':',))

    def on_store(self, ex, root, idxs, val, aug, node, st):
        loc = ex.func.loc(node)
        self.nst += 1
        nm = '%s:%s' % (ex.func.name, self.name_of(root, ex))
        ok = root.startswith('@') or root in self.outputs or root.startswith('new:') or root.startswith('rec@')
        self.ctx.ob('own-outputs', nm, ok, loc, '%s%s writes "%s[%s]", which is not one of its outputs or work arrays' % (ex.func.name, self.label, root, ','.join(idxs)))
        if not ok:
            return
        if aug is None:
            al = self.allocs.get(root)
            for w in widen(st.must.get('init:' + root, ()), idxs, al[0] if al else None):
                while len(w) > 1 and w[-1] == ':':
                    w = w[:-1]            # what is left out is the whole dimension
                st.add_must('init:' + root, w)
            if self.in_par(ex) or self.kernel:
                self.plain.add(root)
                if self.in_par(ex):
                    self.plain_at.setdefault(root, []).append((idxs, loc, nm))
            return
        if not self.in_par(ex) and not self.kernel:
            return                        # totals combined after the loop
        al = self.allocs.get(root)
        shape = al[0] if al else None
        cov = dims_covered([h for h in st.must.get('init:' + root, ())], idxs, shape)
        self.pending.append((root, idxs, cov, loc, nm, ex.func.name))

    def on_load(self, ex, root, idxs, node, st):
        if self.in_par(ex):
            self.loaded.add(root)
        stored = root.startswith('@') and (self.in_par(ex) or self.kernel) or root in self.outputs
        if stored:
            self.pending.append((root, idxs, bool(st.must.get('init:' + root)), ex.func.loc(node), '%s:%s' % (ex.func.name, self.name_of(root, ex)), 'load'))

    def on_call(self, ex, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
        if nm in ('sum', 'nansum') and not self.in_par(ex):
            b = fv.obj[1] if isinstance(fv.obj, tuple) and fv.obj[0] == 'bound' and fv.obj[1].view is not None else args[0] if args else None
            if b is not None and b.view is not None:
                self.summed[b.view[0]] = ex.func.loc(node)
        return super().on_call(ex, node, fv, args, kw, st)

    def finish(self):
        """accumulations: covered, or a total"""
        for root in self.summed:
            if not root.startswith('@'):
                continue
            bad = [x for x in self.plain_at.get(root, ()) if not (x[0] and 'CASE' in x[0][0])]
            self.ctx.ob('total-kept', '%s:%s' % (self.tag, self.name_of(root, None)), not bad, bad[0][1] if bad else self.summed[root],
                        '%s overwrites its running total "%s" while it works through the cases%s' % (self.tag, self.name_of(root, None), self.label))
        aug = {}
        for root, idxs, cov, loc, nm, fn in self.pending:
            if fn != 'load':
                aug.setdefault(root, []).append(idxs)
        for root, idxs, cov, loc, nm, fn in self.pending:
            if fn == 'load':
                if root in self.plain:
                    self.ctx.ob('stored-before-read', nm, cov, loc, '%s reads "%s" on a path where this iteration has not stored anything in it%s' % (nm.split(':')[0], nm.split(':')[1], self.label))
                continue
            if root in self.plain or self.kernel:
                self.ctx.ob('reset', nm, cov, loc, '%s accumulates into "%s[%s]" without having reset it on every path%s' % (fn, nm.split(':')[1], ','.join(idxs), self.label))
            else:
                al = self.allocs.get(root)
                ok = al is not None and al[1] == 0 and (root not in self.loaded or all(i and 'CASE' in i[0] for i in aug[root]))
                self.ctx.ob('reset', nm, ok, loc, '%s accumulates into "%s", which is not a fresh total of zeros and is never reset%s' % (fn, nm.split(':')[1], self.label))


def written_params(prog, f, memo=None):
    """parameters whose memory the function may store into"""
    memo = {} if memo is None else memo
    if f.qual in memo:
        return memo[f.qual]
    memo[f.qual] = set()
    out, P = set(), set(f.all_params)
    alias = {p: p for p in P}
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in ts:
            x = t
            while isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(t, ast.Subscript) and isinstance(x, ast.Name) and x.id in alias:
                out.add(alias[x.id])
            if isinstance(t, ast.Name) and isinstance(n, ast.Assign):
                v = n.value
                while isinstance(v, ast.Subscript) or isinstance(v, ast.Call) and getattr(v.func, 'id', '') == '__addr__' and v.args:
                    v = v.value if isinstance(v, ast.Subscript) else v.args[0]
                if isinstance(v, ast.Name) and v.id in P and t.id not in P and not isinstance(n.value, ast.Subscript):
                    alias[t.id] = v.id
        if isinstance(n, ast.Call):
            g = prog.resolve(f.module, n.func.id) if isinstance(n.func, ast.Name) else None
            if g is not None and hasattr(g, 'params'):
                w = written_params(prog, g, memo)
                for i, a in enumerate(n.args):
                    x = a
                    while isinstance(x, ast.Subscript) or isinstance(x, ast.Call) and getattr(x.func, 'id', '') == '__addr__' and x.args:
                        x = x.value if isinstance(x, ast.Subscript) else x.args[0]
                    if isinstance(x, ast.Name) and x.id in alias and i < len(g.params) and g.params[i] in w:
                        out.add(alias[x.id])
    memo[f.qual] = out
    return out


def overlap(a, b):
    for x, y in zip(a, b):
        if x != y and re.match(r'^-?\d+$', x) and re.match(r'^-?\d+$', y):
            return False
        if x != y and isslice(x) and isslice(y):
            p, q = x.split(':')[:2], y.split(':')[:2]
            if p[1] and p[1] == q[0] or q[1] and q[1] == p[0]:
                return False
    return True


def aliases(ctx, prog, dom, memo):
    n = 0
    for f, args, caller, par in dom.enters:
        w = written_params(prog, f, memo)
        names = [p for p in f.params][:len(args)]
        arr = [(p, a.view) for p, a in zip(names, args) if a.view is not None]
        for p, v in arr:
            if p not in w or not (v[0].startswith('@') or v[0] in dom.outputs):
                continue
            for q, u in arr:
                if q == p or u[0] != v[0]:
                    if q != p:
                        n += 1
                        ctx.ob('no-alias', '%s>%s:%s' % (caller.name, f.name, p), True, caller.loc(caller.node), '')
                    continue
                n += 1
                ctx.ob('no-alias', '%s>%s:%s' % (caller.name, f.name, p), not overlap(u[1], v[1]), caller.loc(caller.node),
                       '%s passes the same memory as "%s" (written) and "%s" of %s' % (caller.name, p, q, f.name))
    return n


def named_roots(f):
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            out['@%s:%d:%d' % (f.name, n.value.lineno, n.value.col_offset)] = n.targets[0].id
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule('own-outputs', 'every store goes to an array allocated in the same invocation or to a declared output', 200)
    ctx.rule('reset', 'every accumulation follows a reset of the accumulated elements, or goes to a fresh total', 100)
    ctx.rule('total-kept', 'running totals over cases are not overwritten inside the case loop', 4)
    ctx.rule('stored-before-read', 'work arrays are stored before they are read in the same iteration', 50)
    ctx.rule('no-alias', 'written arguments of kernels share no memory with other arguments', 50)
    fl = flags(prog)
    memo = {}
    for mod, fn in ENGINES:
        f = prog.func(mod, fn)
        for persist in configs(fl, ctx.thorough):
            for dll, bhhh, po in ((True, True, False), (True, False, False), (False, False, False), (False, False, True)):
                lab = ' [persist=%#x, gradient=%s, bhhh=%s, probability_only=%s]' % (persist, dll, bhhh, po)
                dom = InitDom(ctx, fn, (), lab)
                dom.names = named_roots(f)
                ex = Exec(prog, dom, dict(fl))
                ret, _ = ex.run(f, {'persist': kconst(persist), 'return_dll': kconst(dll), 'return_bhhh': kconst(bhhh), 'probability_only': kconst(po)}, St())
                if not ret or not dom.prange_args:
                    raise AnalysisBroken('no normal return, or no parallel loop, in %s' % f.qual)
                dom.finish()
                aliases(ctx, prog, dom, memo)
                for q in ex.funcs:
                    ctx.seen(q)
    # the other native functions over data frames and arrays
    for mod, fn, outs in (('larch.model.mnl', 'mnl_logsums_from_dataframes_all_rows', ('logsums',)), ('larch.model.mnl', 'loglike_from_probability', ()), ('larch.model.nl', 'd_loglike_from_d_probability', ())):
        f = prog.func(mod, fn)
        dom = InitDom(ctx, fn, outs)
        dom.names = named_roots(f)
        ex = Exec(prog, dom, dict(fl))
        ex.run(f, {}, St())
        dom.finish()
        aliases(ctx, prog, dom, memo)
        for q in ex.funcs:
            ctx.seen(q)
    # array kernels
    n = 0
    for k in kernels(prog):
        if not used(prog, k):
            continue
        n += 1
        dom = InitDom(ctx, k.name, k.out_params)
        dom.cap = 60
        ex = Exec(prog, dom)
        ret, _ = ex.run(k.func, {}, St())
        if not ret:
            raise AnalysisBroken('no normal return in %s' % k.name)
        dom.finish()
        aliases(ctx, prog, dom, memo)
        for q in ex.funcs:
            ctx.seen(q)
    if n < 2:
        raise AnalysisBroken('only %d array kernels found' % n)
    # availability and choice carried up to the nests
    m = prog.need_module('larch.numba.cascading')
    for f in m.funcs.values():
        if f.name in ('cascade_or', 'cascade_sum'):
            continue
        dom = InitDom(ctx, f.name)
        ex = Exec(prog, dom)
        ex.run(f, {}, St())
        for q in ex.funcs:
            ctx.seen(q)
