"""P13: an evaluation hands out only quantities that it has computed."""
import ast
import re

from ..engines import ENGINES, EngDomain, flags, configs
from ..gufunc import kernels
from ..kern import Exec, K, KDomain, St, kconst, zero
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of the evaluation engines and array kernels with the return options as constants: for every field a result exposes, the array behind it must have been stored in the same invocation under '
             'the same options and hold one row per case; definition-use analysis of result records and of exception handlers over the evaluation functions')
NOTE = ('decides that a value was computed under the options in force, not that it is the right value (other properties); the array kernel leaves a field as it was for cases where its own loops have no iterations; '
        'fields looked up under computed names are not followed')
EXPLAIN = ('Native engines: one run per combination of storage flags, gradient, BHHH and probability-only switches; every result field must come from arrays stored while the cases were worked through, and an array exposed case by case must '
           'be allocated with one row per case.  Array kernel: for every caller of the runner, the fields it reads must be stored on every path of the kernel under the flags it passes.  Result records: a field read from a record must be one that '
           'the record (or the function that made it) was given.  Handlers around an evaluation must raise or evaluate again.')
ASSUME = ['the loops over cases, alternatives and edges have at least one iteration', 'records returned by methods are those of the methods of that name in the model classes']

EVALMODS = ('larch.model.mnl', 'larch.model.nl', 'larch.model.controller', 'larch.model.abstract_model', 'larch.model.latentclass', 'larch.model.model_group', 'larch.model.optimization', 'larch.numba.model', 'larch.numba.optimization')
EVALCALL = re.compile(r'^_*(numba_master\w*|\w*log_?like\w*|loglike\w*|d_?2?_?loglike\w*|neg_\w*loglike\w*|probability|d_probability|utility|quantity|exputility|logsums|bhhh)$')


class ResDomain(EngDomain):
    def __init__(self):
        super().__init__()
        self.fields = []

    def on_store(self, ex, root, idxs, val, aug, node, st):
        super().on_store(ex, root, idxs, val, aug, node, st)
        if self.in_par(ex) and not (aug is None and zero(val)):
            st.add_may('computed', root)

    def on_attr(self, ex, base, attr, val, node, st):
        super().on_attr(ex, base, attr, val, node, st)
        if isinstance(base.obj, tuple) and base.obj[0] == 'rec':
            self.fields.append((attr, val, ex.func.loc(node), frozenset(st.may.get('computed', ()))))


ROOT = re.compile(r'@[\w.]+:\d+:\d+')


def combine(a):
    """is an array exposed as it is (one row per case), or reduced over its rows first"""
    return bool(re.search(r'\.(sum|nansum|mean|max|min)\(', a))


def native(ctx, prog, provided):
    fl = flags(prog)
    rev = {v: k for k, v in fl.items()}
    for mod, fn in ENGINES:
        f = prog.func(mod, fn)
        for persist in configs(fl, ctx.thorough):
            for dll, bhhh, po in ((True, True, False), (True, False, False), (False, False, False), (False, False, True), (True, False, True)):
                dom = ResDomain()
                ex = Exec(prog, dom, dict(fl))
                ret, _ = ex.run(f, {'persist': kconst(persist), 'return_dll': kconst(dll), 'return_bhhh': kconst(bhhh), 'probability_only': kconst(po)}, St())
                if not ret or dom.team is None:
                    raise AnalysisBroken('no normal return, or no thread team, in %s' % f.qual)
                lab = 'persist=%s, gradient=%s, BHHH=%s, probability only=%s' % (rev.get(persist, hex(persist)), dll, bhhh, po)
                names = set()
                for st in ret:
                    for k, v in st.heap.items():
                        if not k.startswith('rec@'):
                            continue
                        attr = k.rsplit('.', 1)[1]
                        names.add(attr)
                        roots = set(ROOT.findall(v.text)) | ({v.view[0]} if v.view is not None and v.view[0].startswith('@') else set())
                        comp = st.may.get('computed', ())
                        if 'undef:' in v.text or 'stale:' in v.text:
                            ctx.ob('computed', '%s:%s' % (f.qual, attr), False, f.loc(), '%s returns "%s" from a variable that has no value yet (%s)' % (fn, attr, lab))
                        for r in roots:
                            loc = next((l for a, _, l, _c in dom.fields if a == attr), f.loc())
                            ctx.ob('computed', '%s:%s' % (f.qual, attr), r in comp, loc, '%s returns "%s" from an array that nothing was computed into (%s)' % (fn, attr, lab))
                            sh = dom.allocs.get(r, (None,))[0]
                            if sh and not combine(v.text):
                                ctx.ob('per-case', '%s:%s' % (f.qual, attr), sh[0] != dom.team, loc, '%s returns "%s" from an array that has one row per thread, not per case (%s)' % (fn, attr, lab))
                provided.setdefault((persist, dll, bhhh, po), {}).setdefault(fn, set()).update(names)
                for q in ex.funcs:
                    ctx.seen(q)
    return fl


class OutDomain(KDomain):
    cap = 40

    def __init__(self, outs):
        self.outs = outs

    def on_store(self, ex, root, idxs, val, aug, node, st):
        if root in self.outs:
            if aug is None and zero(val) and not all(i == ':' for i in idxs):
                return
            st.add_may('out', root)


def runner_flags(prog, run, k):
    """position in the kernel's flag argument -> runner parameter"""
    for n in ast.walk(run.node):
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load):
            names = [next((x.id for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in run.all_params), None) for e in n.elts]
            if sum(x is not None for x in names) >= 3 and len(set(names)) == len(names):
                return names
    raise AnalysisBroken('the flags passed to the array kernel are not found')


def tuple_fields(prog, run, k):
    """the record the runner wraps the kernel outputs in"""
    for n in ast.walk(run.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id != k.name and any(isinstance(a, ast.Starred) for a in n.args):
            d = next((s.value for s in run.module.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n.func.id), None)
            if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'namedtuple' and len(d.args) == 2:
                fs = d.args[1]
                if isinstance(fs, (ast.List, ast.Tuple)):
                    return [e.value for e in fs.elts]
                if isinstance(fs, ast.Constant):
                    return fs.value.replace(',', ' ').split()
            c = run.module.classes.get(n.func.id)
            if c is not None:
                return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
    return None


def field_reads(prog, f, var, fields, depth=0, seen=None):
    """(field, node, guards, function) of reads of a record's fields, through helpers that take the record"""
    out = []
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == var and n.attr in fields and isinstance(n.ctx, ast.Load):
            g, x = set(), n
            while x in par:
                p = par[x]
                if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test:
                    g |= {y.id for y in ast.walk(p.test) if isinstance(y, ast.Name)}
                x = p
            out.append((n.attr, n, g, f))
        elif isinstance(n, ast.Call) and depth < 2:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == var:
                    h = None
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls is not None:
                        h = f.cls.methods.get(n.func.attr)
                        i += 1
                    elif isinstance(n.func, ast.Name):
                        h = f.module.funcs.get(n.func.id)
                    if h is not None and h is not f and i < len(h.params):
                        out += field_reads(prog, h, h.params[i], fields, depth + 1)
    return out


def vectorized(ctx, prog):
    ks = {k.name: k for k in kernels(prog)}
    mod = prog.need_module('larch.numba.model')
    run = k = None
    for f in mod.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ks and any(isinstance(a, ast.Starred) for a in n.args) and f.cls is not None:
                if (run is None or len(ks[n.func.id].ins) > len(k.ins)) and tuple_fields(prog, f, ks[n.func.id]):
                    run, k = f, ks[n.func.id]
    if run is None:
        raise AnalysisBroken('no function runs the array kernel')
    names = runner_flags(prog, run, k)
    fields = tuple_fields(prog, run, k)
    if len(fields) != len(k.out_params):
        raise AnalysisBroken('the record of kernel outputs has %d fields for %d outputs' % (len(fields), len(k.out_params)))
    tofield = dict(zip(fields, k.out_params))
    flagparam = k.func.params[len(k.ins) - 1]
    memo = {}

    def stored(vals):
        if vals not in memo:
            dom = OutDomain(set(k.out_params))
            ex = Exec(prog, dom)
            tup = K('flags', obj=('tuple', [kconst(v) for v in vals]))
            ret, _ = ex.run(k.func, {flagparam: tup}, St())
            if not ret:
                raise AnalysisBroken('no normal return in %s' % k.name)
            res = None
            for st in ret:
                s = set(st.may.get('out', ()))
                res = s if res is None else res & s
            memo[vals] = res
            for q in ex.funcs:
                ctx.seen(q)
        return memo[vals]

    n = 0
    for f in mod.all_funcs():
        for a in ast.walk(f.node):
            if not isinstance(a, ast.Assign):
                continue
            t = a.targets[0]
            call = a.value.value if isinstance(a.value, ast.Subscript) else a.value
            if not (isinstance(call, ast.Call) and getattr(call.func, 'attr', '') == run.name):
                continue
            var = t.elts[0].id if isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) else t.id if isinstance(t, ast.Name) else None
            if var is None:
                continue
            n += 1
            ctx.seen(f)
            opts = []
            for p in names:
                if p is None:
                    opts.append([(None, 0), (None, 1)])
                    continue
                v = next((kw.value for kw in call.keywords if kw.arg == p), None)
                if v is None:
                    i = run.params.index(p) - 1 if p in run.params else None
                    if i is not None and i < len(call.args):
                        v = call.args[i]
                if v is None:
                    v = run.default_of(p)
                if isinstance(v, ast.Constant):
                    opts.append([(None, int(v.value))])
                else:
                    g = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} if v is not None else set()
                    opts.append([(g, 0), (g, 1)])
            combos = [()]
            for o in opts:
                combos = [c + (x,) for c in combos for x in o]
            reads = field_reads(prog, f, var, set(fields))
            for c in combos:
                have = stored(tuple(x[1] for x in c))
                off = set().union(*[x[0] for x in c if x[0] and not x[1]]) if any(x[0] for x in c) else set()
                for fd, node, guards, g in reads:
                    if guards & off:
                        continue
                    ctx.ob('requested', '%s:%s' % (f.qual, fd), tofield[fd] in have, g.loc(node),
                           '%s reads "%s", which the kernel does not store when it is run with %s' % (f.name, fd, ', '.join('%s=%s' % (p, x[1]) for p, x in zip(names, c))))
    if n < 5:
        raise AnalysisBroken('only %d callers of %s' % (n, run.name))
    return run


# ---------------------------------------------------------------- result records
def rec_writes(f, var):
    """keys stored in a local record, or None when they cannot be listed"""
    keys, more = set(), []
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in ts:
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == var:
                    keys.add(x.attr)
                elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == var:
                    if isinstance(x.slice, ast.Constant):
                        keys.add(x.slice.value)
                    else:
                        return None, more
                elif isinstance(x, ast.Name) and x.id == var:
                    more.append(n.value if isinstance(n, ast.Assign) else None)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == var and n.func.attr in ('update', 'setdefault', '__setitem__'):
            for kw in n.keywords:
                if kw.arg:
                    keys.add(kw.arg)
            if n.args or any(kw.arg is None for kw in n.keywords):
                return None, more
        if isinstance(n, (ast.For, ast.withitem)) and any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(n.target if isinstance(n, ast.For) else n.optional_vars or ast.Pass())):
            return None, more
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == var for a in n.args) and not (getattr(n.func, 'id', '') in ('isinstance', 'len', 'print', 'list', 'repr', 'str')):
            return None, more       # filled by someone else, perhaps
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr':
            return None, more
    return keys, more


def is_rec(n):
    return isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('dictx', 'Dict')


def rec_keys(n):
    if n.args or any(k.arg is None for k in n.keywords):
        return None
    return {k.arg for k in n.keywords}


class Records:
    def __init__(self, prog, funcs, extra):
        self.prog, self.funcs = prog, funcs
        self.by = {}
        for f in funcs:
            self.by.setdefault(f.name, []).append(f)
        self.memo = {}
        self.extra = extra

    def method(self, name):
        """keys of the records that functions of this name return; None unknown, empty set: not a record"""
        if name in self.extra:
            return self.extra[name]
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = set()
        for _ in range(4):
            out = set()
            for f in self.by.get(name, ()):
                r = self.returns(f)
                if r is None:
                    out = None
                    break
                out |= r
            if out == self.memo[name]:
                break
            self.memo[name] = out
            if out is None:
                break
        return self.memo[name]

    def returns(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                k = self.expr(f, n.value)
                if k is None:
                    return None
                out |= k
        return out

    def expr(self, f, e):
        if is_rec(e):
            return rec_keys(e)
        if isinstance(e, ast.Name):
            return self.var(f, e.id)
        if isinstance(e, ast.Call):
            nm = getattr(e.func, 'attr', getattr(e.func, 'id', ''))
            if nm in self.by or nm in self.extra:
                return self.method(nm)
            return None
        if isinstance(e, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Tuple, ast.Attribute, ast.Subscript)):
            return set()
        return None

    def var(self, f, v):
        if v in f.all_params or v in (f.vararg, f.kwarg):
            return None
        keys, defs = rec_writes(f, v)
        if keys is None or not defs:
            return None
        for d in defs:
            if d is None:
                return None
            k = self.expr(f, d)
            if k is None:
                return None
            keys = keys | k
        return keys


def records(ctx, prog, funcs, provided):
    allk = set()
    for d in provided.values():
        for s in d.values():
            allk |= s
    extra = {}
    for mod, fn in ENGINES:
        extra[fn] = {k for d in provided.values() for k in d.get(fn, ())}
    R = Records(prog, funcs, extra)
    promises(ctx, R, funcs)
    n = 0
    for f in funcs:
        cand = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                v = x.value
                if is_rec(v) or isinstance(v, ast.Call) and EVALCALL.match(getattr(v.func, 'attr', getattr(v.func, 'id', ''))):
                    cand[x.targets[0].id] = x
        for v in cand:
            keys = R.var(f, v)
            if not keys and not (keys is not None and all(is_rec(d) for d in rec_writes(f, v)[1])):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == v and isinstance(x.ctx, ast.Load) and not hasattr(dict, x.attr) and not x.attr.startswith('__'):
                    n += 1
                    ctx.seen(f)
                    ctx.ob('filled', '%s:%s.%s' % (f.qual, v, x.attr), x.attr in keys, f.loc(x), '%s reads "%s" from a record that is never given it' % (f.name, x.attr))
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Call) and isinstance(x.ctx, ast.Load):
                nm = getattr(x.value.func, 'attr', getattr(x.value.func, 'id', ''))
                if nm in R.by and EVALCALL.match(nm):
                    keys = R.method(nm)
                    if keys and not hasattr(dict, x.attr):
                        n += 1
                        ctx.seen(f)
                        ctx.ob('filled', '%s:%s().%s' % (f.qual, nm, x.attr), x.attr in keys, f.loc(x), '%s reads "%s" from the result of %s, which never has it' % (f.name, x.attr, nm))
    return R


PROMISED = {'loglike2': {'ll', 'dll'}, 'loglike2_bhhh': {'ll', 'dll', 'bhhh'}}


def promises(ctx, R, funcs):
    for f in funcs:
        if f.cls is not None and f.name in PROMISED:
            keys = R.returns(f)
            if keys:
                for k in sorted(PROMISED[f.name]):
                    ctx.ob('delivers', '%s:%s' % (f.qual, k), k in keys, f.loc(), '%s never puts "%s" into the record it returns' % (f.name, k))


SWITCH = {'loglike': (False, False), 'loglike2': (True, False), 'loglike2_bhhh': (True, True)}


def stored_requests(ctx, prog, funcs, fl, provided, R):
    """fields read from an evaluation made with storage flags: an engine must provide them under these flags"""
    for f in funcs:
        defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                defs[n.targets[0].id] = n.value
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
                continue
            c = x.value if isinstance(x.value, ast.Call) else defs.get(x.value.id) if isinstance(x.value, ast.Name) else None
            if c is None or not isinstance(c.func, ast.Attribute) or c.func.attr not in SWITCH:
                continue
            p = next((k.value for k in c.keywords if k.arg == 'persist'), None)
            if p is None and any(k.arg is None for k in c.keywords):
                continue
            val = flagval(p, fl) if p is not None else 0
            po = next((k.value for k in c.keywords if k.arg == 'probability_only'), None)
            if val is None or not (po is None or isinstance(po, ast.Constant)):
                continue
            key = (val,) + SWITCH[c.func.attr] + (bool(po.value) if po is not None else False,)
            if key not in provided:
                continue
            ok = any(x.attr in s for s in provided[key].values()) or p is None and any(x.attr in (R.returns(g) or ()) for g in R.by.get(c.func.attr, ()) if g.module.name == 'larch.numba.model')
            ctx.seen(f)
            ctx.ob('stored', '%s:%s' % (f.qual, x.attr), ok, f.loc(x), '%s reads "%s", which no engine provides for the storage flags it passes' % (f.name, x.attr))


def flagval(n, fl):
    if isinstance(n, ast.Constant) and isinstance(n.value, int):
        return int(n.value)
    if isinstance(n, ast.Name):
        return fl.get(n.id)
    if isinstance(n, ast.Attribute):
        return fl.get(n.attr)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        a, b = flagval(n.left, fl), flagval(n.right, fl)
        return a | b if a is not None and b is not None else None
    return None


# ---------------------------------------------------------------- failures
def completes(stmts):
    """may the statements run to their end (or leave other than by raising)?"""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, ast.If):
            if s.orelse and not completes(s.body) and not completes(s.orelse):
                return False
        elif isinstance(s, ast.With):
            if not completes(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not completes(s.finalbody):
                return False
            if not completes(s.body + s.orelse) and all(not completes(h.body) for h in s.handlers):
                return False
    return True


def callees(stmts):
    return {getattr(x.func, 'attr', getattr(x.func, 'id', '')) for s in stmts for x in ast.walk(s) if isinstance(x, ast.Call)}


def failures(ctx, prog, funcs):
    for f in funcs:
        if not EVALCALL.match(f.name) and '_loglike_runner' != f.name and not f.name.endswith('_all_rows'):
            continue                      # functions that report on a model say in their own way what is missing
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Try):
                continue
            ev = {c for c in callees(n.body) if EVALCALL.match(c) or c in ('prange', '_loglike_runner')}
            if not ev and not any(isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')) == 'prange' for s in n.body for x in ast.walk(s)):
                continue
            for h in n.handlers:
                again = callees(h.body) & ev
                ok = not completes(h.body) or bool(again)
                ctx.seen(f)
                ctx.ob('reported', '%s:%s' % (f.qual, ast.unparse(h.type) if h.type else 'any'), ok, f.loc(h), '%s goes on after %s has failed' % (f.name, '/'.join(sorted(ev))))


def check(ctx):
    prog = ctx.prog
    ctx.rule('computed', 'fields of a native result come from arrays stored while the cases were worked through, under the same options', 150)
    ctx.rule('per-case', 'arrays handed out case by case have a row per case', 60)
    ctx.rule('requested', 'fields read from the array kernel are stored by it under the flags passed', 10)
    ctx.rule('filled', 'fields read from a result record were put there', 8)
    ctx.rule('delivers', 'log likelihood, gradient and BHHH are in the records of the evaluations that promise them', 6)
    ctx.rule('stored', 'fields read from an evaluation with storage flags are provided for these flags', 3)
    ctx.rule('reported', 'a failing evaluation is reported or repeated, not passed over', 4)
    provided = {}
    fl = native(ctx, prog, provided)
    vectorized(ctx, prog)
    funcs = [f for m in EVALMODS for f in prog.need_module(m).all_funcs()]
    R = records(ctx, prog, funcs, provided)
    stored_requests(ctx, prog, funcs, fl, provided, R)
    failures(ctx, prog, funcs)
