"""P28: options of the data interfaces are never silently ignored."""
import ast
import re

from ..program import AnalysisBroken

TECHNIQUE = ('interprocedural dataflow from parameters to effects: the value a caller passes must reach a call, a condition, a stored attribute or element, or a result; calls of functions that themselves ignore the parameter do not count; '
             'a must-analysis over the statement structure compares call sites of the same function that forward an option with those that do not')
NOTE = ('an option counts as used when its value can influence something on some path; that it has the documented influence, and that it does so on every path, is decided only for options that are forwarded to the same function elsewhere; '
        'parameters that the documentation declares to have no effect, parameters fixed by a Python protocol, and functions that only raise are exempt')
EXPLAIN = ('Obligations: one per named parameter and per argument collector of every function of the data layers (data sets, data services, model data, open-matrix files): its value reaches an effect; '
           'one per call site that leaves out an option which another call of the same function in the same body forwards: the option is used on that path in some other way, or is known to be absent there.')
ASSUME = ['library functions use the arguments they accept']

SCOPE = ('larch.dataset', 'larch.data_services', 'larch.omx', 'larch.dataframes', 'larch.numba.data_arrays')
PROTOCOL = {'__get__', '__set__', '__delete__', '__exit__', '__deepcopy__', '__copy__', '__format__', '__reduce_ex__', '__set_name__', '__contains__', '__cinit__', '__array__', '__getattr__', '__missing__'}
SKLEARN = {'fit', 'transform', 'fit_transform', 'partial_fit', 'score'}
NOEFFECT = re.compile(r'no effect|ignored|not used|unused|deprecated|not (currently )?(implemented|supported)', re.I)


def in_scope(m):
    return any(m.name == s or m.name.startswith(s + '.') for s in SCOPE)


def params_of(f):
    return [p for p in list(f.all_params) + [x for x in (f.vararg, f.kwarg) if x] if p]


def documented_noop(f, p):
    d = ast.get_docstring(f.node) or ''
    m = re.search(r'^(\s*)\*{0,2}%s\b[^\n]*:[^\n]*\n((?:\1\s+[^\n]*\n?|\s*\n)*)' % re.escape(p), d, re.M)
    return bool(m and NOEFFECT.search(m.group(0)))


def own(node):
    """the nodes of a function or statement, nested functions included"""
    return ast.walk(node)


class Flow:
    """which parameters reach an effect"""

    def __init__(self, f, ignored, resolve):
        self.f, self.ignored, self.resolve = f, ignored, resolve
        self.used = set()

    def run(self):
        st = {p: frozenset([p]) for p in params_of(self.f)}
        self.block(self.f.node.body, st)
        return self.used

    # states map local names to the parameters their value depends on
    def taint(self, n, st):
        """evaluate an expression: its own effects are recorded, the dependence of its value is returned"""
        if n is None or isinstance(n, ast.Constant):
            return frozenset()
        if isinstance(n, ast.Name):
            return st.get(n.id, frozenset())
        if isinstance(n, ast.Call):
            out = self.taint(n.func, st)
            self.used |= out                            # what is called acts, and so does its receiver
            tgt = self.resolve(n)
            for i, a in enumerate(n.args):
                v = a.value if isinstance(a, ast.Starred) else a
                t = self.taint(v, st)
                if tgt is not None and not isinstance(a, ast.Starred) and not any(isinstance(x, ast.Starred) for x in n.args[:i]):
                    ps = tgt[0].params[tgt[1]:]
                    if i < len(ps) and (tgt[0], ps[i]) in self.ignored:
                        continue
                    if i >= len(ps) and tgt[0].vararg and (tgt[0], tgt[0].vararg) in self.ignored:
                        continue
                self.used |= t
                out |= t
            for k in n.keywords:
                t = self.taint(k.value, st)
                if tgt is not None:
                    if k.arg is not None and k.arg in tgt[0].all_params:
                        if (tgt[0], k.arg) in self.ignored:
                            continue
                    elif tgt[0].kwarg and (tgt[0], tgt[0].kwarg) in self.ignored:
                        continue
                self.used |= t
                out |= t
            return out
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            self.nested(n, st)
            return frozenset()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            t = self.taint(n.value, st)
            self.used |= t
            return t
        if isinstance(n, ast.IfExp):
            t = self.cond(n.test, st)
            return t | self.taint(n.body, st) | self.taint(n.orelse, st)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = dict(st)
            t = frozenset()
            for g in n.generators:
                ti = self.taint(g.iter, s2)
                t |= ti
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s2[x.id] = ti
                for c in g.ifs:
                    t |= self.cond(c, s2)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                t |= self.taint(e, s2)
            return t
        if isinstance(n, ast.NamedExpr):
            t = self.taint(n.value, st)
            st[n.target.id] = t
            return t
        t = frozenset()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.slice if hasattr(ast, 'slice') else ast.expr)):
                t |= self.taint(c, st)
            elif isinstance(c, ast.keyword):
                t |= self.taint(c.value, st)
        return t

    def cond(self, n, st):
        return self.taint(n, st)

    def nested(self, n, st):
        """a function defined inside: what it reads from outside counts as used"""
        a = n.args
        inner = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.used |= self.taint(d, st)
        for x in ast.walk(n.body if isinstance(n, ast.Lambda) else ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                self.used |= st.get(x.id, frozenset())

    def store(self, t, v, st, weak=False):
        if isinstance(t, ast.Name):
            st[t.id] = v | (st.get(t.id, frozenset()) if weak else frozenset())
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, v, st, weak)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, weak)
        else:
            base = t
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                base = base.value
            idx = self.taint(t.slice, st) if isinstance(t, ast.Subscript) else frozenset()
            if isinstance(base, ast.Name) and base.id in st and base.id not in params_of(self.f) and st.get(base.id) is not None and self.local(base.id):
                st[base.id] = st[base.id] | v | idx     # a local container
            else:
                self.used |= v | idx
                self.used |= self.taint(t.value, st) if not isinstance(t, ast.Starred) else frozenset()

    def local(self, name):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Dict, ast.List, ast.Set)) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return True
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') in ('dict', 'list', 'set') and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return True
        return False

    def join(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        out = {}
        for s in states:
            for k, v in s.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def controls(self, t, stmts):
        """a test matters when something depends on its outcome"""
        def idle(s):
            return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
        if any(not idle(s) for s in stmts):
            self.pend(t, stmts)

    def pend(self, t, stmts):
        # a branch that only gives the tested option another value has no effect of its own
        names = set()
        for s in stmts:
            if isinstance(s, ast.Assign) and all(isinstance(x, ast.Name) for x in s.targets) and not any(isinstance(x, ast.Call) for x in ast.walk(s.value)):
                names |= {x.id for x in s.targets}
            elif isinstance(s, ast.Pass):
                pass
            else:
                self.used |= t
                return
        self.assigned = getattr(self, 'assigned', set())
        return names

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            t = self.taint(s.value, st)
            if isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.used |= t
            return st
        if isinstance(s, ast.Assign):
            v = self.taint(s.value, st)
            for t in s.targets:
                self.store(t, v, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.taint(s.value, st), st)
            return st
        if isinstance(s, ast.AugAssign):
            self.store(s.target, self.taint(s.value, st), st, weak=True)
            return st
        if isinstance(s, ast.Return):
            self.used |= self.taint(s.value, st)
            return None
        if isinstance(s, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(s):
                self.used |= self.taint(c, st)
            return None if isinstance(s, ast.Raise) else st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.pop(t.id, None)
                else:
                    self.used |= self.taint(t, st)
            return st
        if isinstance(s, ast.If):
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, st)
            t = self.cond(s.test, st)
            names = self.pend(t, s.body + s.orelse)
            a = self.block(s.body, dict(st))
            b = self.block(s.orelse, dict(st))
            out = self.join([a, b])
            if names and out is not None:
                for n in names:
                    out[n] = out.get(n, frozenset()) | t     # the value depends on the test
            return out
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                t = self.taint(s.iter, st)
                self.used |= t if s.body else frozenset()
                self.store(s.target, t, st) if not isinstance(s.target, (ast.Attribute, ast.Subscript)) else None
            else:
                self.used |= self.cond(s.test, st)
            cur = st
            for _ in range(3):
                r = self.block(s.body, dict(cur))
                cur = self.join([cur, r])
            o = self.block(s.orelse, dict(cur)) if s.orelse else cur
            return self.join([cur, o])
        if isinstance(s, ast.With):
            for i in s.items:
                t = self.taint(i.context_expr, st)
                self.used |= t
                if i.optional_vars is not None:
                    self.store(i.optional_vars, t, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(st))
            # an exception may come from anywhere in the body
            mid = self.join([st, a] + [self.block(s.body[:i], dict(st)) for i in range(1, len(s.body))])
            outs = [self.block(s.orelse, dict(a)) if a is not None and s.orelse else a]
            for h in s.handlers:
                outs.append(self.block(h.body, dict(mid)))
            out = self.join(outs)
            if s.finalbody:
                self.block(s.finalbody, dict(mid))
                out = self.block(s.finalbody, dict(out)) if out is not None else None
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                self.nested(s, st)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        self.used |= st.get(x.id, frozenset())
            return st
        if isinstance(s, (ast.Break, ast.Continue)):
            return st
        return st


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) or isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)) for s in body)


def callee_name(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


def check(ctx):
    prog = ctx.prog
    ctx.rule('option-used', 'the value of every parameter reaches an effect or the result', 900)
    ctx.rule('forwarded-everywhere', 'an option forwarded to a function at one call is not dropped at another call of it', 1)
    ctx.rule('handed-on', 'a row selection, mask or data type given to a function is handed to every loader it calls, or applied to what they return', 60)
    funcs = [f for m in prog.all_modules() if in_scope(m) for f in m.all_funcs()]
    allf = [f for m in prog.all_modules() for f in m.all_funcs() if '.examples' not in m.name]
    inscope = set(funcs)

    def resolver(f):
        def res(c):
            if isinstance(c.func, ast.Name):
                try:
                    r = prog.resolve(f.module, c.func.id)
                except Exception:
                    r = None
                if hasattr(r, 'all_params'):
                    return r, 0
                if r is not None and hasattr(r, 'methods'):
                    i = prog.lookup(r, '__init__')
                    if hasattr(i, 'all_params'):
                        return i, 1
                return None
            if isinstance(c.func, ast.Attribute) and f.cls is not None and isinstance(c.func.value, ast.Name) and f.params and c.func.value.id == f.params[0]:
                r = prog.lookup(f.cls, c.func.attr)
                if hasattr(r, 'all_params') and r.kind in ('func', 'method', None, 'classmethod'):
                    # an override may use what this one ignores
                    for k in prog.subclasses(f.cls):
                        if c.func.attr in k.methods and k.methods[c.func.attr] is not r:
                            return None
                    return r, 1
            return None
        return res
    ignored = set()
    for _ in range(4):
        new = set()
        for f in funcs:
            if stub(f):
                continue
            used = Flow(f, ignored, resolver(f)).run()
            for p in params_of(f):
                if p not in used:
                    new.add((f, p))
        if new == ignored:
            break
        ignored = new
    byname = {}
    for f in allf:
        byname.setdefault(f.name, []).append(f)
    nf = 0
    for f in funcs:
        handed_on(ctx, f, byname)
        if f.name in PROTOCOL or stub(f):
            continue
        nf += 1
        ctx.seen(f)
        for i, p in enumerate(params_of(f)):
            if i == 0 and f.cls is not None and f.kind != 'staticmethod' or p.startswith('_') or p in ('cls', 'self'):
                continue
            if f.name in SKLEARN and p == 'y':
                continue
            if f.name == '__init__' and f.cls is not None and '__new__' in f.cls.methods and (p in f.cls.methods['__new__'].all_params or f.cls.methods['__new__'].kwarg):
                continue
            ok = (f, p) not in ignored or documented_noop(f, p)
            ctx.ob('option-used', '%s:%s' % (f.qual, p), ok, f.loc(), '%s accepts "%s" and disregards it' % (f.qual, p))
        siblings(ctx, f)
    if nf < 300:
        raise AnalysisBroken('only %d functions of the data layers were found' % nf)
    ctx.info['functions'] = nf


HAND = ('selector', 'dtype', 'mask_pattern', 'mask_names', 'use_metashape')


def refuses(g, p):
    """the function raises when the option is given"""
    body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[0], ast.If) and none_test(body[0].test, p) == -1 and ends(body[0].body) and isinstance(body[0].body[-1], ast.Raise)


def foreign(f, c):
    """a function of an imported library"""
    r = c.func
    while isinstance(r, ast.Attribute):
        r = r.value
    if not isinstance(r, ast.Name):
        return False
    for t in (f.node, f.module.tree):
        for n in (ast.walk(t) if t is f.node else t.body):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == r.id and not a.name.startswith('larch'):
                        return True
    return r.id in ('np', 'numpy', 'pandas', 'pd')


def handed_on(ctx, f, byname):
    ps = [p for p in HAND if p in f.all_params]
    if not ps:
        return
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    num = {}
    for c in [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]:
        g = callee_name(c)
        fs = byname.get(g)
        if not fs or foreign(f, c):
            continue
        for p in ps:
            if not all(p in h.all_params and h.default_of(p) is not None for h in fs) or all(refuses(h, p) for h in fs):
                continue
            num[g, p] = num.get((g, p), 0) + 1
            al = aliases(f, p)
            ok = (any(k.arg in (p, None) and any(mentions(k.value, a) for a in al) or k.arg is None for k in c.keywords)
                  or any(isinstance(a, ast.Starred) or any(mentions(a, q) for q in al) for a in c.args)
                  or guarded(f, par, c, p) or applied(f, par, c, al))
            ctx.ob('handed-on', '%s:%s:%s:%d' % (f.qual, g, p, num[g, p]), ok, f.loc(c),
                   '%s takes "%s" but neither hands it to %s, which takes it too, nor applies it to the result' % (f.name, p, g))


def mentions(n, p):
    return any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n))


def aliases(f, p):
    out = {p}
    for _ in range(3):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in out:
                if derived(n.value, out):
                    out.add(n.targets[0].id)
    return out


def derived(v, out):
    """the value is the option, a conversion of it, or something selected by it"""
    if isinstance(v, ast.Name):
        return v.id in out
    if isinstance(v, ast.Call):
        return callee_name(v) in ('dtype', 'asarray', 'slice', 'array', 'dict', 'get_data_items', 'get_data_item', 'len', 'list', 'tuple') and any(derived(x, out) for x in list(v.args) + [k.value for k in v.keywords])
    return any(derived(x, out) for x in ast.iter_child_nodes(v) if isinstance(x, ast.expr))


def guarded(f, par, c, p):
    """a test of the option decides whether the call is reached"""
    n = c
    while n in par and n is not f.node:
        q = par[n]
        if isinstance(q, (ast.If, ast.IfExp)) and n is not q.test:
            in_body = n is q.body or isinstance(q.body, list) and any(n is x for x in q.body)
            if none_test(q.test, p) == (1 if in_body else -1):
                return True                             # the option was not given
        if isinstance(n, ast.stmt):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(q, fld, None)
                if isinstance(b, list) and any(n is x for x in b):
                    i = [j for j, x in enumerate(b) if x is n][0]
                    for s in b[:i]:
                        if isinstance(s, ast.If) and reads(s.test, p) and (ends(s.body) or ends(s.orelse) or any(isinstance(x, ast.Call) and callee_name(x) == 'warn' for x in ast.walk(s))):
                            return True
                    for s in b[i + 1:]:
                        if isinstance(s, ast.If) and reads(s.test, p) and s.body and s.orelse:
                            return True                 # what is done with the result depends on it
        n = q
    return False


def applied(f, par, c, al):
    """the result of the call is combined with the option"""
    names = set()
    n = c
    while n in par and not isinstance(n, ast.stmt):
        q = par[n]
        if isinstance(q, ast.Subscript) and n is q.value and any(mentions(q.slice, a) for a in al):
            return True
        if isinstance(q, ast.Call) and n is not q.func and any(any(mentions(x, a) for a in al) for x in list(q.args) + [k.value for k in q.keywords] if x is not n):
            return True
        if isinstance(q, ast.Call) and q.func is n and any(any(mentions(x, a) for a in al) for x in list(q.args) + [k.value for k in q.keywords]):
            return True
        n = q
    if isinstance(n, ast.Assign):
        names = {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Subscript) and any(mentions(x.value, m) for m in names) and any(mentions(x.slice, a) for a in al):
            return True
        if isinstance(x, ast.Call) and any(mentions(x, m) for m in names) and any(mentions(y, a) for y in list(x.args) + [k.value for k in x.keywords] for a in al):
            return True
    return False


def siblings(ctx, f):
    ps = {p for p in f.all_params if p not in ('self', 'cls')}
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and callee_name(n)]
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    fw = {}
    for c in calls:
        for k in c.keywords:
            if k.arg and isinstance(k.value, ast.Name) and k.value.id in ps:
                fw.setdefault((callee_name(c), len(ast.unparse(c.func).split('.')), k.arg, k.value.id), []).append(c)
    for (g, _, kw, p), cs in sorted(fw.items(), key=lambda t: t[0]):
        for n, c in enumerate(x for x in calls if callee_name(x) == g and x not in cs):
            if any(k.arg in (kw, None) for k in c.keywords):
                ok = True
            elif any(isinstance(x, ast.Name) and x.id == p for a in c.args for x in ast.walk(a)):
                ok = True
            else:
                FORWARD.clear()
                FORWARD.update(id(x) for x in cs if not flows_into(x, c, par))
                ok = read_on_path(f, par, c, p)
                FORWARD.clear()
            ctx.ob('forwarded-everywhere', '%s:%s:%s:%d' % (f.qual, g, kw, n + 1), ok, f.loc(c), '%s passes "%s" on to %s at line %d but not here, where it is not used otherwise' % (f.name, p, g, cs[0].lineno))


FORWARD = set()


def reads(n, p):
    """p is read here, other than to be handed to the function in question for something else"""
    if id(n) in FORWARD:
        return any(reads(x, p) for x in [n.func] + list(n.args))
    if isinstance(n, ast.Name):
        return n.id == p and isinstance(n.ctx, ast.Load)
    return any(reads(x, p) for x in ast.iter_child_nodes(n))


def flows_into(x, c, par):
    """the result of call x is an input of call c"""
    if x is c or any(y is x for y in ast.walk(c)):
        return True
    s = stmt_of(x, par)
    names = {y.id for t in getattr(s, 'targets', ()) for y in ast.walk(t) if isinstance(y, ast.Name)}
    return any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(c))


def none_test(t, p):
    """+1: the test says that p is None, -1: that it is not, 0: something else"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        if isinstance(t.operand, ast.Name) and t.operand.id == p:
            return 1
        return -none_test(t.operand, p)
    if isinstance(t, ast.Name) and t.id == p:
        return -1
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == p and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return 1 if isinstance(t.ops[0], (ast.Is, ast.Eq)) else -1
    return 0


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def must(stmts, p):
    """p is read on every way through these statements that goes on"""
    for s in stmts:
        if isinstance(s, ast.If):
            k = none_test(s.test, p)
            if k == 0 and reads(s.test, p):
                return True
            if k and (ends(s.body) or ends(s.orelse)):
                return True                             # decided about here
            a, b = must(s.body, p) or ends(s.body), must(s.orelse, p) or ends(s.orelse)
            if a and b:
                return True
        elif isinstance(s, (ast.For, ast.While)):
            if reads(s.iter if isinstance(s, ast.For) else s.test, p):
                return True
        elif isinstance(s, ast.Try):
            if must(s.body, p) or must(s.finalbody, p):
                return True
        elif isinstance(s, ast.With):
            if any(reads(i.context_expr, p) for i in s.items) or must(s.body, p):
                return True
        elif reads(s, p):
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id == p for t in s.targets):
                continue                                # a conversion of the option itself
            return True
    return False


def read_on_path(f, par, c, p):
    n = c
    while n in par and n is not f.node:
        q = par[n]
        if isinstance(q, (ast.If, ast.IfExp)) and n is not q.test:
            k = none_test(q.test, p)
            in_body = n is q.body or isinstance(q.body, list) and any(n is x for x in q.body)
            if k == (1 if in_body else -1):
                return True
            if k == 0 and reads(q.test, p):
                return True
        if isinstance(n, ast.stmt):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(q, fld, None)
                if isinstance(b, list) and any(n is x for x in b):
                    i = [j for j, x in enumerate(b) if x is n][0]
                    if must(b[:i], p) or must(b[i + 1:], p):
                        return True
        n = q
    return any(isinstance(x, ast.stmt) and reads(x, p) for x in [stmt_of(c, par)] if not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try)))


def stmt_of(n, par):
    while not isinstance(n, ast.stmt):
        n = par[n]
    return n
