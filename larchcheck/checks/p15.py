"""P15: copying or pickling a model keeps its whole specification."""
import ast

from ..program import AnalysisBroken

TECHNIQUE = ('two-sided state analysis: the keys each class writes into its saved state, with the attribute every one is taken from, are computed from the source of __getstate__ and compared with the keys and target attributes of '
             '__setstate__; an attribute inventory (setters and descriptors) decides completeness, and an effect analysis decides that saving changes nothing')
NOTE = ('decides which attributes travel and where they end up, not whether each value can itself be pickled; latent class models and model groups define no saved state of their own and are out of reach; '
        'data, thread counts and other working state are meant to stay behind')
EXPLAIN = ('Obligations: every saved key is restored and every restored key saved, into the attribute it came from, by every class that defines both methods; every attribute behind a public setter, every specification '
           'descriptor and every public attribute set at construction is part of the state; __getstate__ has no effect on the object; what the nesting tree leaves out is computed again on demand; '
           'component copies pass each part under its own name.')
ASSUME = ['values are pickled faithfully by cloudpickle']

CLASSES = [('larch.model.parameter_frame', 'ParameterFrame'), ('larch.model.controller', 'Model5c'), ('larch.numba.model', 'NumbaModel')]
TRANSIENT = {'_dataframes', '_dataservice', 'dataservice', 'dataframes', '_n_threads', 'n_threads', '_prior_frame_values', '_tree_struct', '_mangled', '_dashboard', '_is_clone', '_does_not_require_choice',
             '_model_does_not_require_choice', 'dataset', 'datatree', '_dataset', '_datatree', '_data_arrays', '_fixed_arrays', 'work_arrays', '_rebuild_data_arrays', '_fixed_arrays_key'}
COPIERS = {'copy', 'deepcopy', 'list', 'dict', 'tuple', 'set', 'OrderedDict', 'getattr'}


class Val:
    """kind: const(v) | attr(name) | item(path,key) | state(path) | dict | tuple | other"""
    def __init__(self, kind, v=None, path=(), origins=frozenset(), pure=True, why=None):
        self.kind, self.v, self.path, self.origins, self.pure, self.why = kind, v, path, frozenset(origins), pure, why


class Ev:
    """symbolic execution of the straight-line code that builds or reads a saved state"""
    def __init__(self, prog, f, selfname='self'):
        self.prog, self.f, self.selfname = prog, f, selfname
        self.env = {}
        self.stores = []         # (attr, Val, guards, node)
        self.events = []         # mutations of self-derived things: (attr, node)
        self.returned = []
        self.guards = []
        self.depth = 0

    # ---- expressions
    def const(self, n, f=None):
        f = f or self.f
        if isinstance(n, ast.Constant):
            return n
        if isinstance(n, ast.Name):
            r = self.prog.resolve(f.module, n.id)
            if isinstance(r, tuple) and r[0] == 'const':
                return r[1]
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.cls is not None and n.value.id in ('self', 'cls', f.cls.name):
            for c in self.prog.mro(f.cls):
                if n.attr in c.attrs:
                    return c.attrs[n.attr]
        return None

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return Val('const', n.value)
        if isinstance(n, ast.JoinedStr):
            out = ''
            for p in n.values:
                v = self.ev(p.value) if isinstance(p, ast.FormattedValue) else self.ev(p)
                if v.kind != 'const':
                    return Val('other')
                out += str(v.v)
            return Val('const', out)
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            if n.id == self.selfname:
                return Val('self')
            c = self.const(n)
            if isinstance(c, ast.Constant):
                return Val('const', c.value)
            return Val('other')
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value)
            if b.kind == 'self':
                c = self.const(n)
                if c is not None and not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr for f in self.f.cls.functions() for x in ast.walk(f.node)) \
                        and isinstance(c, (ast.Constant, ast.Tuple, ast.List)):
                    return self.ev(c)
                return Val('attr', n.attr, origins={n.attr})
            return Val('other', origins=b.origins, pure=False, why='only its .%s is kept' % n.attr)
        if isinstance(n, ast.BinOp):
            l, r = self.ev(n.left), self.ev(n.right)
            if l.kind == r.kind == 'const' and isinstance(n.op, ast.Add):
                try:
                    return Val('const', l.v + r.v)
                except TypeError:
                    pass
            return Val('other', origins=l.origins | r.origins, pure=False, why='it is changed')
        if isinstance(n, (ast.Tuple, ast.List)):
            vs = [self.ev(e) for e in n.elts]
            if all(v.kind == 'const' for v in vs):
                return Val('const', tuple(v.v for v in vs))
            return Val('tuple', vs, origins=frozenset().union(*[v.origins for v in vs]) if vs else ())
        if isinstance(n, ast.Dict):
            d = {}
            for k, x in zip(n.keys, n.values):
                if k is None:
                    v = self.ev(x)
                    if v.kind != 'dict':
                        raise AnalysisBroken('%s: a saved state that cannot be read off the source' % self.f.qual)
                    d.update(v.v)
                    continue
                kv = self.ev(k)
                if kv.kind != 'const':
                    raise AnalysisBroken('%s: a saved key that is not a constant' % self.f.qual)
                d[kv.v] = (self.ev(x), list(self.guards), k)
            return Val('dict', d)
        if isinstance(n, ast.DictComp):
            g = n.generators[0]
            it = self.ev(g.iter)
            if it.kind == 'const' and isinstance(it.v, tuple) and len(n.generators) == 1 and not g.ifs and isinstance(g.target, (ast.Name, ast.Tuple)):
                d = {}
                saved = dict(self.env)
                for e in it.v:
                    self.bind(g.target, Val('const', e))
                    kv = self.ev(n.key)
                    if kv.kind != 'const':
                        raise AnalysisBroken('%s: a saved key that is not a constant' % self.f.qual)
                    d[kv.v] = (self.ev(n.value), list(self.guards), n.key)
                self.env = saved
                return Val('dict', d)
            v = self.items_source(g.iter)
            if v is not None:
                cs = {x.value for i in g.ifs for x in ast.walk(i) if isinstance(x, ast.Constant)}
                if cs <= {'dashboard'}:
                    return Val(v.kind if v.kind != 'dict' else 'other', v.v, v.path, v.origins, v.pure, v.why)
                return Val('other', v.v, v.path, v.origins, False, 'part of it is left out')
            return Val('other', pure=False)
        if isinstance(n, ast.Subscript):
            b, k = self.ev(n.value), self.ev(n.slice)
            if b.kind == 'state':
                if k.kind == 'const' and isinstance(k.v, int):
                    return Val('state', path=b.path + (k.v,))
                if k.kind == 'const' and isinstance(k.v, str):
                    return Val('item', k.v, path=b.path)
            if b.kind == 'dict' and k.kind == 'const' and k.v in b.v:
                return b.v[k.v][0]
            return Val('other', origins=b.origins, pure=False, why='only part of it is kept')
        if isinstance(n, ast.IfExp):
            a, b = self.ev(n.body), self.ev(n.orelse)
            t = self.ev_test_names(n.test)
            cands = [v for v in (a, b) if v.kind != 'const' or v.v not in (None, (), '')]
            if len(cands) == 1 and (t & (cands[0].origins | {cands[0].v})):
                return cands[0]
            return Val('other', origins=a.origins | b.origins, pure=False, why='it is kept under a condition only')
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(v) for v in n.values]
            if isinstance(n.op, ast.Or) and len(vs) == 2 and vs[1].kind in ('const', 'other') and not vs[1].origins:
                return vs[0]
            return Val('other', origins=frozenset().union(*[v.origins for v in vs]), pure=False, why='it is changed')
        if isinstance(n, ast.Call):
            return self.call(n)
        o = set()
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                o |= self.ev(x).origins
        return Val('other', origins=o, pure=False)

    def ev_test_names(self, t):
        out = set()
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.Constant):
                out.add(x.value)
            elif isinstance(x, ast.Name) and x.id in self.env:
                v = self.env[x.id]
                out |= set(v.origins)
                if isinstance(v.v, str):
                    out.add(v.v)
        return out

    def items_source(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items':
            return self.ev(it.func.value)
        return None

    def call(self, n):
        fn = n.func
        name = fn.id if isinstance(fn, ast.Name) else (fn.attr if isinstance(fn, ast.Attribute) else None)
        args = [self.ev(a) for a in n.args]
        if isinstance(fn, ast.Name):
            if name == 'getattr' and len(args) >= 2 and args[0].kind == 'self' and args[1].kind == 'const':
                return Val('attr', args[1].v, origins={args[1].v})
            if name == 'setattr' and len(args) == 3 and args[0].kind == 'self':
                if args[1].kind != 'const':
                    raise AnalysisBroken('%s: setattr of a name that is not a constant' % self.f.qual)
                self.stores.append((args[1].v, args[2], list(self.guards), n))
                return Val('const', None)
            if name == 'dict':
                if args and args[0].kind == 'dict' or not args:
                    d = dict(args[0].v) if args else {}
                    for k in n.keywords:
                        if k.arg is None:
                            v = self.ev(k.value)
                            if v.kind != 'dict':
                                raise AnalysisBroken('%s: a saved state that cannot be read off the source' % self.f.qual)
                            d.update(v.v)
                        else:
                            d[k.arg] = (self.ev(k.value), list(self.guards), k.value)
                    return Val('dict', d)
            if name in COPIERS and len(args) == 1 and not n.keywords:
                return args[0]
            if name == 'range' or name == 'len':
                return Val('other')
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value)
            if b.kind == 'const' and isinstance(b.v, str) and name in ('strip', 'rstrip', 'lstrip') and not args:
                return Val('const', getattr(b.v, name)())
            if name in ('copy',) and not args and b.kind in ('attr', 'item', 'dict', 'state'):
                if b.kind == 'dict':
                    return Val('dict', dict(b.v))
                return b
            if name in ('copy', 'deepcopy') and len(args) == 1 and b.kind == 'other':
                return args[0]
            if name == 'get' and b.kind == 'state' and args and args[0].kind == 'const':
                return Val('item', args[0].v, path=b.path, why='get')
            if name == 'pop' and b.kind == 'state' and args and args[0].kind == 'const':
                return Val('item', args[0].v, path=b.path, why='get' if len(args) > 1 else None)
            if name == 'update' and b.kind == 'dict':
                for v in args:
                    if v.kind != 'dict':
                        raise AnalysisBroken('%s: a saved state that cannot be read off the source' % self.f.qual)
                    b.v.update(v.v)
                for k in n.keywords:
                    b.v[k.arg] = (self.ev(k.value), list(self.guards), k.value)
                return Val('const', None)
            if name == 'setdefault' and b.kind == 'dict' and len(args) == 2 and args[0].kind == 'const':
                b.v.setdefault(args[0].v, (args[1], list(self.guards), n))
                return Val('const', None)
            if name in ('pop', 'update', 'clear', 'append', 'extend', 'remove', 'insert', 'popitem', 'discard', 'add', 'sort', 'reverse', '__setitem__', '__delitem__', 'setdefault', 'mangle', 'unmangle') and b.kind in ('attr', 'self'):
                self.events.append((b.v if b.kind == 'attr' else 'the object', n))
            if name in ('__getstate__', '__setstate__') and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' or \
                    name in ('__getstate__', '__setstate__') and isinstance(fn.value, ast.Name) and fn.value.id != 'self':
                if name == '__setstate__':
                    a = args[-1] if args else Val('other')
                    self.stores.append(('super()', a, list(self.guards), n))
                    return Val('const', None)
                return Val('super')
            if b.kind == 'self' and self.depth < 4 and self.f.cls is not None:
                g = self.prog.lookup(self.f.cls, name)
                if g is not None and not (g.vararg or g.kwarg) and g.kind in ('method', 'staticmethod') and any(v.kind in ('dict', 'state', 'tuple', 'item') for v in args):
                    return self.inline(g, n, args, bound=g.kind == 'method')
                if g is not None and self.writing and g.kind == 'method':
                    st = {x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
                    if st:
                        self.events.append((sorted(st)[0], n))
        if isinstance(fn, ast.Name) and self.depth < 4:
            g = self.f.module.funcs.get(name)
            if g is not None and not (g.vararg or g.kwarg) and any(v.kind in ('dict', 'state', 'self', 'tuple') for v in args):
                return self.inline(g, n, args, bound=False)
        # encoders and decoders pass the state through
        st = [v for v in args if v.kind in ('dict', 'state', 'tuple')]
        if len(st) == 1:
            return st[0]
        o = set()
        for v in args:
            o |= v.origins
        if isinstance(fn, ast.Attribute):
            o |= self.ev(fn.value).origins
        return Val('other', origins=o, pure=False, why='it is changed by %s' % (ast.unparse(fn)))

    writing = False

    def inline(self, g, n, args, bound):
        sub = Ev(self.prog, g, g.params[0] if bound else '\0')
        sub.depth = self.depth + 1
        sub.writing = self.writing
        ps = g.params[1:] if bound else list(g.params)
        for p, v in zip(ps, args):
            if v.kind == 'self':
                sub.selfname = p
            else:
                sub.env[p] = v
        for k in n.keywords:
            if k.arg:
                v = self.ev(k.value)
                if v.kind == 'self':
                    sub.selfname = k.arg
                else:
                    sub.env[k.arg] = v
        sub.guards = list(self.guards)
        sub.block(g.node.body)
        self.stores += sub.stores
        self.events += sub.events
        rs = [r for r in sub.returned]
        return rs[-1] if rs else Val('const', None)

    # ---- statements
    def bind(self, t, v):
        if isinstance(t, ast.Name):
            old = self.env.get(t.id)
            if self.guards and old is not None and old.kind in ('attr', 'item') and v.kind == 'other' and v.origins == old.origins and v.pure is False:
                self.env[t.id] = v
            else:
                self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if v.kind == 'tuple' and i < len(v.v):
                    self.bind(e, v.v[i])
                elif v.kind == 'const' and isinstance(v.v, tuple) and i < len(v.v):
                    self.bind(e, Val('const', v.v[i]))
                elif v.kind == 'state':
                    self.bind(e, Val('state', path=v.path + (i,)))
                else:
                    self.bind(e, Val('other', origins=v.origins, pure=False))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if b.kind == 'self':
                self.stores.append((t.attr, v, list(self.guards), t))
            elif b.kind in ('attr',):
                self.events.append((b.v, t))
        elif isinstance(t, ast.Subscript):
            b, k = self.ev(t.value), self.ev(t.slice)
            if b.kind == 'dict':
                if k.kind != 'const':
                    raise AnalysisBroken('%s: a saved key that is not a constant' % self.f.qual)
                b.v[k.v] = (v, list(self.guards), t)
            elif b.kind == 'attr':
                self.events.append((b.v, t))

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            b = self.ev(s.target) if not isinstance(s.target, ast.Name) else Val('other')
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name) and isinstance(s.op, ast.BitOr):
                x = self.env.get(s.target.id)
                if x is not None and x.kind == v.kind == 'dict':
                    x.v.update(v.v)
                    return
            if b.kind == 'attr':
                self.events.append((b.v, s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    b, k = self.ev(t.value), self.ev(t.slice)
                    if b.kind == 'dict' and k.kind == 'const':
                        b.v.pop(k.v, None)
                    elif b.kind == 'attr':
                        self.events.append((b.v, s))
                elif isinstance(t, ast.Attribute) and self.ev(t.value).kind in ('self', 'attr'):
                    self.events.append((t.attr, s))
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.returned.append(self.ev(s.value))
        elif isinstance(s, ast.If):
            names = self.ev_test_names(s.test)
            g = (ast.unparse(s.test), frozenset(x for x in names if isinstance(x, str)))
            before = dict(self.env)
            n0 = len(self.guards)
            self.guards.append(g)
            self.block(s.body)
            after = dict(self.env)
            self.env = before
            self.guards = self.guards[:n0] + [('not (%s)' % g[0], g[1])]
            self.block(s.orelse)
            self.guards = self.guards[:n0]
            # join: a name keeps what either side gives it, when both come from the same attribute
            for k in set(after) | set(self.env):
                a, b = after.get(k), self.env.get(k)
                if a is None or b is None or a is b:
                    self.env[k] = a or b
                    continue
                if (a.kind, a.v, a.path) == (b.kind, b.v, b.path) and a.pure == b.pure:
                    self.env[k] = a
                elif a.kind == 'const' and a.v is None:
                    self.env[k] = b if g[1] & (b.origins | {b.v}) else Val('other', b.v, b.path, b.origins, False, 'it is kept under a condition only')
                else:
                    bad = a if not a.pure else b
                    self.env[k] = Val(bad.kind, bad.v, bad.path, a.origins | b.origins, a.pure and b.pure, bad.why)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            if it.kind == 'const' and isinstance(it.v, tuple):
                for e in it.v:
                    self.bind(s.target, Val('const', e))
                    self.block(s.body)
            elif it.kind == 'other' or it.kind in ('attr', 'item', 'state'):
                src = self.items_source(s.iter)
                c = self.const(s.iter)
                if isinstance(c, (ast.Tuple, ast.List)):
                    for e in c.elts:
                        self.bind(s.target, self.ev(e))
                        self.block(s.body)
                elif isinstance(c, ast.Dict) or (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and isinstance(self.const(s.iter.func.value), ast.Dict)):
                    d = c if isinstance(c, ast.Dict) else self.const(s.iter.func.value)
                    for k, v in zip(d.keys, d.values):
                        self.bind(s.target, Val('const', (self.ev(k).v, self.ev(v).v)) if isinstance(s.target, ast.Tuple) else self.ev(k))
                        self.block(s.body)
                elif src is not None and src.kind == 'state':
                    raise AnalysisBroken('%s: restores a state whose keys are not spelled out' % self.f.qual)
                else:
                    self.bind(s.target, Val('other'))
                    self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                saved = dict(self.env)
                self.guards.append(('except', frozenset()))
                self.block(h.body)
                self.guards.pop()
                self.env = saved
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            self.block(s.body)
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Raise, ast.Assert, ast.FunctionDef, ast.Global)):
            pass
        elif isinstance(s, ast.While):
            self.block(s.body)


def canon(prog, c, name):
    """the stored attribute behind a trivial property"""
    if prog.is_prop(c, name):
        g = prog.lookup(c, name, 'getter')
        if g is not None:
            b = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and isinstance(b[0].value.value, ast.Name) and b[0].value.value.id == 'self':
                return b[0].value.attr
    return name


def state_of(prog, c):
    g = c.methods.get('__getstate__')
    e = Ev(prog, g)
    e.writing = True
    e.block(g.node.body)
    e.events += [(a, n) for a, v, gg, n in e.stores if a != 'super()']
    if not e.returned:
        raise AnalysisBroken('%s: nothing is returned' % g.qual)
    out = {}
    sup = None
    for r in e.returned:
        if r.kind == 'dict':
            out[()] = r.v
        elif r.kind == 'tuple':
            for i, v in enumerate(r.v):
                if v.kind == 'dict':
                    out[(i,)] = v.v
                elif v.kind == 'super':
                    sup = (i,)
                else:
                    raise AnalysisBroken('%s: a saved state that cannot be read off the source' % g.qual)
        else:
            raise AnalysisBroken('%s: a saved state that cannot be read off the source (%s)' % (g.qual, r.kind))
    return g, e, out, sup


def check_class(ctx, prog, c, R):
    g, e, saved, sup = state_of(prog, c)
    s = c.methods['__setstate__']
    ctx.seen(g)
    ctx.seen(s)
    r = Ev(prog, s)
    r.env[s.params[1]] = Val('state')
    r.block(s.node.body)
    restored = {}
    last = {}
    for attr, v, guards, node in r.stores:
        if attr == 'super()':
            ctx.ob(R['super'], c.qual + ' base state', sup is not None and v.kind == 'state' and v.path == sup, s.loc(node),
                   'the base class is given %s, but its state is %s' % ('/'.join(map(str, v.path)) or 'the whole state', 'saved at %s' % (sup,) if sup is not None else 'not saved'))
            continue
        a = canon(prog, c, attr)
        if v.kind == 'item':
            restored.setdefault((v.path, v.v), []).append((a, guards, node, v))
        last[a] = (v, guards, node)
    if sup is not None:
        ctx.ob(R['super'], c.qual + ' base restore', any(a == 'super()' for a, *_ in r.stores), s.loc(s.node), 'the state of the base class is saved and never restored')
    origins = set()
    n = 0
    for path, d in saved.items():
        for k, (v, guards, node) in d.items():
            n += 1
            cons = '%s key %s' % (c.qual, k)
            o = {canon(prog, c, x) for x in v.origins}
            origins |= o
            ok = len(o) == 1 and (v.pure or v.kind == 'attr')
            ctx.ob(R['save'], cons, ok, g.loc(node), 'what is saved under %r is %s' % (k, 'not the whole of one attribute: ' + str(v.why or sorted(o)) if o else 'no attribute of the object'))
            if guards:
                ctx.ob(R['save'], cons + ' always', all(o & {canon(prog, c, x) for x in names} or k in names for t, names in guards), g.loc(node), 'it is saved only when %s' % guards[-1][0])
            got = restored.get((path, k))
            if not got:
                ctx.ob(R['pair'], cons, False, s.loc(s.node), '%r is saved and never restored' % k)
                continue
            ctx.ob(R['pair'], cons, all({a} == o for a, *_ in got), s.loc(got[0][2]), 'saved from %s, restored into %s' % (sorted(o), got[0][0]))
            for a, gg, nd, vv in got:
                ctx.ob(R['restore'], cons, vv.pure, s.loc(nd), 'what is restored is not what was saved: %s' % vv.why)
                if gg:
                    ctx.ob(R['restore'], cons + ' always', all({k, a} & names or 'except' == t for t, names in gg), s.loc(nd), 'it is restored only when %s' % gg[-1][0])
                lv = last.get(a)
                ctx.ob(R['restore'], cons + ' kept', lv is None or (lv[0].kind == 'item' and lv[0].v == k) or bool(lv[1]), s.loc(lv[2] if lv else nd), 'it is overwritten after it was restored')
    for (path, k), got in restored.items():
        v = got[0][3]
        ctx.ob(R['pair'], '%s reads %s' % (c.qual, k), path in saved and k in saved[path], s.loc(got[0][2]), '%r is read back but was never saved' % k)
    muts = [(a, nd) for a, nd in e.events]
    ctx.ob(R['effect'], c.qual + ' __getstate__', not muts, g.loc(muts[0][1]) if muts else g.loc(g.node), 'saving the object changes %s' % (muts[0][0] if muts else ''))
    return origins


def inventory(prog, c):
    """attribute -> where it can be set from outside"""
    out = {}
    for name, d in c.props.items():
        st = d.get('setter')
        if st is None or name.startswith('_'):
            continue
        for x in ast.walk(st.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                out.setdefault(x.attr, (st, x))
    for name, v in c.attrs.items():
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            k = prog.resolve(c.module, v.func.id)
            if k is not None and hasattr(k, 'methods') and prog.lookup(k, '__set__') is not None:
                out.setdefault(name, (None, v))
    i = c.methods.get('__init__')
    if i is not None:
        for x in ast.walk(i.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self' and not x.attr.startswith('_'):
                out.setdefault(canon(prog, c, x.attr), (i, x))
    return out


def tree(ctx, prog, R):
    c = prog.cls('larch.model.tree', 'NestingTree')
    g, s = c.methods.get('__getstate__'), c.methods.get('__setstate__')
    if g is None or s is None:
        raise AnalysisBroken('NestingTree no longer defines its saved state')
    ctx.seen(g)
    ctx.seen(s)
    skip = set()
    for x in ast.walk(g.node):
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.NotIn, ast.In)):
            v = Ev(prog, g)
            for st in g.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    v.bind(st.targets[0], v.ev(st.value))
            r = v.ev(x.comparators[0])
            if isinstance(x.comparators[0], (ast.Set,)):
                skip |= {e.value for e in x.comparators[0].elts if isinstance(e, ast.Constant)}
            if r.kind == 'const' and isinstance(r.v, tuple):
                skip |= set(r.v)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and x.args and isinstance(x.args[0], ast.Constant):
            skip.add(x.args[0].value)
    if not skip:
        raise AnalysisBroken('%s: cannot read off which attributes are left out' % g.qual)
    rebuilt = {x.attr for x in ast.walk(s.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    used = {}
    stored = {}
    for f in c.functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in skip:
                (stored if isinstance(x.ctx, ast.Store) else used).setdefault(x.attr, (f, x))
    for a in sorted(skip):
        lazy = any(a in k.props for k in prog.mro(c)) or any(a in k.methods for k in prog.mro(c))
        if a not in used and a not in stored:
            continue
        f, x = used.get(a) or stored[a]
        if a in used:
            # a read that copes with the attribute being absent does not count
            bad = None
            for g2 in c.functions():
                safe = set()
                for t in ast.walk(g2.node):
                    if isinstance(t, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or 'Exception' in ast.unparse(h.type) for h in t.handlers):
                        safe |= {id(y) for st in t.body for y in ast.walk(st)}
                for y in ast.walk(g2.node):
                    if isinstance(y, ast.Attribute) and y.attr == a and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == 'self' and id(y) not in safe:
                        bad = bad or (g2, y)
            if bad is None:
                used.pop(a)
            else:
                f, x = bad
        # set when first needed, or absent and tested for
        ok = lazy or a in rebuilt or any(a in k.attrs for k in prog.mro(c)) or a not in used or a in ('node_dict_factory', '_touch')
        ctx.ob(R['tree'], 'NestingTree.' + a, ok, f.loc(x), '%s is left out of the saved tree and nothing computes it again, yet %s reads it' % (a, f.name))
    # the nested objects themselves must travel
    for a in ('_node', '_adj', '_pred', '_succ', '_root_id', 'graph'):
        ctx.ob(R['tree'], 'NestingTree keeps ' + a, a not in skip, g.loc(g.node), '%s is the structure of the tree and is left out of its saved state' % a)
    # a tree made from another tree takes over everything a tree is made with
    i = c.methods.get('__init__')
    if i is not None:
        ctx.seen(i)
        sets = {x.attr for x in ast.walk(i.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
        reads = {x.attr for x in ast.walk(i.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not (isinstance(x.value, ast.Name) and x.value.id == 'self')}
        for a in sorted(sets & {'_root_id', '_suggested_elemental_order'}):
            ctx.ob(R['tree'], 'NestingTree copy keeps ' + a, a in reads or a.lstrip('_') in reads, i.loc(i.node), 'a tree made from another tree does not take over its %s' % a)
    # the saved and restored dictionary is the object's own
    ok = any(isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(s.node))
    ctx.ob(R['tree'], 'NestingTree.__setstate__ restores', ok, s.loc(s.node), 'the saved attributes are never put back')
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'clear', 'popitem') and ast.unparse(x.func.value) == 'self.__dict__' or isinstance(x, ast.Delete) and 'self.' in ast.unparse(x):
            ctx.ob(R['effect'], c.qual + ' __getstate__', False, g.loc(x), 'saving the tree removes attributes from it')
    ctx.ob(R['effect'], c.qual + ' __getstate__ looked at', True, g.loc(g.node), '')


def copies(ctx, prog, R):
    """copies of the pieces of a utility function"""
    n = 0
    for mod, cname in (('larch.model.linear', 'LinearComponent_C'), ('larch.roles', 'LinearComponent2'), ('larch.roles', 'LinearComponent0')):
        m = prog.module(mod)
        if m is None or cname not in m.classes:
            continue
        c = m.classes[cname]
        init = c.methods.get('__init__') or c.methods.get('__new__')
        for nm in ('__copy__', '__deepcopy__', 'copy', '__pos__', '__neg__'):
            f = c.methods.get(nm)
            if f is None:
                continue
            ctx.seen(f)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and (ast.unparse(x.value.func) in ('self.__class__', 'type(self)', cname)):
                    want = [p for p in (init.params[1:] if init else ['param', 'data', 'scale'])]
                    want = [p for p in want if p in ('param', 'data', 'scale')]
                    given = {}
                    for p, a in zip(want, x.value.args):
                        given[p] = a
                    for k in x.value.keywords:
                        given[k.arg] = k.value
                    for p in want:
                        n += 1
                        src = {y.attr.lstrip('_') for y in ast.walk(given[p]) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self'} if p in given else set()
                        neg = nm == '__neg__' and p == 'scale'
                        ops = [y for y in ast.walk(given[p]) if isinstance(y, (ast.BinOp, ast.UnaryOp))] if p in given else []
                        ok = src == {p} and ((len(ops) == 1 and isinstance(ops[0], ast.UnaryOp) and isinstance(ops[0].op, ast.USub)) if neg else not ops)
                        ctx.ob(R['copy'], '%s.%s %s' % (cname, nm, p), ok, f.loc(x), 'the %s of the copy is %s' % (p, ast.unparse(given[p]) if p in given else 'left at its default'))
    if not n:
        raise AnalysisBroken('no component copy was found')


def model_copy(ctx, prog, R):
    """Model.copy and Model(model=...) go through the saved state, and dumps saves the whole model"""
    c = prog.cls('larch.model.model', 'Model')
    f = prog.method(c, 'copy')
    ctx.seen(f)
    names = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)} | {x.func.id for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
    ok = bool(names & {'loads', '__setstate__', 'deepcopy', 'load'})
    ctx.ob(R['model'], 'Model.copy uses the saved state', ok, f.loc(f.node), 'the copy is not made from the saved state of the model')
    ret = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Return)]
    ctx.ob(R['model'], 'Model.copy returns another model', bool(ret) and all(not (isinstance(v, ast.Name) and v.id == 'self') and v is not None for v in ret), f.loc(f.node), 'the original is returned')
    # nothing of the copy is overwritten by something that is not the original's
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id != 'self':
            a = x.targets[0].attr
            reads = {y.attr for y in ast.walk(x.value) if isinstance(y, ast.Attribute)}
            ctx.ob(R['model'], 'Model.copy sets ' + a, canon(prog, c, a).strip('_') in {canon(prog, c, y).strip('_') for y in reads}, f.loc(x), 'the %s of the copy is set to %s' % (a, ast.unparse(x.value)))
    i = prog.method(c, '__init__')
    ctx.seen(i)
    calls = [x for x in ast.walk(i.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '__setstate__']
    if 'model' in i.all_params:
        ctx.ob(R['model'], 'Model(model=...) restores the saved state', any('model' in {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} for x in calls) or any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and any(isinstance(a, ast.Name) and a.id == 'model' for a in x.args) for x in ast.walk(i.node)),
            i.loc(i.node), 'the state of the given model is never restored')
        # nothing of it is replaced afterwards except what the caller gave
        body = i.node.body
        seen = False
        for st in body:
            if any(x in ast.walk(st) for x in calls):
                seen = True
                continue
            if seen:
                for x in ast.walk(st):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr not in TRANSIENT and not isinstance(st, ast.If):
                        ctx.ob(R['model'], 'Model(model=...) keeps ' + x.attr, False, i.loc(x), '%s is overwritten after it was taken from the given model' % x.attr)
    d = c.methods.get('dumps')
    if d is not None:
        ctx.seen(d)
        ok = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'dumps' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == 'self' for x in ast.walk(d.node))
        ctx.ob(R['model'], 'Model.dumps saves the model', ok, d.loc(d.node), 'what is saved is not the model')


def check(ctx):
    prog = ctx.prog
    R = {}
    R['save'] = 'save'
    ctx.rule('save', 'each key of a saved state holds the whole of one attribute', 30)
    R['pair'] = 'pair'
    ctx.rule('pair', 'what is saved is restored into the attribute it was taken from, and nothing else is read', 60)
    R['restore'] = 'restore'
    ctx.rule('restore', 'what is restored is what was saved, and stays', 60)
    R['super'] = 'super'
    ctx.rule('super', 'a derived class carries the state of its base', 1)
    R['complete'] = 'complete'
    ctx.rule('complete', 'everything a user can set is part of the saved state', 15)
    R['effect'] = 'effect'
    ctx.rule('effect', 'saving does not change the object', 4)
    R['tree'] = 'tree'
    ctx.rule('tree', 'the nesting tree keeps its structure', 8)
    R['copy'] = 'copy'
    ctx.rule('copy', 'a copied component has the same parts', 3)
    R['model'] = 'model'
    ctx.rule('model', 'model copies are made from the saved state', 4)
    states = {}
    for m, n in CLASSES:
        c = prog.cls(m, n)
        if '__getstate__' not in c.methods or '__setstate__' not in c.methods:
            ctx.ob(R['pair'], c.qual + ' defines its state', False, '%s:%d' % (c.module.rel, c.node.lineno), '%s no longer defines both __getstate__ and __setstate__' % n)
            states[n] = set()
            continue
        states[n] = check_class(ctx, prog, c, R)
    # completeness
    for (m, n), saved in (((('larch.model.parameter_frame', 'ParameterFrame')), states['ParameterFrame']),
                          (('larch.model.controller', 'Model5c'), states['Model5c']),
                          (('larch.model.model', 'Model'), states['Model5c']),
                          (('larch.numba.model', 'NumbaModel'), states['NumbaModel'] | states['Model5c'])):
        c = prog.cls(m, n)
        cs = [k for k in prog.mro(c)] if n != 'Model5c' else [k for k in prog.mro(c)]
        for k in cs:
            for a, (f, x) in sorted(inventory(prog, k).items()):
                if a in TRANSIENT:
                    continue
                ok = a in saved or a.lstrip('_') in {s.lstrip('_') for s in saved}
                loc = f.loc(x) if f is not None else '%s:%d' % (k.module.rel, x.lineno)
                ctx.ob(R['complete'], '%s keeps %s' % (n, a), ok, loc, '%s can be set on a %s and is not part of its saved state' % (a, n))
    if '_frame' not in states['Model5c'] or '_frame' not in states['ParameterFrame']:
        ctx.ob(R['complete'], 'the parameter frame is saved', False, 'larch/model/controller.pyx:1', 'the parameters are not part of the saved state')
    ctx.ob(R['complete'], 'the parameter frame is looked at', True, 'larch/model/controller.pyx:1', '')
    tree(ctx, prog, R)
    copies(ctx, prog, R)
    model_copy(ctx, prog, R)
