"""Rewrites of a function body that keep its meaning and make the way it is written matter less: loops over literal tuples are unrolled, and a statement that only calls a small helper of the same module or class is replaced by the helper's body."""
import ast
import copy


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            r = copy.deepcopy(self.m[n.id])
            if isinstance(n.ctx, ast.Store) and not isinstance(r, ast.Name):
                return n
            if isinstance(r, ast.Name):
                r.ctx = n.ctx
            return ast.copy_location(r, n)
        return n


def _simple(n):
    return isinstance(n, (ast.Constant, ast.Name)) or (isinstance(n, ast.Attribute) and _simple(n.value)) or (isinstance(n, (ast.Tuple, ast.List)) and all(_simple(e) for e in n.elts))


class Flat(ast.NodeTransformer):
    def __init__(self, f, want, depth=2):
        self.f, self.want, self.depth = f, want, depth

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Tuple, ast.List)) and 0 < len(n.iter.elts) <= 8 and all(_simple(e) for e in n.iter.elts) and not n.orelse \
                and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)):
            names = [n.target] if isinstance(n.target, ast.Name) else (n.target.elts if isinstance(n.target, ast.Tuple) else None)
            if names is None or not all(isinstance(x, ast.Name) for x in names):
                return n
            stored = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if stored & {x.id for x in names}:
                return n
            out = []
            for e in n.iter.elts:
                vals = [e] if isinstance(n.target, ast.Name) else (e.elts if isinstance(e, (ast.Tuple, ast.List)) else None)
                if vals is None or len(vals) != len(names):
                    return n
                m = {x.id: v for x, v in zip(names, vals)}
                out += [Sub(m).visit(copy.deepcopy(s)) for s in n.body]
            return out
        return n

    def helper(self, c):
        if not isinstance(c, ast.Call) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return None
        f, bound = None, []
        if isinstance(c.func, ast.Name):
            f = self.f.module.funcs.get(c.func.id)
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'self' and self.f.cls is not None:
            f = self.f.cls.methods.get(c.func.attr)
            if f is not None and f.kind != 'method':
                return None
            bound = [c.func.value]
        if f is None or f is self.f or f.vararg or f.kwarg or f.node.decorator_list or not self.want(f):
            return None
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(list(ast.walk(f.node))) > 250 or any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Await)) for s in body for x in ast.walk(s)):
            return None
        m = {}
        args = bound + list(c.args)
        if len(args) > len(f.params):
            return None
        for p, a in zip(f.params, args):
            m[p] = a
        for k in c.keywords:
            m[k.arg] = k.value
        for p in f.all_params:
            if p not in m:
                d = f.default_of(p)
                if d is None:
                    return None
                m[p] = d
        stored = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if stored & set(m) or not all(_simple(v) for v in m.values()):
            return None
        for x in stored:
            m[x] = ast.Name('_%s_%s' % (f.name, x), ast.Load())
        return [Sub(m).visit(copy.deepcopy(s)) for s in body]

    def visit_Expr(self, n):
        if self.depth <= 0:
            return n
        b = self.helper(n.value)
        if b is None:
            return n
        inner = Flat(self.f, self.want, self.depth - 1)
        out = []
        for s in b:
            r = inner.visit(s)
            out += r if isinstance(r, list) else [r]
        return out or ast.copy_location(ast.Pass(), n)


class View:
    """a function with a rewritten body"""
    def __init__(self, f, want=lambda g: True):
        self._f = f
        self.node = ast.fix_missing_locations(Flat(f, want).visit(copy.deepcopy(f.node)))

    def __getattr__(self, k):
        return getattr(self._f, k)
