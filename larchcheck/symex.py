"""Symbolic terms for small numeric functions.

Values are polynomials with rational coefficients over atoms (inputs, attributes,
uninterpreted calls), arrays of such entries, strings, tuples, instances and
closures.  Statements fork at tests that are not decided; each path keeps its
conditions.  Differentiation is on the terms.  Nothing is handed to a solver.
"""
import ast
import re
from fractions import Fraction


class Unknown(Exception):
    pass


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def key(self):
        return tuple(sorted(((tuple((rep(a), p) for a, p in m), c) for m, c in self.t.items()), key=str))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, p in m2:
                    d[a] = d.get(a, 0) + p
                m = tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda z: rep(z[0])))
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -p) for a, p in m): 1 / c})
        return Poly.atom(('inv', self))

    def is_const(self):
        return all(m == () for m in self.t)

    def value(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for m in self.t for a, p in m}

    def diff(self, atom, dfun=None):
        """derivative by `atom`; dfun(a, atom) -> Poly or None for function atoms"""
        out = Poly()
        for m, c in self.t.items():
            for i, (a, p) in enumerate(m):
                if a == atom:
                    da = Poly.const(1)
                else:
                    da = dfun(a, atom) if dfun else None
                    if da is None:
                        continue
                rest = [x for j, x in enumerate(m) if j != i]
                if p != 1:
                    rest.append((a, p - 1))
                out = out + Poly({tuple(sorted(rest, key=lambda z: rep(z[0]))): c * p}) * da
        return out

    def __repr__(self):
        return ' + '.join('%s%s' % ('' if c == 1 and m else str(c) + ('*' if m else ''), '*'.join(rep(a) + ('' if p == 1 else '^%d' % p) for a, p in m))
                          for m, c in sorted(self.t.items(), key=str)) or '0'


def rep(a):
    return repr(a)


INF = ('inf',)
NONE = ('none',)


class Inst:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def copy(self):
        return Inst(self.cls, dict(self.attrs))


class Arr:
    """array filled with `fill`, single entries overwritten"""
    def __init__(self, fill, ent=None):
        self.fill, self.ent = fill, dict(ent or {})


class Closure:
    def __init__(self, node, env, name):
        self.node, self.env, self.name = node, env, name


class Path:
    def __init__(self, env, conds=(), ret=None, heap=None):
        self.env, self.conds, self.ret = env, list(conds), ret
        self.done = None
        self.heap = heap if heap is not None else {}

    def copy(self):
        p = Path(dict(self.env), self.conds, self.ret, {k: (v.copy() if isinstance(v, Inst) else Arr(v.fill, v.ent)) for k, v in self.heap.items()})
        p.done = self.done
        return p


def norm_lt(a, b, positive=None):
    """sign of a-b: (canonical poly, sign)"""
    d = a - b
    if not d.t:
        return None, 0
    if positive is not None and len(d.t) > 1:
        for x in {x for m in d.t for x, e in m if positive(x)}:
            k = min(dict(m).get(x, 0) for m in d.t)
            if k:
                d = d * Poly({((x, -k),): Fraction(1)})
        c = abs(sorted(d.t.items(), key=lambda z: str(z[0]))[0][1])
        d = d * Poly.const(1 / c)
    lead = sorted(d.t.items(), key=lambda z: str(z[0]))[0][1]
    return (d, 1) if lead > 0 else (-d, -1)


class Exec:
    """hooks: call(self, node, name, fv, args, kw, path) -> value or NotImplemented; test(self, node, path) -> True/False/None"""
    LIMIT = 400

    def __init__(self, hooks=None):
        self.h = hooks
        self.n = 0

    # references live in path.heap so that paths may be copied
    def new(self, obj, p):
        self.n += 1
        k = ('ref', self.n)
        p.heap[k] = obj
        return k

    def deref(self, v, p):
        return p.heap[v] if isinstance(v, tuple) and v and v[0] == 'ref' else v

    def run(self, body, path):
        cur = [path]
        for s in body:
            nxt = []
            for p in cur:
                if p.done:
                    nxt.append(p)
                else:
                    nxt.extend(self.stmt(s, p))
            cur = nxt
            if len(cur) > self.LIMIT:
                raise Unknown('too many paths')
        return cur

    def stmt(self, s, p):
        if isinstance(s, ast.Expr):
            return [q for q, v in self.ev(s.value, p)]
        if isinstance(s, ast.Assign):
            out = []
            for q, v in self.ev(s.value, p):
                qs = [q]
                for t in s.targets:
                    qs = [r for x in qs for r in self.assign(t, v, x)]
                out.extend(qs)
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [p]
            return [r for q, v in self.ev(s.value, p) for r in self.assign(s.target, v, q)]
        if isinstance(s, ast.AugAssign):
            import copy
            load = copy.copy(s.target)
            load.ctx = ast.Load()
            e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
            return [r for q, v in self.ev(e, p) for r in self.assign(s.target, v, q)]
        if isinstance(s, ast.Return):
            out = []
            for q, v in (self.ev(s.value, p) if s.value is not None else [(p, NONE)]):
                q.ret, q.done = v, 'return'
                out.append(q)
            return out
        if isinstance(s, ast.Raise):
            p.done = 'raise'
            return [p]
        if isinstance(s, ast.If):
            out = []
            for q, b in self.branch(s.test, p):
                out.extend(self.run(s.body if b else s.orelse, q))
            return out
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            for a in getattr(s, 'names', ()) if isinstance(s, (ast.Import, ast.ImportFrom)) else ():
                p.env[a.asname or a.name.split('.')[0]] = ('name', a.name)
            return [p]
        if isinstance(s, ast.FunctionDef):
            p.env[s.name] = Closure(s, p.env, s.name)
            return [p]
        if isinstance(s, ast.For):
            out = []
            for q, it in self.ev(s.iter, p):
                it = self.deref(it, q)
                if not (isinstance(it, tuple) and it and it[0] in ('tuple', 'list')):
                    raise Unknown('loop over an unknown collection (line %s)' % s.lineno)
                cur = [q]
                for el in it[1]:
                    nxt = []
                    for x in cur:
                        if x.done:
                            nxt.append(x)
                            continue
                        for y in self.assign(s.target, el, x):
                            nxt.extend(self.run(s.body, y))
                    for x in nxt:
                        if x.done == 'continue':
                            x.done = None
                    cur = nxt
                fin = []
                for x in cur:
                    if x.done == 'break':
                        x.done = None
                        fin.append(x)
                    elif x.done:
                        fin.append(x)
                    else:
                        fin.extend(self.run(s.orelse, x))
                out.extend(fin)
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            p.done = 'break' if isinstance(s, ast.Break) else 'continue'
            return [p]
        if isinstance(s, ast.Try):
            return [r for q in self.run(s.body, p) for r in (self.run(s.orelse, q) if not q.done else [q])]
        if isinstance(s, ast.Assert):
            return [q for q, b in self.branch(s.test, p) if b]
        raise Unknown('statement %s (line %s)' % (type(s).__name__, getattr(s, 'lineno', '?')))

    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
            return [p]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.deref(v, p)
            if isinstance(v, tuple) and v and v[0] in ('tuple', 'list') and len(v[1]) == len(t.elts):
                ps = [p]
                for x, y in zip(t.elts, v[1]):
                    ps = [r for q in ps for r in self.assign(x, y, q)]
                return ps
            raise Unknown('unpacking')
        if isinstance(t, ast.Attribute):
            out = []
            for q, b in self.ev(t.value, p):
                o = self.deref(b, q)
                if isinstance(o, Inst):
                    o.attrs[t.attr] = v
                out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for q, b in self.ev(t.value, p):
                o = self.deref(b, q)
                for r, i in self.ev(t.slice, q):
                    o = self.deref(b, r)
                    if isinstance(o, Arr):
                        if isinstance(i, tuple) and i and i[0] == 'slice':
                            if i != ('slice', None, None):
                                raise Unknown('partial slice stored')
                            o.fill, o.ent = v, {}
                        else:
                            o.ent[self.ikey(i)] = v
                    out.append(r)
            return out
        raise Unknown('target')

    def ikey(self, i):
        if isinstance(i, tuple) and i and i[0] == 'tuple':
            return tuple(self.ikey(x) for x in i[1])
        if isinstance(i, Poly):
            return i
        return i

    # ------------------------------------------------------------------ tests
    def branch(self, test, p):
        """[(path, truth)]"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(q, not b) for q, b in self.branch(test.operand, p)]
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            live, out = [p], []
            for x in test.values:
                nxt = []
                for q in live:
                    for r, b in self.branch(x, q):
                        if b == isand:
                            nxt.append(r)
                        else:
                            out.append((r, b))
                live = nxt
            return out + [(q, isand) for q in live]
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            parts, l = [], test.left
            for o, c in zip(test.ops, test.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [o], [c]), test))
                l = c
            return self.branch(ast.copy_location(ast.BoolOp(ast.And(), parts), test), p)
        out = []
        if isinstance(test, ast.Compare):
            for q, l in self.ev(test.left, p):
                for r, g in self.ev(test.comparators[0], q):
                    out.extend(self.compare(test.ops[0], l, g, r))
            return out
        for q, v in self.ev(test, p):
            out.extend(self.truth(v, q))
        return out

    def truth(self, v, q):
        if v is True or v is False:
            return [(q, v)]
        if v == NONE:
            return [(q, False)]
        if isinstance(v, str):
            return [(q, bool(v))]
        if isinstance(v, Poly) and v.is_const():
            return [(q, v.value() != 0)]
        if isinstance(v, tuple) and v and v[0] == 'test':
            return self.assume(v[1], q)
        return self.assume(('truth', v), q)

    def assume(self, c, q):
        for k, b in q.conds:
            if k == c:
                return [(q, b)]
        r = q.copy()
        q.conds.append((c, True))
        r.conds.append((c, False))
        return [(q, True), (r, False)]

    def compare(self, op, l, r, q):
        t = type(op)
        if t in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq) and (l == NONE or r == NONE):
            same = l == r if (l == NONE and r == NONE) else False
            o = r if l == NONE else l
            if isinstance(o, tuple) and o and o[0] in ('maybe', 'rx') and not same:
                return [(x, b != (t in (ast.Is, ast.Eq))) for x, b in self.assume(('truth', o), q)]
            return [(q, same == (t in (ast.Is, ast.Eq)))]
        if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            if t in (ast.Gt, ast.GtE):
                l, r = r, l
            strict = t in (ast.Lt, ast.Gt)
            if l in (INF, ('neginf',)) or r in (INF, ('neginf',)):
                if l == r:
                    return [(q, not strict)]
                return [(q, r == INF or l == ('neginf',))]
            if isinstance(l, Poly) and isinstance(r, Poly):
                d, s = norm_lt(l, r, getattr(self.h, 'positive', None))
                if s == 0:
                    return [(q, not strict)]
                if d.is_const():
                    return [(q, (s < 0))]
                # l-r < 0  <=>  s*d < 0 ; ties are ignored
                out = []
                for x, pos in self.assume(('pos', d), q):
                    out.append((x, pos == (s < 0)))
                return out
            return self.assume(('lt', l, r), q)
        if t in (ast.Eq, ast.NotEq):
            if isinstance(l, (str, bool)) and isinstance(r, (str, bool)):
                return [(q, (l == r) == (t is ast.Eq))]
            if isinstance(l, Poly) and isinstance(r, Poly):
                d, s = norm_lt(l, r)
                if s == 0 or d.is_const():
                    return [(q, (s == 0) == (t is ast.Eq))]
                return [(x, b == (t is ast.Eq)) for x, b in self.assume(('zero', d), q)]
            return [(x, b == (t is ast.Eq)) for x, b in self.assume(('eq', l, r), q)]
        if t in (ast.In, ast.NotIn):
            return [(x, b == (t is ast.In)) for x, b in self.assume(('in', l, r), q)]
        return [(x, b == (t is ast.Is)) for x, b in self.assume(('is', l, r), q)]

    # ------------------------------------------------------------------ values
    def evs(self, nodes, p):
        acc = [(p, [])]
        for n in nodes:
            acc = [(r, vs + [v]) for q, vs in acc for r, v in self.ev(n, q)]
        return acc

    def ev(self, n, p):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unknown('expression %s' % type(n).__name__)
        return m(n, p)

    def e_Constant(self, n, p):
        v = n.value
        if v is None:
            return [(p, NONE)]
        if isinstance(v, (bool, str)):
            return [(p, v)]
        if isinstance(v, (int, float)):
            return [(p, Poly.const(Fraction(str(v))) if v == v and abs(v) != float('inf') else INF)]
        return [(p, ('const', repr(v)))]

    def e_Name(self, n, p):
        if n.id in p.env:
            return [(p, p.env[n.id])]
        return [(p, ('name', n.id))]

    def e_Attribute(self, n, p):
        out = []
        for q, b in self.ev(n.value, p):
            o = self.deref(b, q)
            hv = self.h.attr(self, b, n.attr, q) if hasattr(self.h, 'attr') else NotImplemented
            if hv is not NotImplemented:
                out.append((q, hv))
            elif n.attr == 'inf' and isinstance(o, tuple) and o[:1] == ('name',):
                out.append((q, INF))
            elif isinstance(o, Inst):
                if n.attr in o.attrs:
                    out.append((q, o.attrs[n.attr]))
                else:
                    out.append((q, ('attr', b, n.attr)))
            else:
                out.append((q, ('attr', b if not isinstance(b, Poly) else b, n.attr)))
        return out

    def e_Subscript(self, n, p):
        out = []
        for q, b in self.ev(n.value, p):
            for r, i in self.ev(n.slice, q):
                o = self.deref(b, r)
                hv = self.h.sub(self, o, i, r) if hasattr(self.h, 'sub') else NotImplemented
                if hv is not NotImplemented:
                    out.append((r, hv))
                elif isinstance(o, Arr):
                    k = self.ikey(i)
                    out.append((r, o.ent.get(k, o.fill)))
                elif isinstance(o, tuple) and o and o[0] in ('tuple', 'list') and isinstance(i, Poly) and i.is_const():
                    out.append((r, o[1][int(i.value())]))
                elif isinstance(o, tuple) and o and o[0] == 'vec':
                    out.append((r, Poly.atom(('at', o[1], self.ikey(i)))))
                else:
                    out.append((r, ('sub', o, self.ikey(i))))
        return out

    def e_Slice(self, n, p):
        return [(p, ('slice', None, None) if n.lower is None and n.upper is None and n.step is None else ('slice', ast.dump(n), 1))]

    def e_Tuple(self, n, p):
        return [(q, ('tuple', tuple(vs))) for q, vs in self.evs(n.elts, p)]

    def e_List(self, n, p):
        return [(q, ('list', tuple(vs))) for q, vs in self.evs(n.elts, p)]

    def e_Dict(self, n, p):
        out = []
        for q, vs in self.evs(n.values, p):
            out.append((q, ('dict', tuple((k.value if isinstance(k, ast.Constant) else '?', v) for k, v in zip(n.keys, vs)))))
        return out

    def e_UnaryOp(self, n, p):
        out = []
        for q, v in self.ev(n.operand, p):
            if isinstance(n.op, ast.USub):
                out.append((q, -v if isinstance(v, Poly) else ('neginf',) if v == INF else INF if v == ('neginf',) else ('neg', v)))
            elif isinstance(n.op, ast.Not):
                out.extend((r, not b) for r, b in self.truth(v, q))
            else:
                out.append((q, v))
        return out

    def e_BinOp(self, n, p):
        out = []
        for q, l in self.ev(n.left, p):
            for r, g in self.ev(n.right, q):
                out.append((r, self.bin(n.op, l, g)))
        return out

    def bin(self, op, l, r):
        if isinstance(l, str) and isinstance(r, str) and isinstance(op, ast.Add):
            return l + r
        if INF in (l, r) or ('neginf',) in (l, r):
            a = l if l in (INF, ('neginf',)) else r
            o = r if a is l else l
            flip = isinstance(op, ast.Sub) and a is r
            if isinstance(op, (ast.Mult, ast.Div)) and isinstance(o, Poly) and o.is_const() and o.value() < 0:
                flip = True
            if isinstance(op, ast.Div) and a is r:
                return Poly()
            return (('neginf',) if a == INF else INF) if flip else a
        if isinstance(l, Poly) and isinstance(r, Poly):
            if isinstance(op, ast.Add):
                return l + r
            if isinstance(op, ast.Sub):
                return l - r
            if isinstance(op, ast.Mult):
                return l * r
            if isinstance(op, ast.Div):
                return l * r.inv()
            if isinstance(op, ast.Pow) and r.is_const() and r.value().denominator == 1 and 0 <= r.value() <= 4:
                x = Poly.const(1)
                for _ in range(int(r.value())):
                    x = x * l
                return x
        return ('op', type(op).__name__, l, r)

    def e_BoolOp(self, n, p):
        return self.branch(n, p)

    def e_Compare(self, n, p):
        return self.branch(n, p)

    def e_IfExp(self, n, p):
        out = []
        for q, b in self.branch(n.test, p):
            out.extend(self.ev(n.body if b else n.orelse, q))
        return out

    def e_JoinedStr(self, n, p):
        out = []
        for q, vs in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], p):
            if all(isinstance(v, str) for v in vs):
                out.append((q, ''.join(vs)))
            else:
                out.append((q, ('str', tuple(vs))))
        return out

    def e_NamedExpr(self, n, p):
        return [(r, v) for q, v in self.ev(n.value, p) for r in self.assign(n.target, v, q)]

    def e_Lambda(self, n, p):
        fn = ast.FunctionDef('<lambda>', n.args, [ast.copy_location(ast.Return(n.body), n)], [], None)
        return [(p, Closure(fn, p.env, '<lambda>'))]

    def e_ListComp(self, n, p):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unknown('comprehension')
        g = n.generators[0]
        out = []
        for q, it in self.ev(g.iter, p):
            it = self.deref(it, q)
            if not (isinstance(it, tuple) and it and it[0] in ('tuple', 'list')):
                raise Unknown('comprehension over an unknown collection')
            acc = [(q, [])]
            for el in it[1]:
                acc = [(y, vs + [v]) for x, vs in acc for x2 in self.assign(g.target, el, x) for y, v in self.ev(n.elt, x2)]
            out.extend((x, ('list', tuple(vs))) for x, vs in acc)
        return out

    e_GeneratorExp = e_ListComp

    def e_Starred(self, n, p):
        return self.ev(n.value, p)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, p):
        out = []
        for q, f in self.ev(n.func, p):
            for r, vs in self.evs([a for a in n.args], q):
                if any(isinstance(a, ast.Starred) for a in n.args):
                    flat = []
                    for a, v in zip(n.args, vs):
                        if isinstance(a, ast.Starred):
                            v = self.deref(v, r)
                            if not (isinstance(v, tuple) and v and v[0] in ('tuple', 'list')):
                                raise Unknown('star argument')
                            flat.extend(v[1])
                        else:
                            flat.append(v)
                    vs = flat
                for s, kv in self.evs([k.value for k in n.keywords], r):
                    kw = {k.arg: v for k, v in zip(n.keywords, kv)}
                    out.extend(self.call(n, f, list(vs), kw, s))
        return out

    def fname(self, f):
        if isinstance(f, tuple) and f and f[0] == 'name':
            return f[1]
        if isinstance(f, tuple) and f and f[0] == 'attr':
            return f[2]
        return ''

    def call(self, n, f, args, kw, p):
        r = self.h.call(self, n, f, args, kw, p) if self.h else NotImplemented
        if r is not NotImplemented:
            return r
        nm = self.fname(f)
        if isinstance(f, Closure):
            return self.invoke(f.node, dict(f.env), args, kw, p)
        if nm in ('min', 'minimum', 'fmin', 'max', 'maximum', 'fmax') and len(args) == 2:
            a, b = args
            if nm in ('max', 'maximum', 'fmax'):
                if isinstance(a, Poly) and isinstance(b, Poly):
                    return [(p, Poly.atom(('max',) + tuple(sorted((a, b), key=repr))))]
                return [(p, ('max', a, b))]
            return [(q, a if t else b) for q, t in self.compare(ast.Lt(), a, b, p)]
        if nm in ('min', 'max', 'amin', 'amax') and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] in ('tuple', 'list') and args[0][1]:
            acc = [(p, args[0][1][0])]
            for x in args[0][1][1:]:
                acc = [z for q, v in acc for z in self.call(n, ('name', nm[-3:]), [v, x], {}, q)]
            return acc
        if nm in ('abs', 'absolute', 'fabs') and len(args) == 1 and args[0] in (INF, ('neginf',)):
            return [(p, INF)]
        if nm in ('abs', 'absolute', 'fabs') and len(args) == 1 and isinstance(args[0], Poly):
            if args[0].is_const():
                return [(p, Poly.const(abs(args[0].value())))]
            return [(p, Poly.atom(('abs', norm_lt(args[0], Poly())[0])))]
        if nm in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) == 2 and not kw:
            op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult}.get(nm, ast.Div)()
            return [(p, self.bin(op, *args))]
        if nm == 'negative' and len(args) == 1 and isinstance(args[0], Poly):
            return [(p, -args[0])]
        if nm in ('zeros_like', 'zeros', 'empty_like', 'empty'):
            return [(p, self.new(Arr(Poly()), p))]
        if nm == 'len' and args:
            return [(p, Poly.atom(('len', args[0])))]
        if nm in ('float', 'int', 'float64', 'float32') and len(args) == 1:
            return [(p, args[0])]
        if all(isinstance(a, Poly) for a in args) and args and not kw and isinstance(f, tuple) and f[0] == 'name':
            return [(p, Poly.atom(('fn', nm) + tuple(args)))]
        return [(p, ('call', f, tuple(args), tuple(sorted(kw.items()))))]

    def invoke(self, node, env, args, kw, p, keep=None):
        """run a function body; returns [(path, value)] with the caller's environment restored"""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        defaults = dict(zip(dn, a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        env = dict(env)
        for nm, v in zip(names, args):
            env[nm] = v
        bound = set(names[:len(args)])
        for k, v in kw.items():
            if k is not None:
                env[k] = v
                bound.add(k)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in bound:
                if nm in defaults:
                    env[nm] = self.ev(defaults[nm], Path({}, [], None, p.heap))[0][1]
                else:
                    env[nm] = Poly.atom(('arg', nm))
        caller = p.env
        p.env = env
        out = []
        for q in self.run(node.body, p):
            if q.done == 'raise':
                continue
            v = q.ret if q.done == 'return' else NONE
            q.env, q.ret, q.done = dict(caller), None, None
            out.append((q, v))
        return out
