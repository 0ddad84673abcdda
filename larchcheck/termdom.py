"""Abstract interpretation of expression-building code over a domain of term sums.

An abstract value stands for every expression of its kind; its meaning is a sum of products of named parts (the parameter, the data item and the scale of each operand).  Code is followed per combination of operand kinds;
a comparison with a special value (zero, one, the empty parameter) splits the case, and the part is given that value in the branch where the comparison holds."""
import ast
from fractions import Fraction

from .program import AnalysisBroken, Cls, Func


class Poly:
    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = dict(a)
                for s, e in b:
                    m[s] = m.get(s, 0) + e
                k = tuple(sorted((s, e) for s, e in m.items() if e))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def __truediv__(self, o):
        if len(o.t) == 1:
            (k, v), = o.t.items()
            return self * Poly({tuple((s, -e) for s, e in k): 1 / v})
        return self * Poly.sym('1/(%s)' % o)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(str(self))

    def is_const(self):
        return not self.t or list(self.t) == [()]

    def value(self):
        return self.t.get((), Fraction(0))

    def symbol(self):
        if len(self.t) == 1:
            (k, v), = self.t.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return None

    def subst(self, m):
        r = Poly()
        for k, v in self.t.items():
            p = Poly.const(v)
            for s, e in k:
                if s in m:
                    c = Fraction(m[s])
                    if c == 0 and e < 0:
                        p = p * Poly({(('1/0', 1),): Fraction(1)})
                        continue
                    p = p * Poly.const(c ** e)
                else:
                    p = p * Poly({((s, e),): Fraction(1)})
            r = r + p
        return r

    def __str__(self):
        out = []
        for k, v in sorted(self.t.items()):
            f = [] if v == 1 and k else [str(v)]
            f += [s if e == 1 else '%s^%d' % (s, e) for s, e in k]
            out.append('*'.join(f))
        return ' + '.join(out) or '0'


class Num:
    kind = 'number'
    def __init__(self, p): self.p = p if isinstance(p, Poly) else Poly.const(p)


class Str:
    """text that names a parameter or spells a data expression"""
    kind = 'text'
    def __init__(self, p, role, null=False): self.p, self.role, self.null = p, role, null


class Ref:
    """ParameterRef (role param) or DataRef (role data)"""
    def __init__(self, p, role, cls, null=False): self.p, self.role, self.cls, self.null, self.kind = p, role, cls, null, role


class Obj:
    def __init__(self, cls): self.cls, self.attrs, self.kind = cls, {}, 'object'


class Type:
    def __init__(self, name, cls=None): self.name, self.cls = name, cls


class Opaque:
    kind = 'opaque'
    def __init__(self, what=''): self.what = what


class Method:
    def __init__(self, obj, name): self.obj, self.name = obj, name


class Bound:
    def __init__(self, f, obj): self.f, self.obj = f, obj


NotImpl = Opaque('NotImplemented')


class Raised(Exception):
    def __init__(self, name, node=None): self.name, self.node = name, node


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Endless(Exception):
    def __init__(self, node): self.node = node


class Run:
    """one path: `script` holds the decisions taken so far"""
    def __init__(self, dom, script):
        self.dom, self.script, self.pos = dom, list(script), 0
        self.assume = {}
        self.notnull = set()
        self.depth = 0
        self.steps = 0
        self.used = set()

    def choose(self):
        if self.pos == len(self.script):
            self.script.append(0)
        v = self.script[self.pos]
        self.pos += 1
        return bool(v)


OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.FloorDiv: 'floordiv', ast.Pow: 'pow', ast.Mod: 'mod', ast.MatMult: 'matmul'}
SYMS = {'and': '&', 'or': '|', 'xor': '^', 'floordiv': '//', 'pow': '**', 'mod': '%', 'invert': '~'}


def apply(op, a, b):
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul': return a * b
    if op == 'truediv': return a / b
    return Poly.sym('{%s %s %s}' % (a, SYMS.get(op, op), b))


def paths(dom, go, limit=4000):
    """every way through `go(run)`"""
    stack = [[]]
    n = 0
    while stack:
        s = stack.pop()
        r = Run(dom, s)
        out = go(r)
        n += 1
        if n > limit:
            raise AnalysisBroken('too many cases')
        for i in range(len(s), len(r.script)):
            if r.script[i] == 0:
                stack.append(r.script[:i] + [1])
        yield r, out


class Dom:
    """the classes of the expression module"""
    def __init__(self, prog, module, null, roles, cython=True, special=()):
        self.prog, self.module, self.null, self.roles, self.cython = prog, module, null, roles, cython
        self.special = set(special)


class Exec:
    def __init__(self, dom, run):
        self.dom, self.run = dom, run
        self.prog = dom.prog

    # ------------------------------------------------------------ helpers
    def val(self, p):
        return p.subst(self.run.assume)

    def denote(self, v):
        if isinstance(v, bool):
            return Poly.const(int(v))
        if isinstance(v, (int, float)):
            return Poly.const(Fraction(v))
        if isinstance(v, (Num, Ref, Str)):
            return Poly.const(1) if getattr(v, 'null', False) else self.val(v.p)
        if isinstance(v, Obj):
            n = v.cls.name
            if '_func' in v.attrs or isinstance(v.attrs.get('#list'), list):
                r = Poly()
                for c in v.attrs.get('_func', v.attrs.get('#list')):
                    r = r + self.denote(c)
                return r
            if '_param' in v.attrs and '_data' in v.attrs:
                return self.denote(v.attrs['_param']) * self.denote(v.attrs['_data']) * self.denote(v.attrs['_scale'])
            if '_left' in v.attrs:
                op = self.dom.binary.get(n)
                if op is None:
                    raise AnalysisBroken('unknown operation class %s' % n)
                return self.val(apply(op, self.denote(v.attrs['_left']), self.denote(v.attrs['_right'])))
            if '_operand' in v.attrs:
                op = self.dom.unary.get(n)
                p = self.denote(v.attrs['_operand'])
                return -p if op == 'neg' else p
        if v == ():
            return Poly()
        raise AnalysisBroken('no meaning for %r' % (v,))

    def what(self, v):
        return getattr(v, 'kind', type(v).__name__)

    # ------------------------------------------------------------ expressions
    def isinst(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinst(v, x) for x in t)
        if not isinstance(t, Type):
            return False
        if isinstance(v, bool):
            return t.name in ('bool', 'int', 'Number', '_Number')
        if isinstance(v, (int, float, Num)):
            return t.name in ('int', 'float', 'Number', '_Number', 'Real')
        if isinstance(v, Str) or isinstance(v, str):
            return t.name == 'str'
        if isinstance(v, Ref):
            if t.name == 'str':
                return True
            return t.cls is not None and (t.cls in self.prog.mro(v.cls))
        if isinstance(v, Obj):
            return t.cls is not None and t.cls in self.prog.mro(v.cls) or t.name in ('list',) and '#list' in v.attrs
        if isinstance(v, tuple):
            return t.name == 'tuple'
        if isinstance(v, list):
            return t.name == 'list'
        return False

    def assume_eq(self, p, c):
        """does the part p equal the constant c in this case?"""
        p = self.val(p)
        if p.is_const():
            return p.value() == c
        s = p.symbol()
        if s is None:
            return False
        k = (s, c)
        if k in self.run.notnull:
            return False
        if self.run.choose():
            self.run.assume[s] = c
            return True
        self.run.notnull.add(k)
        return False

    def equal(self, a, b):
        if isinstance(b, (Ref, Num, Str)) and not isinstance(a, (Ref, Num, Str)):
            a, b = b, a
        if isinstance(a, (Ref, Str)):
            if isinstance(b, str):
                if a.role == 'param':
                    if b == self.dom.null:
                        if a.null:
                            return True
                        if not isinstance(a.p, Poly) or a.p.symbol() is None:
                            return False
                        return self.assume_null(a)
                    return False
                if a.null:
                    return False
                try:
                    c = Fraction(b)
                except (ValueError, ZeroDivisionError):
                    return False
                if b == '00' and a.p.symbol() is not None:
                    # the marker of duplicate terms is a zero that is not spelled as one
                    k = (a.p.symbol(), '00')
                    if k in self.run.used:
                        return True
                    if k in self.run.notnull or not self.run.choose():
                        self.run.notnull.add(k)
                        return False
                    self.run.used.add(k)
                    self.run.assume[a.p.symbol()] = 0
                    return True
                return self.assume_eq(a.p, c)
            if isinstance(b, (Ref, Str)):
                if a.null or b.null:
                    return bool(a.null and b.null)
                if a.role == b.role and self.val(a.p) == self.val(b.p):
                    return True
                if a.role == b.role == 'data' and self.val(b.p).is_const():
                    return self.assume_eq(a.p, self.val(b.p).value())
                return False
            return False
        if isinstance(a, Num):
            if isinstance(b, bool) or b is None or isinstance(b, (tuple, str)):
                return False
            if isinstance(b, (int, float)):
                return self.assume_eq(a.p, Fraction(b))
            if isinstance(b, Num):
                return self.val(a.p) == self.val(b.p)
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        return a == b

    def assume_null(self, a):
        s = a.p.symbol()
        k = (s, 'null')
        if self.run.assume.get(s) == 1 and ('isnull', s) in self.run.used:
            return True
        if k in self.run.notnull:
            return False
        if self.run.choose():
            self.run.assume[s] = 1
            self.run.used.add(('isnull', s))
            return True
        self.run.notnull.add(k)
        return False

    def truth(self, v):
        if isinstance(v, Num):
            return not self.assume_eq(v.p, 0)
        if isinstance(v, Opaque):
            return self.run.choose()
        if isinstance(v, Obj):
            if '_func' in v.attrs:
                return bool(v.attrs['_func'])
            return True
        if isinstance(v, (Ref, Str)):
            return True
        return bool(v)

    def iterate(self, v, node):
        if isinstance(v, (list, tuple)):
            return v
        if isinstance(v, Obj):
            if '_func' in v.attrs and not self.prog.lookup(v.cls, '__iter__'):
                return v.attrs['_func']
            f = self.prog.lookup(v.cls, '__iter__')
            if f is not None:
                r = self.call(f, [v], {})
                return self.iterate(r, node)
        raise Raised('TypeError', node)

    def tostr(self, v):
        if isinstance(v, Ref):
            return Str(v.p, v.role, v.null)
        if isinstance(v, Str):
            return v
        if isinstance(v, Num):
            return Str(v.p, 'data')
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, str):
            return v
        return Opaque('text')

    def template(self, parts, node):
        """text assembled from pieces, some of which spell expressions"""
        if not any(isinstance(p, (Str, Opaque)) for p in parts):
            return ''.join(parts)
        if any(isinstance(p, Opaque) for p in parts):
            return Opaque('text')
        src, m = '', {}
        role = None
        for p in parts:
            if isinstance(p, Str):
                nm = '_%d_' % len(m)
                m[nm] = p
                src += nm
                role = role or p.role
            else:
                src += p
        try:
            e = ast.parse(src.strip(), mode='eval').body
            return Str(self.spell(e, m), 'data' if role == 'data' else role)
        except (SyntaxError, KeyError):
            return Str(Poly.sym('text{%s}' % ''.join(str(self.denote(p)) if isinstance(p, Str) else p for p in parts)), role)

    def spell(self, e, m):
        if isinstance(e, ast.Name):
            return self.denote(m[e.id])
        if isinstance(e, ast.Constant):
            return Poly.const(Fraction(e.value))
        if isinstance(e, ast.BinOp):
            return apply(OPS[type(e.op)], self.spell(e.left, m), self.spell(e.right, m))
        if isinstance(e, ast.UnaryOp):
            v = self.spell(e.operand, m)
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return Poly.sym('{~%s}' % v)
        raise KeyError(ast.dump(e))

    def name(self, n, env, f):
        if n in env:
            return env[n]
        if n in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[n]
        if n == 'NotImplemented':
            return NotImpl
        r = self.prog.resolve(f.module, n)
        if isinstance(r, Cls):
            return Type(r.name, r)
        if isinstance(r, Func):
            return r
        if isinstance(r, tuple) and r[0] == 'const':
            c = r[1]
            if isinstance(c, ast.Constant):
                return c.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.args and isinstance(c.args[0], ast.Name):
                a = self.prog.resolve(r[2], c.args[0].id)
                if isinstance(a, Cls) and a.name in self.dom.roles:
                    return Type(a.name, a)
            if isinstance(c, ast.Name):
                return self.name(c.id, {}, f)
            return Opaque(n)
        if isinstance(r, tuple) and r[0] == 'ext':
            t = r[1].split('.')[-1]
            return Type(t) if t[:1].isupper() else Opaque(r[1])
        return Type(n)

    def ev(self, n, env, f):
        self.run.steps += 1
        if self.run.steps > 60000:
            raise AnalysisBroken('%s: does not come to an end' % f.qual)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return self.name(n.id, env, f)
        if isinstance(n, ast.JoinedStr):
            parts = []
            for v in n.values:
                parts.append(v.value if isinstance(v, ast.Constant) else (self.tostr(self.ev(v.value, env, f)) if v.conversion in (-1, 115) else Opaque('repr')))
            return self.template(parts, n)
        if isinstance(n, (ast.Tuple, ast.List)):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += list(self.iterate(self.ev(e.value, env, f), e))
                else:
                    out.append(self.ev(e, env, f))
            return tuple(out) if isinstance(n, ast.Tuple) else out
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            out = []
            self.comp(n.generators, 0, n.elt, dict(env), f, out)
            return out
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.ev(x, env, f)
                t = self.truth(v)
                if t != isinstance(n.op, ast.And):
                    return v if not isinstance(v, Opaque) else t
            return v
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env, f)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            return self.unop({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)], v, n)
        if isinstance(n, ast.BinOp):
            return self.binop(OPS[type(n.op)], self.ev(n.left, env, f), self.ev(n.right, env, f), n)
        if isinstance(n, ast.Compare):
            l = self.ev(n.left, env, f)
            for op, c in zip(n.ops, n.comparators):
                r = self.ev(c, env, f)
                if not self.cmp(op, l, r, n):
                    return False
                l = r
            return True
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, f)) else n.orelse, env, f)
        if isinstance(n, ast.Attribute):
            return self.attr(self.ev(n.value, env, f), n.attr, n, f)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env, f)
            if isinstance(v, (Ref, Str, Opaque)):
                return Opaque('part')
            if isinstance(v, Obj) and '_func' in v.attrs:
                v = v.attrs['_func']
            if isinstance(n.slice, ast.Slice):
                b = [None if x is None else self.ev(x, env, f) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                return v[slice(*b)]
            k = self.ev(n.slice, env, f)
            try:
                return v[k]
            except (IndexError, KeyError):
                raise Raised('IndexError', n)
            except TypeError:
                raise Raised('TypeError', n)
        if isinstance(n, ast.Call):
            return self.callexpr(n, env, f)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env, f)
            env[n.target.id] = v
            return v
        if isinstance(n, ast.Lambda):
            return Opaque('lambda')
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env, f)
        raise AnalysisBroken('%s: %s not understood' % (f.qual, type(n).__name__))

    def comp(self, gens, i, elt, env, f, out):
        if i == len(gens):
            out.append(self.ev(elt, env, f))
            return
        for x in list(self.iterate(self.ev(gens[i].iter, env, f), gens[i].iter)):
            self.bind(gens[i].target, x, env, f)
            if all(self.truth(self.ev(c, env, f)) for c in gens[i].ifs):
                self.comp(gens, i + 1, elt, env, f, out)

    def cmp(self, op, a, b, n):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return not self.equal(a, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (isinstance(a, Type) and isinstance(b, Type) and a.name == b.name)
            return r == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple)):
                r = any(self.equal(a, x) for x in b)
                return r == isinstance(op, ast.In)
            return self.run.choose()
        a, b = [float(self.val(x.p).value()) if isinstance(x, Num) and self.val(x.p).is_const() else x for x in (a, b)]
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return self.run.choose()

    def attr(self, v, name, n, f):
        if isinstance(v, Obj):
            g = self.prog.lookup(v.cls, name, 'getter')
            if g is not None:
                return self.call(g, [v], {})
            if name in v.attrs:
                return v.attrs[name]
            if name == '__class__':
                return Type(v.cls.name, v.cls)
            m = self.prog.lookup(v.cls, name)
            if m is not None:
                return Bound(m, v)
            for c in self.prog.mro(v.cls):
                if name in c.attrs and isinstance(c.attrs[name], ast.Constant):
                    return c.attrs[name].value
            if name in ('_instance', '_formatting'):
                return None
            raise Raised('AttributeError', n)
        if isinstance(v, Ref):
            if name == '__class__':
                return Type(v.cls.name, v.cls)
            if name in ('_formatting', '_instance'):
                return None
            m = self.prog.lookup(v.cls, name)
            if m is not None:
                return Bound(m, v)
            if name == 'as_pmath' and v.role == 'data':
                raise Raised('AttributeError', n)
            return Method(v, name)
        if isinstance(v, Type) and v.cls is not None:
            m = self.prog.lookup(v.cls, name)
            if m is not None:
                return m
        if isinstance(v, (list, str, Str)):
            return Method(v, name)
        if isinstance(v, (Num, int, float, tuple)):
            raise Raised('AttributeError', n)
        if v is None or v is NotImpl:
            raise Raised('AttributeError', n)
        return Opaque(name)

    def callexpr(self, n, env, f):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in env:
            return Opaque('super')
        fn = self.ev(n.func, env, f)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, env, f), a))
            else:
                args.append(self.ev(a, env, f))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, f)
                if isinstance(d, dict):
                    kw.update(d)
                continue
            kw[k.arg] = self.ev(k.value, env, f)
        return self.apply(fn, args, kw, n, env, f)

    def apply(self, fn, args, kw, n, env, f):
        if isinstance(fn, Func):
            if fn.name.startswith('_try_mangle') or fn.name in ('_what_is', '_unsupported_operands'):
                return Opaque(fn.name)
            if fn.name == 'parenthize':
                return self.tostr(args[0])
            return self.call(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.f, ([] if fn.f.kind == 'staticmethod' else [fn.obj]) + args, kw)
        if isinstance(fn, Method):
            return self.method(fn, args, kw, n)
        if isinstance(fn, Type):
            return self.construct(fn, args, kw, n, env, f)
        return Opaque('call')

    def method(self, m, args, kw, n):
        o = m.obj
        if isinstance(o, list):
            if m.name == 'append':
                o.append(args[0])
                return None
            if m.name == 'extend':
                v = args[0]
                if isinstance(v, Obj) and v.attrs.get('_func') is o:
                    raise Endless(n)
                o.extend(list(self.iterate(v, n)))
                return None
            if m.name == 'insert':
                o.insert(args[0] if isinstance(args[0], int) else 0, args[1])
                return None
            if m.name == 'copy':
                return list(o)
            if m.name == 'clear':
                o.clear()
                return None
            if m.name == 'pop':
                return o.pop(*args)
            raise AnalysisBroken('list method %s' % m.name)
        if isinstance(o, str):
            if m.name == 'format':
                parts, rest, i = [], o, 0
                import string
                for lit, fld, spec, conv in string.Formatter().parse(o):
                    if lit:
                        parts.append(lit)
                    if fld is not None:
                        parts.append(self.tostr(args[int(fld)] if fld.isdigit() else args[i]) if conv != 'r' else Opaque('repr'))
                        i += 1
                return self.template(parts, n)
            if m.name in ('strip', 'lower', 'join'):
                return Opaque('text')
        if isinstance(o, Str) and m.name == 'strip':
            return o
        return Opaque(m.name)

    def construct(self, t, args, kw, n, env, f):
        nm = t.name
        if nm == 'isinstance':
            return self.isinst(args[0], args[1])
        if nm == 'str':
            return self.tostr(args[0])
        if nm in ('list', 'tuple', 'iter'):
            v = list(self.iterate(args[0], n)) if args else []
            return v if nm != 'tuple' else tuple(v)
        if nm == 'len':
            return len(list(self.iterate(args[0], n)))
        if nm == 'sum':
            r = args[1] if len(args) > 1 else 0
            for x in self.iterate(args[0], n):
                r = self.binop('add', r, x, n)
            return r
        if nm == 'enumerate':
            return [(i, x) for i, x in enumerate(self.iterate(args[0], n))]
        if nm == 'zip':
            return list(zip(*[self.iterate(a, n) for a in args]))
        if nm == 'reversed':
            return list(reversed(list(self.iterate(args[0], n))))
        if nm == 'range':
            return list(range(*args))
        if nm == 'float' or nm == 'int':
            v = args[0]
            if isinstance(v, (int, float, Num)):
                return v
            if isinstance(v, (Ref, Str)) and v.role == 'data':
                p = self.val(v.p)
                if p.is_const():
                    return Num(p)
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    pass
            raise Raised('ValueError', n)
        if nm == 'type':
            v = args[0]
            return Type(v.cls.name, v.cls) if isinstance(v, (Obj, Ref)) else Opaque('type')
        if nm == 'hasattr':
            try:
                self.attr(args[0], args[1], n, f)
                return True
            except Raised:
                return False
        if nm == 'getattr':
            try:
                return self.attr(args[0], args[1], n, f)
            except Raised:
                if len(args) > 2:
                    return args[2]
                raise
        if nm == 'callable':
            return True
        if nm in self.dom.roles:
            v = args[0] if args else None
            role = self.dom.roles[nm]
            if isinstance(v, str):
                if role == 'param':
                    return Ref(Poly.const(1) if v == self.dom.null else Poly.sym('P:' + v), role, t.cls, v == self.dom.null)
                try:
                    return Ref(Poly.const(Fraction(v)), role, t.cls)
                except ValueError:
                    return Ref(Poly.sym('X:' + v), role, t.cls)
            if isinstance(v, (Str, Ref)):
                if v.role != role:
                    return Ref(Poly.sym('the %s {%s} used as %s' % (v.role, self.denote(v), role)), role, t.cls)
                return Ref(v.p, role, t.cls, v.null)
            if isinstance(v, Opaque):
                return Ref(Poly.sym('unreadable text'), role, t.cls)
            if isinstance(v, (Num, int, float)):
                return Ref(self.denote(v), role, t.cls)
            raise Raised('TypeError', n)
        if t.cls is not None:
            if 'Error' in nm:
                return Raised(nm)
            o = Obj(t.cls)
            init = self.prog.lookup(t.cls, '__init__')
            if init is not None:
                self.call(init, [o] + args, kw)
            if '_param' in o.attrs and isinstance(o.attrs['_param'], str):
                v = o.attrs['_param']
                o.attrs['_param'] = Str(Poly.const(1) if v == self.dom.null else Poly.sym('P:' + v), 'param', v == self.dom.null)
            if '_data' in o.attrs and isinstance(o.attrs['_data'], str):
                try:
                    o.attrs['_data'] = Str(Poly.const(Fraction(o.attrs['_data'])), 'data')
                except ValueError:
                    o.attrs['_data'] = Str(Poly.sym('X:' + o.attrs['_data']), 'data')
            for a, role in (('_param', 'param'), ('_data', 'data')):
                v = o.attrs.get(a)
                if isinstance(v, (Str, Ref)) and v.role != role:
                    o.attrs[a] = Str(Poly.sym('the %s {%s} used as %s' % (v.role, self.denote(v), role)), role)
                elif isinstance(v, Opaque):
                    o.attrs[a] = Str(Poly.sym('unreadable text'), role)
            return o
        if nm.endswith('Error') or nm.endswith('Exception'):
            return Raised(nm)
        return Opaque(nm)

    # ------------------------------------------------------------ operators
    def handler(self, v, m):
        if isinstance(v, (Obj, Ref)):
            return self.prog.lookup(v.cls, m)
        return None

    def binop(self, op, a, b, n):
        num = (int, float, Num)
        if isinstance(a, int) and isinstance(b, int) and op in ('add', 'sub', 'mul', 'floordiv', 'mod') and not (op in ('floordiv', 'mod') and b == 0):
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[op] if op in ('add', 'sub', 'mul') else (a // b if op == 'floordiv' else a % b)
        if isinstance(a, num) and isinstance(b, num):
            p, q = self.denote(a), self.denote(b)
            if op == 'truediv' and q.is_const() and q.value() == 0:
                raise Raised('ZeroDivisionError', n)
            if op in ('add', 'sub', 'mul', 'truediv'):
                r = apply(op, p, q)
                return Num(r)
            return Num(Poly.sym('{%s %s %s}' % (p, op, q)))
        if isinstance(a, (Opaque, Method)) or isinstance(b, (Opaque, Method)):
            return Opaque('value')
        if isinstance(a, str) and isinstance(b, str) and op == 'add':
            return a + b
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)) and op == 'add':
            return self.template([a, b], n)
        if isinstance(a, (list,)) and isinstance(b, list) and op == 'add':
            return a + b
        ha, hb = self.handler(a, '__%s__' % op), self.handler(b, '__%s__' % op)
        ca = a.cls if isinstance(a, (Obj, Ref)) else None
        cb = b.cls if isinstance(b, (Obj, Ref)) else None
        cya = ca is not None and ca.module.path.endswith('.pyx')
        cyb = cb is not None and cb.module.path.endswith('.pyx')
        extra = [None] if op == 'pow' else []
        tried = False
        if ha is not None:
            tried = True
            r = self.call(ha, [a, b] + (extra if len(ha.params) > 2 else []), {})
            if r is not NotImpl:
                return r
        if cb is not None and cb is not ca:
            if cyb and hb is not None:
                r = self.call(hb, [a, b] + (extra if len(hb.params) > 2 else []), {})
                if r is not NotImpl:
                    return r
            elif not cyb:
                hr = self.handler(b, '__r%s__' % op)
                if hr is not None:
                    r = self.call(hr, [b, a], {})
                    if r is not NotImpl:
                        return r
        raise Raised('TypeError', n)

    def unop(self, op, v, n):
        if isinstance(v, (int, float, Num)):
            p = self.denote(v)
            return Num(-p) if op == 'neg' else (Num(p) if op == 'pos' else Num(Poly.sym('{~%s}' % p)))
        h = self.handler(v, '__%s__' % op)
        if h is None:
            if isinstance(v, Opaque):
                return v
            raise Raised('TypeError', n)
        return self.call(h, [v], {})

    def iadd(self, a, b, n, op='add'):
        h = self.handler(a, '__i%s__' % op)
        if h is not None:
            r = self.call(h, [a, b], {})
            if r is not NotImpl:
                return r
        return self.binop(op, a, b, n)

    # ------------------------------------------------------------ statements
    def call(self, g, args, kw):
        if self.run.depth > 40:
            raise AnalysisBroken('%s: recursion' % g.qual)
        env = {}
        ps = list(g.params)
        for p, v in zip(ps, args):
            env[p] = v
        if len(args) > len(ps):
            if g.vararg:
                env[g.vararg] = tuple(args[len(ps):])
            else:
                raise Raised('TypeError')
        elif g.vararg:
            env[g.vararg] = ()
        if g.kwarg:
            env[g.kwarg] = {k: v for k, v in kw.items() if k not in g.all_params}
        for k, v in kw.items():
            if k in g.all_params:
                env[k] = v
            elif not g.kwarg:
                raise Raised('TypeError')
        for p in g.all_params:
            if p not in env:
                d = g.default_of(p)
                if d is None:
                    raise Raised('TypeError')
                env[p] = self.ev(d, {}, g)
        self.dom.seen.add(g)
        self.run.depth += 1
        try:
            self.block(g.node.body, env, g)
            return None
        except Ret as r:
            return r.v
        finally:
            self.run.depth -= 1

    def block(self, body, env, f):
        for s in body:
            self.stmt(s, env, f)

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            if isinstance(o, Obj) and '_func' in o.attrs:
                o = o.attrs['_func']
            if isinstance(o, list):
                k = self.ev(t.slice, env, f)
                if isinstance(k, int):
                    o[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v, t))
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env, f)

    def stmt(self, s, env, f):
        if isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env, f))
        if isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, f)) else s.orelse, env, f)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.bind(t, v, env, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, f), env, f)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, f)
            v = self.ev(s.value, env, f)
            if isinstance(old, list) and isinstance(s.op, ast.Add):
                if isinstance(v, Obj) and v.attrs.get('_func') is old:
                    raise Endless(s)
                old.extend(list(self.iterate(v, s)))
            else:
                self.bind(s.target, self.iadd(old, v, s, OPS[type(s.op)]), env, f)
        elif isinstance(s, ast.For):
            src = self.iterate(self.ev(s.iter, env, f), s.iter)
            n = 0
            try:
                i = 0
                while i < len(src):
                    x = src[i]
                    i += 1
                    n += 1
                    if n > 50:
                        raise Endless(s)
                    self.bind(s.target, x, env, f)
                    try:
                        self.block(s.body, env, f)
                    except Cont:
                        pass
                else:
                    self.block(s.orelse, env, f)
            except Brk:
                pass
        elif isinstance(s, ast.While):
            n = 0
            try:
                while self.truth(self.ev(s.test, env, f)):
                    n += 1
                    if n > 50:
                        raise Endless(s)
                    try:
                        self.block(s.body, env, f)
                    except Cont:
                        pass
            except Brk:
                pass
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Raise):
            nm = 'Exception'
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                nm = e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else nm)
            raise Raised(nm, s)
        elif isinstance(s, ast.Try):
            try:
                try:
                    self.block(s.body, env, f)
                except Raised as r:
                    for h in s.handlers:
                        if h.type is None or any(x in ('Exception', 'BaseException') or x == r.name for x in [y.id if isinstance(y, ast.Name) else getattr(y, 'attr', '') for y in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)]):
                            if h.name:
                                env[h.name] = Opaque('error')
                            self.block(h.body, env, f)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, f)
            finally:
                if s.finalbody:
                    self.block(s.finalbody, env, f)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                r = self.prog.resolve_import(f.module, s, a.name)
                env[a.asname or a.name] = Type(r.name, r) if isinstance(r, Cls) else (r if isinstance(r, Func) else Opaque(a.name))
        elif isinstance(s, (ast.Import, ast.Pass, ast.Global, ast.Assert)):
            for a in getattr(s, 'names', []):
                if isinstance(s, ast.Import):
                    env[(a.asname or a.name).split('.')[0]] = Opaque(a.name)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o = self.ev(t.value, env, f)
                    if isinstance(o, Obj) and '_func' in o.attrs:
                        o = o.attrs['_func']
                    k = self.ev(t.slice, env, f)
                    if isinstance(o, list) and isinstance(k, int):
                        del o[k]
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Opaque(s.name)
        elif isinstance(s, ast.With):
            self.block(s.body, env, f)
        else:
            raise AnalysisBroken('%s: %s not understood' % (f.qual, type(s).__name__))
