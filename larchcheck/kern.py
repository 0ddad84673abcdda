"""Abstract interpreter for the compiled numerical kernels.

Values carry a canonical text, a constant when known, the array region they are
a view of (allocation or attribute or parameter, plus index texts), and a set of
possible degrees in the tracked factors (case weight, weight normalisation).
Functions of the repository are followed into; configuration arguments are given
as constants, so one run covers every input under one configuration.
"""
import ast

from .program import Func, Cls, Module

D0 = frozenset({(0, 0)})
_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class _NC:
    def __repr__(self): return 'NC'


NC = _NC()


class K:
    __slots__ = ('text', 'const', 'view', 'deg', 'obj')

    def __init__(self, text, const=NC, view=None, deg=D0, obj=None):
        self.text, self.const, self.view, self.deg, self.obj = text, const, view, deg, obj

    def key(self):
        return (self.text, repr(self.const), self.view, self.deg, id(self.obj) if self.obj is not None and not isinstance(self.obj, tuple) else str(self.obj))

    def __repr__(self):
        return 'K(%s)' % self.text


def kconst(v):
    return K(repr(v), v)


def degmul(a, b, s=1):
    return frozenset((x[0] + s * y[0], x[1] + s * y[1]) for x in a for y in b)


class St:
    __slots__ = ('env', 'heap', 'conds', 'must', 'may', 'ret')

    def __init__(self):
        self.env, self.heap, self.conds, self.must, self.may, self.ret = {}, {}, {}, {}, {}, None

    def copy(self):
        s = St()
        s.env, s.heap, s.conds, s.must, s.may, s.ret = dict(self.env), dict(self.heap), dict(self.conds), dict(self.must), dict(self.may), self.ret
        return s

    def add_must(self, k, x):
        self.must[k] = self.must.get(k, frozenset()) | {x}

    def add_may(self, k, x):
        self.may[k] = self.may.get(k, frozenset()) | {x}


def joink(name, a, b):
    if a is b:
        return a
    if a is None or b is None:
        return a or b
    if a.key() == b.key():
        return a
    view = a.view if a.view == b.view else None
    obj = a.obj if a.obj == b.obj else None
    # undefined on one path: the other value is the only one that can be used
    if a.text.startswith('undef:'):
        return b
    if b.text.startswith('undef:'):
        return a
    da, db = (frozenset() if zero(x) else x.deg for x in (a, b))
    stale = 'stale:' if 'stale:' in a.text or 'stale:' in b.text else ''
    return K('phi(%s%s)' % (stale, name) if a.text != b.text else a.text, a.const if repr(a.const) == repr(b.const) else NC, view, da | db or D0, obj)


def zero(k):
    return k.const is not NC and not isinstance(k.const, bool) and k.const == 0


def merge(states):
    if not states:
        return None
    s = states[0].copy()
    for o in states[1:]:
        env = {}
        for k in set(s.env) | set(o.env):
            env[k] = joink(k, s.env.get(k), o.env.get(k))
        s.env = env
        s.heap = {k: v for k, v in ((k, joink(k, s.heap[k], o.heap[k])) for k in s.heap if k in o.heap)}
        s.conds = {k: v for k, v in s.conds.items() if o.conds.get(k) == v}
        s.must = {k: s.must.get(k, frozenset()) & o.must.get(k, frozenset()) for k in set(s.must) | set(o.must)}
        s.may = {k: s.may.get(k, frozenset()) | o.may.get(k, frozenset()) for k in set(s.may) | set(o.may)}
        s.ret = joink('return', s.ret, o.ret)
    return s


class KDomain:
    cap = 48

    def on_store(self, ex, root, idxs, val, aug, node, st): pass
    def on_load(self, ex, root, idxs, node, st): pass
    def on_attr(self, ex, base, attr, val, node, st): pass
    def on_name(self, ex, name, val, aug, node, st): pass
    def on_alloc(self, ex, k, shape, fill, node, st): pass
    def on_call(self, ex, node, fv, args, kw, st): return None
    def on_enter(self, ex, f, args, st): pass
    def on_loop(self, ex, node, itk, st): return None
    def on_iter(self, ex, node, st): pass
    def on_iter_end(self, ex, node, ends): pass
    def on_loop_out(self, ex, node, st, ends): pass
    def on_read(self, ex, name, k, node, st): pass
    def on_return(self, ex, f, val, st): pass
    def deg_of(self, ex, root, idxs, st): return D0
    def shape_of(self, ex, b, st): return None
    def follow(self, f, ex): return True


ALLOC = {'zeros': 0, 'ones': 1, 'empty': None, 'full': NC, 'zeros_like': 0, 'ones_like': 1, 'empty_like': None, 'full_like': NC}
LINEAR = {'sum', 'astype', 'copy', 'reshape', 'ravel', 'flatten', 'asarray', 'array', 'squeeze', 'abs', 'absolute', 'mean', 'nansum', 'ascontiguousarray', 'float', 'Series', 'DataFrame', '__addr__', 'to_numpy', 'cumsum', 'transpose', 'min', 'max', 'DataArray', 'where', 'outer', 'dot', 'einsum', 'multiply', 'add', '__cast__'}
MEMW = {'fread', 'memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'sprintf', 'snprintf', 'fgets', 'copyto', 'put', 'fill_diagonal'}
PRODUCT = {'outer', 'dot', 'einsum', 'multiply', 'matmul', 'inner', 'tensordot'}


class Exec:
    def __init__(self, prog, dom, enum=None, max_depth=8):
        self.prog, self.dom = prog, dom
        self.frames = []
        self.enum = enum or {}
        self.max_depth = max_depth
        self.funcs = set()
        self.paths = 0
        self.loops = []
        self.asked = []

    # ------------------------------------------------------------ running
    @property
    def func(self): return self.frames[-1]

    def run(self, f, args, st=None):
        st = st or St()
        for p in f.all_params:
            if p in args:
                st.env[p] = args[p]
            else:
                d = f.default_of(p)
                st.env[p] = K(p, view=(p, ()), obj=self.anntype(f, p))
        self.frames.append(f)
        self.funcs.add(f.qual)
        out = self.block(f.node.body, [st])
        self.frames.pop()
        res = out.get('return', []) + out.get('next', [])
        self.paths += len(res)
        return res, out.get('raise', [])

    def anntype(self, f, p):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == p and x.annotation is not None:
                t = x.annotation.value if isinstance(x.annotation, ast.Constant) else ast.unparse(x.annotation)
                return self.typename(f.module, t)
        return None

    def typename(self, module, t):
        if not isinstance(t, str) or not t.replace('_', 'a').isalnum():
            return None
        r = self.prog.resolve(module, t)
        return ('inst', r) if isinstance(r, Cls) else None

    def block(self, stmts, states):
        out = {}
        cur = states
        for s in stmts:
            nxt = []
            for st in cur:
                r = self.stmt(s, st)
                for k, v in r.items():
                    if k == 'next':
                        nxt.extend(v)
                    else:
                        out.setdefault(k, []).extend(v)
            cur = self.reduce(nxt)
            if not cur:
                break
        if cur:
            out['next'] = cur
        return out

    def reduce(self, states):
        cap = self.dom.cap
        if len(states) <= cap:
            return states
        return [merge(states)]

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return {'next': [st]}
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return {'next': [st]}

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, s, st)
        return {'next': [st]}

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), s, st)
        elif isinstance(s.target, ast.Name):
            ty = s.annotation.value if isinstance(s.annotation, ast.Constant) else ast.unparse(s.annotation)
            st.env[s.target.id] = K('undef:' + s.target.id, obj=self.typename(self.func.module, ty))
        return {'next': [st]}

    def assign(self, t, v, node, st):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            if v.obj is None and old is not None and isinstance(old.obj, tuple) and old.obj[0] == 'inst' and v.const is not None:
                v = K(v.text, v.const, v.view, v.deg, old.obj)
            self.dom.on_name(self, t.id, v, None, node, st)
            st.env[t.id] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if isinstance(b.obj, tuple) and b.obj[0] == 'rec':
                k = self.ev(t.slice, st)
                if isinstance(k.const, str):
                    st.heap[b.text + '.' + k.const] = v
                    self.dom.on_attr(self, b, k.const, v, node, st)
                    return
            idx = self.index(t.slice, st)
            root, idxs = self.region(b, idx)
            if root is not None:
                self.use(v, node, st)
                self.dom.on_store(self, root, idxs, v, None, node, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.dom.on_attr(self, b, t.attr, v, node, st)
            st.heap[b.text + '.' + t.attr] = v
            self.known(st, b.text + '.' + t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            o = v.obj
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                if isinstance(o, tuple) and o[0] == 'tuple' and len(o[1]) == len(t.elts):
                    self.assign(x, o[1][i], node, st)
                else:
                    self.assign(x, K('%s[%d]' % (v.text, i), deg=v.deg, view=(v.view[0], v.view[1] + (str(i),)) if v.view else None), node, st)

    @staticmethod
    def known(st, text, v):
        """what is known about the truth of an attribute after a store"""
        st.conds.pop(text, None)
        if isinstance(v.const, bool):
            st.conds[text] = v.const

    def region(self, b, idx):
        if b.view is None:
            return None, ()
        return b.view[0], refine(b.view[1], idx)

    def degk(self, k, st):
        if k.view is not None and k.deg == D0:
            return self.dom.deg_of(self, k.view[0], k.view[1], st)
        return k.deg

    def use(self, k, node, st):
        """the value (not just the reference) is read"""
        if k.view is not None:
            self.dom.on_load(self, k.view[0], k.view[1], node, st)

    def s_AugAssign(self, s, st):
        rv = self.ev(s.value, st)
        self.use(rv, s, st)
        op = _OPS.get(type(s.op), '?')
        if isinstance(s.target, ast.Name):
            lv = st.env.get(s.target.id) or self.ev(s.target, st)
            if lv.view is not None and self.dom_array(lv, st):
                self.dom.on_store(self, lv.view[0], lv.view[1] + (':',), rv, op, s, st)
                return {'next': [st]}
            v = self.bin(s.op, lv, rv, s, st)
            self.dom.on_name(self, s.target.id, rv, op, s, st)
            st.env[s.target.id] = K(v.text, v.const, None, v.deg, None)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            root, idxs = self.region(b, self.index(s.target.slice, st))
            if root is not None:
                self.dom.on_store(self, root, idxs, rv, op, s, st)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            lv = self.attr(b, s.target.attr, s, st)
            v = self.bin(s.op, lv, rv, s, st)
            self.dom.on_attr(self, b, s.target.attr, v, s, st)
            st.heap[b.text + '.' + s.target.attr] = v
            self.known(st, b.text + '.' + s.target.attr, v)
        return {'next': [st]}

    def dom_array(self, k, st):
        """a name bound to an array (so that an in-place operation writes it)"""
        h = getattr(self.dom, 'is_array', None)
        if h is not None:
            return h(self, k, st)
        return k.view is not None and k.view[0].startswith('@')

    def s_If(self, s, st):
        out = {}
        for truth, body in ((True, s.body), (False, s.orelse)):
            for sub in self.assume(s.test, truth, st.copy()):
                r = self.block(body, [sub]) if body else {'next': [sub]}
                for k, v in r.items():
                    out.setdefault(k, []).extend(v)
        return out

    def assume(self, test, truth, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                cur = [st]
                for x in test.values:
                    cur = [y for c in cur for y in self.assume(x, truth, c)]
                return cur
            out, cur = [], [st]
            for x in test.values:       # first deciding operand
                nxt = []
                for c in cur:
                    out.extend(self.assume(x, truth, c.copy()))
                    nxt.extend(self.assume(x, not truth, c.copy()))
                cur = nxt
            return out
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            parts, l = [], test.left
            for o, c in zip(test.ops, test.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [o], [c]), test))
                l = c
            return self.assume(ast.copy_location(ast.BoolOp(ast.And(), parts), test), truth, st)
        if isinstance(test, ast.Call):
            # only the ways through the callee that give this answer continue here
            self.asked.append((test, truth))
            k = self.ev(test, st)
            if self.asked.pop()[0] is None:
                return []
        else:
            k = self.ev(test, st)
        self.use(k, test, st)
        if k.const is not NC:
            try:
                return [st] if bool(k.const) == truth else []
            except Exception:
                return [st]
        t, pos = canon(k.text)
        want = truth if pos else not truth
        old = st.conds.get(t)
        if old is not None and 'phi(' not in t:
            return [st] if old == want else []
        st.conds[t] = want
        return [st]

    def s_For(self, s, st):
        itk = self.ev(s.iter, st)
        el = self.dom.on_loop(self, s, itk, st)
        if el is None:
            o = itk.obj
            if isinstance(o, tuple) and o[0] == 'range':
                lo, hi, stp = o[1]
                el = K('idx{%s:%s%s}' % (lo, hi, '' if stp == '1' else ':' + stp))
            elif itk.view is not None:
                el = K('%s[*]' % itk.text, view=(itk.view[0], itk.view[1] + ('*',)), deg=itk.deg)
            else:
                el = K('elem(%s)' % itk.text, deg=itk.deg)
        return self.loop(s, st, lambda c: self.assign(s.target, el, s, c), None)

    def s_While(self, s, st):
        return self.loop(s, st, None, s.test)

    def loop(self, s, st, bind, test):
        out = {}
        entry_conds = dict(st.conds)
        cur = st
        last = []
        zero = st.copy() if test is not None else None
        self.loops.append(s)
        changed = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for it in range(2):
            b = cur.copy()
            # conditions over names the loop changes do not survive into the next iteration
            b.conds = dict(entry_conds)
            starts = [b]
            if test is not None:
                starts = self.assume(test, True, b)
            if bind is not None:
                for c in starts:
                    self.dom.on_iter(self, s, c)
                    bind(c)
            if not starts:
                break
            r = self.block(s.body, starts)
            for k in ('return', 'raise'):
                if r.get(k):
                    out.setdefault(k, []).extend(r[k])
            ends = r.get('next', []) + r.get('continue', [])
            brk = r.get('break', [])
            last = ends + brk
            if last:
                self.dom.on_iter_end(self, s, last)
            if not ends:
                break
            m = merge(ends)
            j = merge([cur, m])
            j.must = m.must           # at least one iteration
            if test is None:
                j.may = m.may
            for n in changed:
                if n in j.env and cur.env.get(n) is not None and j.env[n].key() != cur.env[n].key() and j.env[n].view is None:
                    k = j.env[n]
                    j.env[n] = K('phi(%s@%s)' % (n, s.lineno), deg=k.deg, obj=k.obj)
            cur = j
        self.loops.pop()
        ex = ([zero] if zero is not None and not last else []) + last
        if ex:
            e = merge(ex)
            if zero is not None:
                z = merge([zero, e])
                z.must = e.must if self.dom_nonempty(s) else z.must
                e = z
            e.conds = {k: v for k, v in e.conds.items() if entry_conds.get(k) == v}
            for n in changed:
                if n in e.env and e.env[n].view is None and e.env[n].const is NC and not e.env[n].text.startswith('phi') and st.env.get(n) is not None \
                        and e.env[n].key() != st.env[n].key():
                    pass
            self.dom.on_loop_out(self, s, e, last)
            out.setdefault('next', []).append(e)
        if getattr(s, 'orelse', None) and out.get('next'):
            r = self.block(s.orelse, out.pop('next'))
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        return out

    def dom_nonempty(self, s):
        return not isinstance(s, ast.While)

    def s_With(self, s, st):
        for i in s.items:
            k = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, K('with(%s)' % k.text), s, st)
        return self.block(s.body, [st])

    def s_Try(self, s, st):
        r = self.block(s.body, [st])
        if s.orelse and r.get('next'):
            x = self.block(s.orelse, r.pop('next'))
            for k, v in x.items():
                r.setdefault(k, []).extend(v)
        if s.finalbody:
            out = {}
            for k, v in r.items():
                for c in v:
                    x = self.block(s.finalbody, [c])
                    for kk, vv in x.items():
                        out.setdefault(k if kk == 'next' else kk, []).extend(vv)
            r = out
        return r

    def s_Return(self, s, st):
        st.ret = self.ev(s.value, st) if s.value is not None else kconst(None)
        self.dom.on_return(self, self.func, st.ret, st)
        return {'return': [st]}

    def s_Raise(self, s, st):
        return {'raise': [st]}

    def s_Continue(self, s, st): return {'continue': [st]}
    def s_Break(self, s, st): return {'break': [st]}

    def s_Delete(self, s, st): return {'next': [st]}

    def s_FunctionDef(self, s, st):
        st.env[s.name] = K('local:' + s.name, obj=('local', s))
        return {'next': [st]}

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = K(a.name, obj=('ext', a.name))
        return {'next': [st]}

    def s_ImportFrom(self, s, st):
        for a in s.names:
            r = self.prog.resolve_import(self.func.module, s, a.name)
            st.env[a.asname or a.name] = self.glob(a.name, r) if r is not None else K(a.name, obj=('ext', a.name))
        return {'next': [st]}

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return K('?%s' % type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st): return kconst(n.value)

    def e_Name(self, n, st):
        if n.id in st.env and st.env[n.id] is not None:
            self.dom.on_read(self, n.id, st.env[n.id], n, st)
            return st.env[n.id]
        if n.id in self.enum:
            return K(n.id, self.enum[n.id])
        r = self.prog.resolve(self.func.module, n.id)
        return self.glob(n.id, r)

    def glob(self, nm, r):
        if isinstance(r, Func):
            return K('fn:' + r.qual, obj=('func', r))
        if isinstance(r, Cls):
            return K('cls:' + r.qual, obj=('class', r))
        if isinstance(r, Module):
            return K('mod:' + r.name, obj=('module', r))
        if isinstance(r, tuple) and r[0] == 'ext':
            return K(r[1], obj=('ext', r[1]))
        if isinstance(r, tuple) and r[0] == 'const':
            if isinstance(r[1], ast.Constant):
                return kconst(r[1].value)
            if isinstance(r[1], ast.UnaryOp):
                return K(ast.unparse(r[1]))
            return K('glob:' + nm, obj=('gconst', r[1], r[2]))
        return K(nm, obj=('builtin', nm))

    def e_Attribute(self, n, st):
        return self.attr(self.ev(n.value, st), n.attr, n, st)

    def attr(self, b, a, n, st):
        t = b.text + '.' + a
        if t in st.heap:
            return st.heap[t]
        o = b.obj
        if isinstance(o, tuple):
            if o[0] == 'ext':
                return K(o[1] + '.' + a, obj=('ext', o[1] + '.' + a))
            if o[0] == 'module':
                return self.glob(a, self.prog.resolve(o[1], a))
            if o[0] == 'inst':
                f = self.prog.lookup(o[1], a)
                if f is not None and f.kind == 'method':
                    return K(t, obj=('method', f, b))
                if f is not None and f.kind == 'staticmethod':
                    return K(t, obj=('func', f))
                g = self.prog.lookup(o[1], a, 'getter') if self.prog.is_prop(o[1], a) else None
                if g is not None and len(self.frames) < self.max_depth and self.dom.follow(g, self):
                    return self.call_func(g, [b], {}, n, st)
        if a in ('base', 'values', 'T'):
            return K(b.text, b.const, b.view, b.deg, b.obj)
        if a == 'shape' and b.view is not None:
            sh = self.dom.shape_of(self, b, st)
            if sh is not None:
                return K(t, obj=('tuple', [K(x) for x in sh]))
        if a in ('shape', 'size', 'ndim', 'dtype'):
            return K(t)
        return K(t, view=(t, ()), deg=self.dom.deg_of(self, t, (), st), obj=('bound', b, a))

    def index(self, sl, st):
        if isinstance(sl, ast.Tuple):
            return tuple(self.index1(x, st) for x in sl.elts)
        return (self.index1(sl, st),)

    def index1(self, x, st):
        if isinstance(x, ast.Slice):
            def t(y): return '' if y is None else self.ev(y, st).text
            s = '%s:%s' % (t(x.lower), t(x.upper))
            if s.startswith('0:'):
                s = s[1:]
            return s + (':' + t(x.step) if x.step is not None else '')
        k = self.ev(x, st)
        self.use(k, x, st)
        return k.text

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        if isinstance(b.obj, tuple) and b.obj[0] == 'tuple':
            i = self.ev(n.slice, st)
            if isinstance(i.const, int) and -len(b.obj[1]) <= i.const < len(b.obj[1]):
                return b.obj[1][i.const]
        if isinstance(b.obj, tuple) and b.obj[0] == 'rec':
            i = self.ev(n.slice, st)
            if isinstance(i.const, str) and b.text + '.' + i.const in st.heap:
                return st.heap[b.text + '.' + i.const]
        idx = self.index(n.slice, st)
        t = '%s[%s]' % (b.text, ','.join(idx))
        if b.view is not None:
            # a further subscript of a partly sliced view refines the same dimensions
            idxs = refine(b.view[1], idx)
            t = '%s[%s]' % (b.view[0], ','.join(idxs))
            return K(t, view=(b.view[0], idxs), deg=self.dom.deg_of(self, b.view[0], idxs, st) if b.deg == D0 else b.deg)
        return K(t, deg=b.deg)

    def e_Tuple(self, n, st):
        vs = [self.ev(x, st) for x in n.elts]
        return K('(%s)' % ', '.join(v.text for v in vs), obj=('tuple', vs), deg=frozenset().union(*[v.deg for v in vs]) if vs else D0)
    e_List = e_Tuple

    def e_Dict(self, n, st):
        vs = [self.ev(x, st) for x in n.values]
        for k in n.keys:
            if k is not None:
                self.ev(k, st)
        return K('{dict@%d}' % n.lineno, obj=('dictlit', vs))

    def e_BinOp(self, n, st):
        return self.bin(n.op, self.ev(n.left, st), self.ev(n.right, st), n, st)

    def bin(self, op, l, r, node, st):
        self.use(l, node, st)
        self.use(r, node, st)
        c = NC
        sym = _OPS.get(type(op), '?')
        if l.const is not NC and r.const is not NC:
            try:
                c = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,
                     '&': lambda a, b: a & b, '|': lambda a, b: a | b, '**': lambda a, b: a ** b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b, '^': lambda a, b: a ^ b}[sym](l.const, r.const)
            except Exception:
                c = NC
        if c is not NC:
            return kconst(c)
        a, b = l.text, r.text
        if sym in ('*', '+') and b < a:
            a, b = b, a
        ld, rd = self.degk(l, st), self.degk(r, st)
        if sym == '*' or sym == '@':
            d = degmul(ld, rd)
        elif sym == '/':
            d = degmul(ld, rd, -1)
        elif sym in ('+', '-'):
            if zero(l):
                d = rd
            elif zero(r):
                d = ld
            else:
                d = ld | rd
        else:
            d = ld | rd
        if sym == '*' and ((l.const is not NC and l.const == 0) or (r.const is not NC and r.const == 0)):
            d = D0
        return K('(%s %s %s)' % (a, sym, b), deg=d)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        self.use(v, n, st)
        if v.const is not NC:
            try:
                return kconst({ast.USub: lambda x: -x, ast.Not: lambda x: not x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.const))
            except Exception:
                pass
        sym = {ast.USub: '-', ast.Not: 'not ', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
        return K('(%s%s)' % (sym, v.text), deg=v.deg)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        vs = []
        for x in n.values:
            v = self.ev(x, st)
            self.use(v, n, st)
            if v.const is not NC:
                if bool(v.const) != isand:
                    vs.append(v)
                    if len(vs) == 1:
                        return v
                    break
                if x is n.values[-1]:
                    vs.append(v)
                continue
            vs.append(v)
        if not vs:
            return kconst(isand)
        if len(vs) == 1:
            return vs[0]
        if vs[-1].const is not NC and bool(vs[-1].const) != isand:
            return kconst(not isand)
        return K('(%s)' % ((' and ' if isand else ' or ').join(v.text for v in vs)), deg=vs[-1].deg)

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            for x in [n.left] + n.comparators:
                self.use(self.ev(x, st), n, st)
            return K('(%s)' % ast.unparse(n))
        l, r = self.ev(n.left, st), self.ev(n.comparators[0], st)
        op = n.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and r.const is None:
            isn = None
            if l.const is not NC:
                isn = l.const is None
            elif l.view is not None and l.view[0].startswith('@') or isinstance(l.obj, tuple) and l.obj[0] in ('func', 'class', 'tuple'):
                isn = False
            elif getattr(self.dom, 'weighted_not_none', False) and self.degk(l, st) != D0:
                isn = False
            if isn is not None:
                return kconst(isn == isinstance(op, ast.Is))
        else:
            self.use(l, n, st)
            self.use(r, n, st)
        if l.const is not NC and r.const is not NC:
            try:
                return kconst({'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
                               'is': lambda a, b: a is b, 'is not': lambda a, b: a is not b, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}[_CMP[type(op)]](l.const, r.const))
            except Exception:
                pass
        a, b, s = l.text, r.text, _CMP[type(op)]
        if s in ('>', '>='):
            a, b, s = b, a, {'>': '<', '>=': '<='}[s]
        if s in ('==', '!=') and b < a:
            a, b = b, a
        return K('(%s %s %s)' % (a, s, b))

    def e_IfExp(self, n, st):
        ts = self.assume(n.test, True, st.copy())
        fs = self.assume(n.test, False, st.copy())
        if ts and not fs:
            return self.ev(n.body, st)
        if fs and not ts:
            return self.ev(n.orelse, st)
        a = self.ev(n.body, ts[0])
        b = self.ev(n.orelse, fs[0])
        self.use(a, n, ts[0])
        self.use(b, n, fs[0])
        t = self.ev(n.test, st)
        tt, pos = canon(t.text)
        if not pos:
            a, b = b, a
        return K('ite(%s,%s,%s)' % (tt, a.text, b.text), deg=a.deg | b.deg, view=a.view if a.view == b.view else None, obj=a.obj if a.obj == b.obj else None)

    def e_Call(self, n, st):
        fv = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, st)
            if isinstance(a, ast.Starred):
                if isinstance(v.obj, tuple) and v.obj[0] == 'tuple':
                    args.extend(v.obj[1])
                else:
                    args.append(K('*' + v.text, deg=v.deg, obj=('starred', v)))
            else:
                args.append(v)
        for k in n.keywords:
            kw[k.arg or '**'] = self.ev(k.value, st)
        r = self.dom.on_call(self, n, fv, args, kw, st)
        if r is not None:
            return r
        o = fv.obj
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else '')
        if nm in ('dictx', 'dict', 'Dict') and not (isinstance(o, tuple) and o[0] in ('func', 'method')) and not args:
            rk = K('rec@%d:%d' % (n.lineno, n.col_offset), obj=('rec',))
            for k, v in kw.items():
                st.heap[rk.text + '.' + k] = v
                self.dom.on_attr(self, rk, k, v, n, st)
            return rk
        if nm == '__addr__' and args:
            w = args[0].view        # &x[i, 0] is a pointer to the row x[i]
            if w is not None and w[1] and w[1][-1] == '0':
                w = (w[0], w[1][:-1])
            return K(args[0].text, args[0].const, w, args[0].deg, args[0].obj)
        if nm == '__cast__' and args:
            return args[-1]
        if nm in ('range', 'prange') and not (isinstance(o, tuple) and o[0] in ('func', 'method')):
            for a in args:
                self.use(a, n, st)
            t = [a.text for a in args]
            if len(t) == 1:
                t = ['0', t[0], '1']
            elif len(t) == 2:
                t = t + ['1']
            return K('%s(%s)' % (nm, ','.join(t)), obj=('range', tuple(t[:3])))
        if nm == 'enumerate' and args:
            return K('enumerate(%s)' % args[0].text, obj=('enumerate', args[0]))
        if isinstance(o, tuple):
            f = None
            if o[0] == 'func':
                f, a2 = o[1], args
            elif o[0] == 'method':
                f, a2 = o[1], [o[2]] + args
            elif o[0] == 'class':
                return K('new:%s@%d' % (o[1].name, n.lineno), obj=('inst', o[1]), view=('new:%s@%d' % (o[1].name, n.lineno), ()))
            elif o[0] == 'local' and len(self.frames) < self.max_depth:
                pass
            if f is not None and len(self.frames) < self.max_depth and f not in self.frames and self.dom.follow(f, self):
                return self.call_func(f, a2, kw, n, st)
        if nm in ALLOC:
            return self.alloc(nm, n, args, kw, st)
        if nm in ('fill', 'sort', 'itemset') and isinstance(o, tuple) and o[0] == 'bound' and o[1].view is not None and args:
            self.dom.on_store(self, o[1].view[0], o[1].view[1] + (':',), args[0], None, n, st)
        if nm in MEMW and args and args[0].view is not None:
            self.dom.on_store(self, args[0].view[0], args[0].view[1], K('%s(..)' % nm), None, n, st)
        for a in args + list(kw.values()):
            self.use(a, n, st)
            if isinstance(a.obj, tuple) and a.obj[0] in ('tuple', 'dictlit'):
                for x in a.obj[1]:
                    self.use(x, n, st)
        if isinstance(n.func, ast.Attribute) and not (isinstance(fv.obj, tuple) and fv.obj[0] in ('ext', 'module')):
            bk = fv.obj[1] if isinstance(fv.obj, tuple) and fv.obj[0] == 'bound' else None
            if bk is not None:
                self.use(bk, n, st)
        ds = [self.degk(a, st) for a in args + list(kw.values())]
        if isinstance(fv.obj, tuple) and fv.obj[0] == 'bound':
            ds.insert(0, self.degk(fv.obj[1], st))
        if nm in PRODUCT:
            d = D0
            for x in ds:
                d = degmul(d, x)
        elif nm in LINEAR:
            d = frozenset().union(*ds) if ds else D0
            if len(ds) > 1 and ds[0] != D0:
                d = ds[0]
            elif len(d) > 1:
                d = d - D0 or D0
        else:
            d = D0 if all(x == D0 for x in ds) else frozenset({(99, 99)})
        t = '%s(%s)' % (fv.text, ', '.join([a.text for a in args] + ['%s=%s' % (k, v.text) for k, v in sorted(kw.items())]))
        return K(t, deg=d)

    def alloc(self, nm, n, args, kw, st):
        fill = ALLOC[nm]
        sh = args[0] if args else kw.get('shape')
        shape = None
        if nm.endswith('_like'):
            shape = ['like:' + sh.text] if sh is not None else None
        elif sh is not None:
            shape = [x.text for x in sh.obj[1]] if isinstance(sh.obj, tuple) and sh.obj[0] == 'tuple' else [sh.text]
        root = '@%s:%d:%d' % ('/'.join(f.name for f in self.frames), n.lineno, n.col_offset)
        k = K(root, view=(root, ()))
        self.dom.on_alloc(self, k, shape, fill, n, st)
        return k

    def call_func(self, f, args, kw, n, st):
        env = {}
        names = list(f.params)
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
        for k, v in kw.items():
            if k in f.all_params:
                env[k] = v
        self.frames.append(f)
        self.funcs.add(f.qual)
        for p in f.all_params:
            if p not in env:
                d = f.default_of(p)
                env[p] = self.ev(d, St()) if d is not None else K('?' + p)
        for p in f.all_params:
            if env[p].obj is None:
                ty = self.anntype(f, p)
                if ty is not None:
                    k = env[p]
                    env[p] = K(k.text, k.const, k.view, k.deg, ty)
        sub = st.copy()
        sub.env, sub.ret = env, None
        self.dom.on_enter(self, f, args, sub)
        out = self.block(f.node.body, [sub])
        outs = out.get('return', []) + out.get('next', [])
        for s in out.get('next', []):
            s.ret = kconst(None)
        self.frames.pop()
        self.paths += len(outs)
        if not outs:
            return K('?noreturn')
        if self.asked and self.asked[-1][0] is n:
            truth = self.asked[-1][1]
            outs = [s for s in outs if s.ret is None or not isinstance(s.ret.const, (bool, type(None))) or bool(s.ret.const) == truth]
            if not outs:
                self.asked[-1] = (None, truth)
                return K('?never')
        m = merge(outs)
        st.heap, st.must, st.may = m.heap, m.must, m.may
        st.conds.update(m.conds)
        if m.ret is not None and m.ret.text == 'phi(return)':
            r = m.ret
            m.ret = K('phi(%s)' % ast.unparse(n), r.const, r.view, r.deg, r.obj)
        return m.ret if m.ret is not None else kconst(None)


def refine(have, idx):
    """apply a further subscript to an already subscripted region"""
    have = list(have)
    idx = list(idx)
    for i, h in enumerate(have):
        if not idx:
            break
        if h == ':':
            have[i] = idx.pop(0)
        elif isslice(h):
            x = idx.pop(0)
            have[i] = h if x == ':' else '%s@%s' % (x, h)
    return tuple(have + idx)


def isslice(h):
    """an index text with a colon outside all brackets"""
    d = 0
    for ch in h:
        d += ch in '([{'
        d -= ch in ')]}'
        if ch == ':' and d == 0:
            return not h.startswith('@') and '@' not in h
    return False


def canon(t):
    """canonical condition text and polarity"""
    if t.startswith('(not ') and t.endswith(')'):
        a, p = canon(t[5:-1])
        return a, not p
    for op, pos in ((' != ', ' == '), (' is not ', ' is '), (' not in ', ' in ')):
        i = top(t, op)
        if i >= 0:
            t, q = canon(t[:i] + pos + t[i + len(op):])
            return t, not q
    if t.startswith('(0 == ') and t.endswith(')') and top(t, ' == ') == 2:
        return t[6:-1], False            # a number is true unless it is zero
    return t, True


def top(t, op):
    d = 0
    for i, ch in enumerate(t):
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif d == 1 and t.startswith(op, i) and t.startswith('('):
            return i
    return -1
