"""A small abstract interpreter over the IR.

States are kept disjunctively (one per path) up to a cap, then joined.  Values
carry four facts, none of them a concrete run-time value except literal
constants:

  expr    canonical expression text (global value numbering: locals are
          replaced by what they hold, so renaming or extracting a helper does
          not change it); '?..' when unknown
  labels  provenance: which inputs the value may depend on
  const   literal constant, if known
  obj     structured knowledge: instance of a class, function, tuple, dict ...

Calls to functions of the repository are analysed in place (inlined, bounded
depth); everything else is a label-propagating unknown.  No solver is used.
"""
import ast

from .program import Func, Cls, Module

TOP = type('TOP', (), {'__repr__': lambda s: 'TOP'})()
NOLAB = frozenset()


class V:
    __slots__ = ('expr', 'labels', 'const', 'obj')

    def __init__(self, expr, labels=NOLAB, const=TOP, obj=None):
        self.expr, self.labels, self.const, self.obj = expr, labels, const, obj

    def key(self):
        o = self.obj
        if isinstance(o, tuple) and o and o[0] in ('tuple', 'dict', 'list'):
            o = (o[0], repr_obj(o))
        elif isinstance(o, tuple) and o and o[0] == 'cases':
            o = ('cases', str([(repr(c), sorted(d.items())) for c, d in o[1]]))
        return (self.expr, self.labels, repr(self.const), id(o) if not isinstance(o, (str, tuple, type(None))) else str(o))

    def with_(self, **k):
        v = V(self.expr, self.labels, self.const, self.obj)
        for a, b in k.items():
            setattr(v, a, b)
        return v

    def __repr__(self):
        return 'V(%s|%s)' % (self.expr, ','.join(sorted(self.labels)))


def repr_obj(o):
    if isinstance(o, tuple) and o:
        if o[0] in ('tuple', 'list'):
            return '%s[%s]' % (o[0], ','.join(v.expr for v in o[1]))
        if o[0] == 'dict':
            return 'dict{%s}' % ','.join('%s:%s' % (k, v.expr) for k, v in sorted(o[1].items(), key=lambda t: str(t[0])))
    return str(o)


def joinv(a, b):
    if a is b:
        return a
    if a is None:
        return V('phi', b.labels | {'?undef'} if False else b.labels, TOP, b.obj) if b is not None else None
    if b is None:
        return V('phi', a.labels, TOP, a.obj)
    if a.key() == b.key():
        return a
    expr = a.expr if a.expr == b.expr else 'phi'
    const = a.const if (a.const is not TOP and b.const is not TOP and type(a.const) is type(b.const) and a.const == b.const) else TOP
    obj = None
    if a.obj is b.obj:
        obj = a.obj
    elif isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[:1] == b.obj[:1]:
        k = a.obj[0]
        if k == 'cases':
            return V(expr, a.labels | b.labels, const, None)
        if k == 'tuple' and len(a.obj[1]) == len(b.obj[1]):
            obj = (k, [joinv(x, y) for x, y in zip(a.obj[1], b.obj[1])])
        elif k == 'dict':
            d = {}
            for kk in set(a.obj[1]) | set(b.obj[1]):
                d[kk] = joinv(a.obj[1].get(kk), b.obj[1].get(kk))
            obj = (k, d)
        elif a.obj == b.obj:
            obj = a.obj
    elif a.obj == b.obj:
        obj = a.obj
    elif a.obj is None and a.const is None:      # None | object
        obj = b.obj
    elif b.obj is None and b.const is None:
        obj = a.obj
    return V(expr, a.labels | b.labels, const, obj)


class State:
    __slots__ = ('env', 'heap', 'conds', 'facts', 'ret')

    def __init__(self):
        self.env, self.heap, self.conds, self.facts, self.ret = {}, {}, {}, {}, None

    def copy(self):
        s = State()
        s.env, s.heap, s.conds, s.facts, s.ret = dict(self.env), dict(self.heap), dict(self.conds), dict(self.facts), self.ret
        return s

    def key(self):
        return (tuple(sorted((k, v.key()) for k, v in self.env.items())),
                tuple(sorted((k, v.key()) for k, v in self.heap.items())),
                tuple(sorted(self.conds.items())),
                tuple(sorted((k, repr(v)) for k, v in self.facts.items())),
                self.ret.key() if self.ret is not None else None)


class Frame:
    def __init__(self, func, module, cls, defcls, depth, closure=None):
        self.func, self.module, self.cls, self.defcls, self.depth = func, module, cls, defcls, depth
        self.closure = closure
        self.handlers = []


class Domain:
    cap = 12
    max_depth = 6
    track_exc = False
    attr_types = {}

    def on_call(self, ip, node, fv, args, kw, st): return None
    def on_store_attr(self, ip, node, base, attr, val, st): pass
    def on_store_sub(self, ip, node, base, idx, val, aug, st): pass
    def on_store_name(self, ip, node, name, val, st): pass
    def on_load_attr(self, ip, node, base, attr, st): return None
    def slot(self, ip, base, attr): return attr
    def on_sub(self, ip, node, base, idx, st): return None
    def on_del(self, ip, node, base, what, st): pass
    def on_enter(self, ip, func, st): pass
    def on_return(self, ip, func, node, st): pass
    def on_raise(self, ip, func, node, st): pass
    def on_loop(self, ip, node, itv, st): return None
    def loop_once(self, ip, node, itv, st): return False
    def on_compare(self, ip, node, l, op, r, st): return None
    def mapping(self, ip, v, st): return None
    def on_dict(self, ip, node, v, st): return None
    def on_with(self, ip, node, ctxv, st): pass
    def on_aug(self, ip, node, st): pass
    def on_stmt(self, ip, node, st): pass
    def binop(self, ip, node, l, r, st): return None
    def inline(self, func, ip): return True
    def join_fact(self, k, a, b):
        """a or b may be None when absent on one side.  Default: may-facts (set union)."""
        if a is None: return b
        if b is None: return a
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a | b
        return a if a == b else TOP


class Interp:
    def __init__(self, prog, domain):
        self.prog, self.dom = prog, domain
        self.frames = []
        self.steps = 0
        self.inlined = set()
        self.fresh = 0
        self.exc_exits = []

    @property
    def frame(self): return self.frames[-1]

    # ---------------------------------------------------------- joins
    def join(self, a, b):
        s = State()
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            s.env[k] = joinv(x, y)
        for k in set(a.heap) & set(b.heap):
            s.heap[k] = joinv(a.heap[k], b.heap[k])
        for k in set(a.heap) ^ set(b.heap):
            v = a.heap.get(k) or b.heap.get(k)
            s.heap[k] = joinv(v, V(k, frozenset(['heap:' + k])))
        for k, v in a.conds.items():
            if b.conds.get(k) == v:
                s.conds[k] = v
        for k in set(a.facts) | set(b.facts):
            s.facts[k] = self.dom.join_fact(k, a.facts.get(k), b.facts.get(k))
        s.ret = joinv(a.ret, b.ret) if (a.ret is not None and b.ret is not None) else (a.ret or b.ret)
        return s

    def reduce(self, states, cap=None):
        cap = cap or self.dom.cap
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k); out.append(s)
        if len(out) > cap:
            # first merge states that differ only in path conditions
            byf = {}
            for s in out:
                k = s.key()
                kk = (k[0], k[1], k[3], k[4])
                byf[kk] = self.join(byf[kk], s) if kk in byf else s
            out = list(byf.values())
        if len(out) > cap:
            byf = {}
            for s in out:
                k = s.key()
                byf[k[3]] = self.join(byf[k[3]], s) if k[3] in byf else s
            out = list(byf.values())
        if len(out) > cap:
            r = out[0]
            for s in out[1:]:
                r = self.join(r, s)
            out = [r]
        return out

    def joinall(self, states):
        r = None
        for s in states:
            r = s if r is None else self.join(r, s)
        return r

    # ---------------------------------------------------------- running
    def run(self, func, args, cls=None, st=None, kwargs=None):
        """Analyse func as a root.  args: {param: V}.  Returns dict kind -> states."""
        st = st or State()
        self.frames.append(Frame(func, func.module, cls or func.cls, func.cls, len(self.frames)))
        for p in func.all_params + [x for x in (func.vararg, func.kwarg) if x]:
            if p in args:
                st.env[p] = args[p]
            else:
                st.env[p] = V(p, frozenset(['arg:' + p]))
        self.dom.on_enter(self, func, st)
        out = self.block(func.node.body, [st])
        for s in out.get('next', []):
            s.ret = V('None', NOLAB, None)
            self.dom.on_return(self, func, func.node, s)
        self.frames.pop()
        res = {'return': out.get('return', []) + out.get('next', []), 'raise': out.get('raise', [])}
        return res

    def block(self, stmts, states):
        out = {}
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.steps += 1
                self.note_exc(st)
                self.dom.on_stmt(self, s, st)
                r = self.stmt(s, st)
                for k, v in r.items():
                    if k == 'next':
                        nxt.extend(v)
                    else:
                        out.setdefault(k, []).extend(v)
            cur = self.reduce(nxt) if len(nxt) > 1 else nxt
        if cur:
            self.note_exc_all(cur)
            out['next'] = cur
        for k in out:
            if k != 'next' and len(out[k]) > 1:
                out[k] = self.reduce(out[k])
        return out

    def note_exc(self, st):
        if self.frame.handlers:
            self.frame.handlers[-1].append(st.copy())
    def note_exc_all(self, sts):
        if self.frame.handlers:
            for s in sts:
                self.frame.handlers[-1].append(s.copy())

    # ---------------------------------------------------------- statements
    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return {'next': [st]}
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return {'next': [st]}

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return {'next': [st]}

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s)
        elif isinstance(s.target, ast.Name):
            ty = s.annotation.value if isinstance(s.annotation, ast.Constant) else None
            st.env[s.target.id] = V('undef:' + s.target.id, NOLAB, TOP, ('ctype', ty) if ty else None)
        return {'next': [st]}

    def s_AugAssign(self, s, st):
        rv = self.ev(s.value, st)
        if isinstance(s.target, ast.Name):
            lv = self.ev_load(s.target, st)
            v = self.bin(s, s.op, lv, rv, st)
            self.dom.on_aug(self, s, st)
            if isinstance(lv.obj, tuple) and lv.obj[0] == 'list':
                v = v.with_(obj=lv.obj)
            self.dom.on_store_sub(self, s, lv, None, rv, 'name', st)
            self.assign(s.target, v, st, s)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            lv = self.load_attr(s.target, b, s.target.attr, st)
            v = self.bin(s, s.op, lv, rv, st)
            self.dom.on_store_sub(self, s, lv, None, rv, 'attr', st)
            self.store_attr(s.target, b, s.target.attr, v, st)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            i = self.ev(s.target.slice, st)
            lv = self.load_sub(s.target, b, i, st)
            v = self.bin(s, s.op, lv, rv, st)
            self.store_sub(s.target, b, i, v, True, st)
        return {'next': [st]}

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.dom.on_store_name(self, node, t.id, v, st)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            o = v.obj
            if isinstance(o, tuple) and o[0] in ('tuple', 'list') and len(o[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, o[1]):
                    self.assign(x, y, st, node)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    self.assign(x, V('%s[%d]' % (v.expr, i), v.labels), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.store_attr(t, b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            self.store_sub(t, b, i, v, False, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def clsof(self, v):
        if isinstance(v.obj, tuple) and v.obj and v.obj[0] == 'inst':
            return v.obj[1]
        return None

    def store_attr(self, t, b, attr, v, st):
        self.dom.on_store_attr(self, t, b, attr, v, st)
        c = self.clsof(b)
        if c is not None and self.prog.is_prop(c, attr):
            f = self.prog.lookup(c, attr, 'setter')
            if f is not None and self.can_inline(f):
                self.call_func(f, [b, v], {}, t, st, c)
                return
        pre = b.expr + '.' + self.dom.slot(self, b, attr)
        st.heap[pre] = v
        for k in list(st.heap):
            if k != pre and k.startswith(pre) and k[len(pre)] in '.[':
                del st.heap[k]

    def store_sub(self, t, b, i, v, aug, st):
        self.dom.on_store_sub(self, t, b, i, v, aug, st)
        if isinstance(b.obj, tuple) and b.obj[0] == 'dict' and i.const is not TOP:
            try:
                b.obj[1][i.const] = v
            except TypeError:
                pass

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.dom.on_del(self, t, b, t.attr, st)
                c = self.clsof(b)
                if c is not None and self.prog.is_prop(c, t.attr):
                    f = self.prog.lookup(c, t.attr, 'deleter')
                    if f is not None and self.can_inline(f):
                        self.call_func(f, [b], {}, t, st, c)
                        continue
                st.heap.pop(b.expr + '.' + t.attr, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                self.dom.on_del(self, t, b, i, st)
        return {'next': [st]}

    def s_Pass(self, s, st): return {'next': [st]}
    s_Import = s_Global = s_Nonlocal = s_Pass
    def s_ImportFrom(self, s, st):
        for a in s.names:
            base = self.frame.module._abs(s.module, s.level)
            r = None
            if base.startswith('larch') and self.prog.module_path(base):
                r = self.prog.resolve(self.prog.module(base), a.name)
                if r is None and self.prog.module_path(base + '.' + a.name):
                    r = self.prog.module(base + '.' + a.name)
            st.env[a.asname or a.name] = self.global_value(a.name, r if r is not None else ('ext', base + '.' + a.name))
        return {'next': [st]}
    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = V(a.name, NOLAB, TOP, ('ext', a.name))
            else:
                n = a.name.split('.')[0]
                st.env[n] = V(n, NOLAB, TOP, ('ext', n))
        return {'next': [st]}

    def s_FunctionDef(self, s, st):
        f = Func(self.frame.module, None, s.name, s, 'func')
        st.env[s.name] = V('fn:' + s.name, NOLAB, TOP, ('closure', f, (self.frame, dict(st.env), self.frame.closure)))
        return {'next': [st]}

    def s_ClassDef(self, s, st):
        st.env[s.name] = V('cls:' + s.name)
        return {'next': [st]}

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else V('None', NOLAB, None)
        st.ret = v
        self.dom.on_return(self, self.frame.func, s, st)
        return {'return': [st]}

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.note_exc(st)
        self.dom.on_raise(self, self.frame.func, s, st)
        return {'raise': [st]}

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        r = self.assume(s.test, True, st)
        return {'next': [r]} if r is not None else {'raise': [st]}

    def s_Break(self, s, st): return {'break': [st]}
    def s_Continue(self, s, st): return {'continue': [st]}

    # ---- conditions
    def cond(self, test, st):
        """-> (canonical text, positive?, const or TOP)"""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg = not neg
            test = test.operand
        v = self.ev(test, st)
        e = v.expr
        c = v.const
        if c is not TOP:
            c = bool(c)
        if e.startswith('(') and ' != ' in e and _topop(e, ' != '):
            e = e.replace(' != ', ' == ', 1); neg = not neg; c = (not c) if c is not TOP else TOP
        elif ' is not ' in e and _topop(e, ' is not '):
            e = e.replace(' is not ', ' is ', 1); neg = not neg; c = (not c) if c is not TOP else TOP
        elif ' not in ' in e and _topop(e, ' not in '):
            e = e.replace(' not in ', ' in ', 1); neg = not neg; c = (not c) if c is not TOP else TOP
        return e, not neg, c, v

    def assume(self, test, truth, st):
        """Refine st (in place) or return None when infeasible."""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == truth:
                for x in test.values:
                    st = self.assume(x, truth, st)
                    if st is None:
                        return None
                return st
            # a or b true / a and b false: feasible unless all parts are decided
            rs = [self.assume(x, truth, st.copy()) for x in test.values]
            live = [r for r in rs if r is not None]
            if not live:
                return None
            if len(live) == 1:
                return live[0]
            e = self.ev(test, st).expr
            st.conds[e] = truth
            # what every feasible alternative implies
            common = None
            for r in live:
                items = set(r.conds.items())
                common = items if common is None else common & items
            for k, v in (common or ()):
                st.conds.setdefault(k, v)
            return st
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, st)
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            parts, l = [], test.left
            for o, c in zip(test.ops, test.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [o], [c]), test)); l = c
            return self.assume(ast.copy_location(ast.BoolOp(ast.And(), parts), test), truth, st)
        e, pos, c, v = self.cond(test, st)
        want = truth if pos else (not truth)
        if c is not TOP:
            return st if c == want else None
        if '?' not in e and 'phi' not in e:
            old = st.conds.get(e)
            if old is not None and old != want:
                return None
        st.conds[e] = want
        if isinstance(v.obj, tuple) and v.obj and v.obj[0] == 'cases':
            common = None
            for cst, cc in v.obj[1]:
                if cst is not TOP and bool(cst) != want:
                    continue
                items = set(cc.items())
                common = items if common is None else common & items
            if common is None:
                return None
            for k, x in common:
                if st.conds.get(k, x) != x:
                    return None
                st.conds[k] = x
        if (' and ' in e or ' or ' in e or 'not ' in e):
            if not imply_text(e, want, st.conds):
                return None
        # x is None refinement for locals
        t = test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(t.left, ast.Name) \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and t.left.id in st.env:
            isnone = truth == isinstance(t.ops[0], ast.Is)
            if isnone:
                st.env[t.left.id] = st.env[t.left.id].with_(const=None)
        return self.dom_assume(test, truth, st)

    def dom_assume(self, test, truth, st):
        f = getattr(self.dom, 'assume', None)
        return f(self, test, truth, st) if f else st

    def s_If(self, s, st):
        out = {}
        a = st.copy()
        self.ev(s.test, a)
        a0 = a.copy()
        t = self.assume(s.test, True, a)
        f = self.assume(s.test, False, a0)
        for sub, body in ((t, s.body), (f, s.orelse)):
            if sub is None:
                continue
            r = self.block(body, [sub]) if body else {'next': [sub]}
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        return out

    def s_While(self, s, st):
        out = {}
        cur = [st]
        exits = []
        for it in range(4):
            nb, nx = [], []
            for c in cur:
                a = c.copy()
                self.ev(s.test, a)
                b = a.copy()
                t = self.assume(s.test, True, a)
                f = self.assume(s.test, False, b)
                if t is not None: nb.append(t)
                if f is not None: nx.append(f)
            exits.extend(nx)
            if not nb:
                break
            r = self.block(s.body, self.reduce(nb))
            for k in ('return', 'raise'):
                out.setdefault(k, []).extend(r.get(k, []))
            exits.extend(r.get('break', []))
            back = r.get('next', []) + r.get('continue', [])
            if not back:
                break
            old = self.joinall(cur)
            new = self.join(old, self.joinall(back))
            new.conds = dict(old.conds) if False else new.conds
            if new.key() == old.key():
                break
            cur = [new]
        if s.orelse and exits:
            r = self.block(s.orelse, self.reduce(exits))
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        else:
            out.setdefault('next', []).extend(exits)
        out['next'] = self.reduce(out.get('next', []))
        if not out['next']:
            del out['next']
        return out

    def s_For(self, s, st):
        itv = self.ev(s.iter, st)
        tv = self.dom.on_loop(self, s, itv, st)
        out = {}
        exits = [] if self.dom.loop_once(self, s, itv, st) else [st.copy()]
        cur = st
        seqobj = itv.obj if isinstance(itv.obj, tuple) and itv.obj[0] in ('tuple', 'list') else None
        if seqobj is not None and 0 < len(seqobj[1]) <= 12 and tv is None:
            # literal sequence: unroll
            states, left = [st], []
            for el in seqobj[1]:
                nxt = []
                for c in states:
                    self.assign(s.target, el, c, s)
                    r = self.block(s.body, [c])
                    for k in ('return', 'raise'):
                        if r.get(k):
                            out.setdefault(k, []).extend(r[k])
                    nxt.extend(r.get('next', []) + r.get('continue', []))
                    left.extend(r.get('break', []))
                states = self.reduce(nxt)
                if not states:
                    break
            if states and s.orelse:
                r = self.block(s.orelse, states)
                states = r.pop('next', [])
                for k, v in r.items():
                    out.setdefault(k, []).extend(v)
            if states or left:
                out['next'] = self.reduce(states + left)
            return out
        for it in range(4):
            b = cur.copy()
            ln = getattr(s, 'lineno', 0)
            el = tv if tv is not None else self.elem(itv, s)
            self.assign(s.target, el, b, s)
            r = self.block(s.body, [b])
            for k in ('return', 'raise'):
                if r.get(k):
                    out.setdefault(k, []).extend(r[k])
            back = r.get('next', []) + r.get('continue', [])
            exits.extend(x.copy() for x in r.get('break', []))
            exits.extend(x.copy() for x in back)
            if not back:
                break
            new = self.join(cur, self.joinall(back))
            if new.key() == cur.key():
                break
            cur = new
        exits = self.reduce(exits, max(2, self.dom.cap // 2))
        if s.orelse:
            r = self.block(s.orelse, exits)
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        else:
            out.setdefault('next', []).extend(exits)
        return out

    def elem(self, itv, s):
        o = itv.obj
        if isinstance(o, tuple) and o[0] == 'iter':
            return o[1]
        return V('elem(%s)' % itv.expr, itv.labels, TOP, ('inst', o[1]) if isinstance(o, tuple) and o[0] == 'listof' else None)

    def s_With(self, s, st):
        exprs = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.dom.on_with(self, s, v, st)
            exprs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, V('with(%s)' % v.expr, v.labels, TOP, v.obj), st, s)
        r = self.block(s.body, [st])
        ex = getattr(self.dom, 'on_with_exit', None)
        if ex:
            for k, sts in r.items():
                for x in sts:
                    for v in exprs:
                        ex(self, s, v, x, k)
        return r

    def s_Try(self, s, st):
        out = {}
        self.frame.handlers.append([])
        r = self.block(s.body, [st.copy()])
        raised = self.frame.handlers.pop() + r.pop('raise', [])
        mid = {}
        nxt = r.pop('next', [])
        for k, v in r.items():
            mid.setdefault(k, []).extend(v)
        if s.orelse and nxt:
            r2 = self.block(s.orelse, nxt)
            nxt = r2.pop('next', [])
            for k, v in r2.items():
                mid.setdefault(k, []).extend(v)
        if nxt:
            mid.setdefault('next', []).extend(nxt)
        raised = self.reduce(raised) if raised else []
        if s.handlers:
            catchall = False
            for h in s.handlers:
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')):
                    catchall = True
                hs = []
                for x in raised:
                    y = x.copy()
                    if h.name:
                        y.env[h.name] = V('exc')
                    hs.append(y)
                if hs:
                    if self.dom.track_exc or s.finalbody:
                        self.frame.handlers.append([])
                        r3 = self.block(h.body, hs)
                        self.frame.handlers.pop()
                    else:
                        r3 = self.block(h.body, hs)
                    for k, v in r3.items():
                        mid.setdefault(k, []).extend(v)
            if not catchall and raised and self.dom.track_exc:
                mid.setdefault('raise', []).extend(x.copy() for x in raised)
        elif raised:
            mid.setdefault('raise', []).extend(x.copy() for x in raised)
        if s.finalbody:
            for k, v in mid.items():
                v = self.reduce(v)
                for x in v:
                    ret = x.ret
                    r4 = self.block(s.finalbody, [x])
                    for kk, vv in r4.items():
                        if kk == 'next':
                            for y in vv:
                                y.ret = ret
                            out.setdefault(k, []).extend(vv)
                        else:
                            out.setdefault(kk, []).extend(vv)
        else:
            out = mid
        if out.get('raise'):
            for x in out['raise']:
                self.note_exc(x)
        return out

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            labs = set()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    labs |= self.ev(c, st).labels
            return V('?%s@%d' % (type(n).__name__, getattr(n, 'lineno', 0)), frozenset(labs))
        return m(n, st)

    def e_Constant(self, n, st):
        return V(repr(n.value), NOLAB, n.value)

    def ev_load(self, n, st):
        return self.e_Name(n, st)

    def e_Name(self, n, st):
        nm = n.id
        if nm in st.env and st.env[nm] is not None:
            return st.env[nm]
        fr = self.frame
        cl = fr.closure
        while cl is not None:
            if nm in cl[1]:
                return cl[1][nm]
            cl = cl[2]
        if nm in ('True', 'False', 'None'):
            c = {'True': True, 'False': False, 'None': None}[nm]
            return V(nm, NOLAB, c)
        if nm in self.prog.enum and nm not in fr.module.funcs:
            return V(nm, NOLAB, TOP, ('enum', self.prog.enum[nm]))
        r = self.prog.resolve(fr.module, nm)
        return self.global_value(nm, r)

    def global_value(self, nm, r):
        if isinstance(r, Func):
            return V('fn:' + r.qual, NOLAB, TOP, ('func', r))
        if isinstance(r, Cls):
            return V('cls:' + r.qual, NOLAB, TOP, ('class', r))
        if isinstance(r, Module):
            return V('mod:' + r.name, NOLAB, TOP, ('module', r))
        if isinstance(r, tuple) and r[0] == 'ext':
            return V(r[1], NOLAB, TOP, r)
        if isinstance(r, tuple) and r[0] == 'const':
            if isinstance(r[1], ast.Constant):
                return V(repr(r[1].value), NOLAB, r[1].value)
            if isinstance(r[1], ast.Name) and r[1].id != nm:
                return self.global_value(r[1].id, self.prog.resolve(r[2], r[1].id))
            return V('glob:' + nm, NOLAB, TOP, ('gconst', r[1], r[2]))
        return V(nm, NOLAB, TOP, ('builtin', nm))

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.load_attr(n, b, n.attr, st)

    def load_attr(self, n, b, attr, st):
        r = self.dom.on_load_attr(self, n, b, attr, st)
        if r is not None:
            return r
        k = b.expr + '.' + self.dom.slot(self, b, attr)
        if k in st.heap:
            return st.heap[k]
        o = b.obj
        if isinstance(o, tuple):
            if o[0] == 'module':
                rr = self.prog.resolve(o[1], attr)
                if rr is None and self.prog.module_path(o[1].name + '.' + attr):
                    rr = self.prog.module(o[1].name + '.' + attr)
                return self.global_value(attr, rr)
            if o[0] == 'ext':
                return V(o[1] + '.' + attr, NOLAB, TOP, ('ext', o[1] + '.' + attr))
            if o[0] == 'inst':
                c = o[1]
                if attr.startswith('__') and not attr.endswith('__') and self.frame.defcls is not None and attr in self.frame.defcls.methods:
                    return V(k, b.labels, TOP, ('method', self.frame.defcls.methods[attr], b, c))
                if self.prog.is_prop(c, attr):
                    f = self.prog.lookup(c, attr, 'getter')
                    if f is not None and self.can_inline(f):
                        return self.call_func(f, [b], {}, n, st, c)
                else:
                    f = self.prog.lookup(c, attr)
                    if f is not None:
                        return V(k, b.labels, TOP, ('method', f, b, c))
                ty = self.attr_type(c, attr)
                if ty is not None:
                    return V(k, b.labels, TOP, ('inst', ty))
            if o[0] == 'class':
                f = self.prog.lookup(o[1], attr)
                if f is not None:
                    return V(k, b.labels, TOP, ('unbound', f, o[1]))
            if o[0] == 'super':
                f = self.prog.lookup(o[1], attr, after=o[2])
                if f is not None:
                    return V('super.' + attr, o[3].labels, TOP, ('method', f, o[3], o[1]))
                if any(attr in c.props for c in self.prog.mro(o[1])):
                    g = self.prog.lookup(o[1], attr, 'getter', after=o[2])
                    if g is not None and self.can_inline(g):
                        return self.call_func(g, [o[3]], {}, n, st, o[1])
                return V('super.' + attr, o[3].labels)
        return V(k, b.labels, TOP, ('bound', b, attr))

    def attr_type(self, c, attr):
        t = self.dom.attr_types
        for cc in self.prog.mro(c):
            if (cc.name, attr) in t:
                return t[(cc.name, attr)]
        return t.get(attr)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        return self.load_sub(n, b, i, st)

    def load_sub(self, n, b, i, st):
        r = self.dom.on_sub(self, n, b, i, st)
        if r is not None:
            return r
        o = b.obj
        if isinstance(o, tuple) and o[0] in ('tuple', 'list') and isinstance(i.const, int) and not isinstance(i.const, bool) and -len(o[1]) <= i.const < len(o[1]):
            return o[1][i.const]
        if isinstance(o, tuple) and o[0] == 'dict' and i.const is not TOP:
            try:
                if i.const in o[1]:
                    return o[1][i.const]
            except TypeError:
                pass
        ob = None
        if isinstance(o, tuple) and o[0] == 'listof':
            ob = ('inst', o[1])
        return V('%s[%s]' % (b.expr, i.expr), b.labels | i.labels, TOP, ob)

    def e_Slice(self, n, st):
        parts = [self.ev(x, st) if x is not None else None for x in (n.lower, n.upper, n.step)]
        labs = frozenset().union(*[p.labels for p in parts if p is not None]) if any(parts) else NOLAB
        return V(':'.join(p.expr if p is not None else '' for p in parts), labs, TOP, ('slice', parts))

    def e_Tuple(self, n, st):
        vs, star = [], False
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v.obj, tuple) and v.obj[0] in ('tuple', 'list'):
                    vs.extend(v.obj[1])
                else:
                    star = True; vs.append(v)
            else:
                vs.append(self.ev(x, st))
        labs = frozenset().union(*[v.labels for v in vs]) if vs else NOLAB
        return V('(%s)' % ', '.join(v.expr for v in vs), labs, TOP, None if star else ('tuple', vs))

    def e_List(self, n, st):
        v = self.e_Tuple(n, st)
        return v.with_(expr='[' + v.expr[1:-1] + ']', obj=('list', v.obj[1]) if v.obj else None)
    def e_Set(self, n, st):
        v = self.e_Tuple(n, st)
        return v.with_(expr='{' + v.expr[1:-1] + '}', obj=None)

    def e_Dict(self, n, st):
        d, labs, ok = {}, set(), True
        es = []
        for k, x in zip(n.keys, n.values):
            v = self.ev(x, st)
            labs |= v.labels
            if k is None:
                if isinstance(v.obj, tuple) and v.obj[0] == 'dict':
                    d.update(v.obj[1])
                else:
                    ok = False
                es.append('**' + v.expr)
            else:
                kv = self.ev(k, st)
                labs |= kv.labels
                es.append(kv.expr + ': ' + v.expr)
                if kv.const is not TOP:
                    try:
                        d[kv.const] = v
                    except TypeError:
                        ok = False
                else:
                    d['?' + kv.expr] = v
        v = V('{%s}' % ', '.join(es), frozenset(labs), TOP, ('dict', d))
        return self.dom.on_dict(self, n, v, st) or v

    def bin(self, node, op, l, r, st):
        x = self.dom.binop(self, node, l, r, st)
        if x is not None:
            return x
        c = TOP
        if l.const is not TOP and r.const is not TOP:
            c = _fold(op, l.const, r.const)
        sym = _SYM.get(type(op), '?')
        a, b = l.expr, r.expr
        if sym in ('+', '*', '&', '|', '^') and b < a and not (isinstance(l.const, str) or isinstance(r.const, str)):
            a, b = b, a
        return V('(%s %s %s)' % (a, sym, b) if c is TOP else repr(c), l.labels | r.labels, c)

    def e_BinOp(self, n, st):
        return self.bin(n, n.op, self.ev(n.left, st), self.ev(n.right, st), st)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        c = TOP
        if v.const is not TOP:
            try:
                c = {ast.USub: lambda x: -x, ast.Not: lambda x: not x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.const)
            except TypeError:
                c = TOP
        sym = {ast.USub: '-', ast.Not: 'not ', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
        return V('(%s%s)' % (sym, v.expr) if c is TOP else repr(c), v.labels, c)

    def e_BoolOp(self, n, st):
        saved = None
        vs = []
        isand = isinstance(n.op, ast.And)
        guarded = st
        for i, x in enumerate(n.values):
            if i and any(isinstance(q, ast.Call) for q in ast.walk(x)):
                # later operand only evaluated under the earlier ones
                if saved is None:
                    saved = dict(st.conds)
                sub = st.copy()
                ok = True
                for y in n.values[:i]:
                    sub = self.assume(y, isand, sub)
                    if sub is None:
                        ok = False
                        break
                if ok:
                    conds0 = dict(st.conds)
                    st.conds.update(sub.conds)
                    vs.append(self.ev(x, st))
                    st.conds.clear(); st.conds.update(conds0)
                continue
            vs.append(self.ev(x, st))
        labs = frozenset().union(*[v.labels for v in vs])
        c = TOP
        cs = [v.const for v in vs]
        if all(x is not TOP for x in cs):
            c = cs[0]
            for x in cs[1:]:
                c = (c and x) if isand else (c or x)
        elif isand and any(x is not TOP and not x for x in cs):
            c = False
        elif not isand and any(x is not TOP and x for x in cs):
            c = next(x for x in cs if x is not TOP and x) if cs[0] is not TOP and cs[0] else TOP
            if c is TOP and all((x is TOP) or isinstance(x, bool) for x in cs):
                c = TOP
        ob = None
        objs = [v.obj for v in vs if v.obj is not None]
        if objs and not isand:
            ob = objs[0]
        return V('(' + (' and ' if isand else ' or ').join(v.expr for v in vs) + ')', labs, c, ob)

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        es, labs, c = l.expr, set(l.labels), TOP
        if len(n.ops) == 1:
            r = self.ev(n.comparators[0], st)
            labs |= r.labels
            d = self.dom.on_compare(self, n, l, n.ops[0], r, st)
            if d is not None:
                return d
            if l.const is not TOP and r.const is not TOP:
                c = _cmp(n.ops[0], l.const, r.const)
            elif isinstance(n.ops[0], (ast.Is, ast.IsNot)) and r.const is None and r.const is not TOP and isinstance(l.obj, tuple) \
                    and l.obj[0] in ('inst', 'tuple', 'dict', 'list', 'func', 'class', 'method') and not getattr(l, 'maybe_none', False) and l.obj[0] != 'inst':
                c = isinstance(n.ops[0], ast.IsNot)
            a, b, op = l.expr, r.expr, _CS[type(n.ops[0])]
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if op in ('==', '!=') and b < a:
                a, b = b, a
            return V('(%s %s %s)' % (a, op, b), frozenset(labs), c)
        for o, x in zip(n.ops, n.comparators):
            r = self.ev(x, st)
            labs |= r.labels
            es += ' %s %s' % (_CS[type(o)], r.expr)
        return V('(%s)' % es, frozenset(labs))

    def e_IfExp(self, n, st):
        self.ev(n.test, st)
        a, b = st.copy(), st.copy()
        t, f = self.assume(n.test, True, a), self.assume(n.test, False, b)
        tv = self.ev(n.body, t) if t is not None else None
        fv = self.ev(n.orelse, f) if f is not None else None
        if t is not None and f is not None:
            j = self.join(t, f)
        else:
            j = t if t is not None else f
        if j is not None:
            conds = st.conds
            st.env, st.heap, st.facts = j.env, j.heap, j.facts
        if tv is None and fv is None:
            return V('?ifexp')
        if tv is None: return fv
        if fv is None: return tv
        v = joinv(tv, fv)
        tt = self.ev(n.test, st)
        return v.with_(expr='ite(%s,%s,%s)' % (tt.expr, tv.expr, fv.expr) if v.expr == 'phi' else v.expr, labels=v.labels | tt.labels)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Starred(self, n, st): return self.ev(n.value, st)
    def e_Await(self, n, st): return self.ev(n.value, st)

    def e_JoinedStr(self, n, st):
        labs, es, parts = set(), [], []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                labs |= x.labels
                parts.append(x.const if v.format_spec is None and v.conversion == -1 else TOP)
                es.append('{' + x.expr + '}')
                if v.format_spec is not None:
                    labs |= self.ev(v.format_spec, st).labels
            elif isinstance(v, ast.Constant):
                es.append(str(v.value))
                parts.append(str(v.value))
            else:
                labs |= self.ev(v, st).labels
                parts.append(TOP)
        c = ''.join(parts) if all(isinstance(x, str) for x in parts) else TOP
        return V('f%r' % ''.join(es), frozenset(labs), c)
    def e_FormattedValue(self, n, st): return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is not None:
            return self.ev(n.value, st)
        return V('yield')
    e_YieldFrom = e_Yield

    def e_Lambda(self, n, st):
        fn = ast.FunctionDef('<lambda>', n.args, [ast.copy_location(ast.Return(n.body), n)], [], None)
        ast.copy_location(fn, n)
        f = Func(self.frame.module, None, '<lambda>', fn, 'func')
        return V('lambda@%d' % n.lineno, NOLAB, TOP, ('closure', f, (self.frame, dict(st.env), self.frame.closure)))

    def _comp(self, n, elts, st):
        saved = dict(st.env)
        labs = set()
        its = []
        for g in n.generators:
            itv = self.ev(g.iter, st)
            labs |= itv.labels
            tv = self.dom.on_loop(self, g, itv, st)
            its.append(itv.expr)
            self.assign(g.target, tv if tv is not None else self.elem(itv, n), st, n)
            for c in g.ifs:
                labs |= self.ev(c, st).labels
        vs = [self.ev(e, st) for e in elts]
        for v in vs:
            labs |= v.labels
        # variables of the comprehension do not leak
        for k in list(st.env):
            if k not in saved:
                del st.env[k]
            else:
                st.env[k] = saved[k]
        ifs = [ast.unparse(c) for g in n.generators for c in g.ifs]
        return V('[%s for %s%s]' % (','.join(v.expr for v in vs), ','.join(its), (' if ' + ' if '.join(ifs)) if ifs else ''), frozenset(labs),
                 TOP, ('iter', vs[0]) if len(vs) == 1 else None)
    def e_ListComp(self, n, st): return self._comp(n, [n.elt], st)
    e_SetComp = e_GeneratorExp = e_ListComp
    def e_DictComp(self, n, st):
        v = self._comp(n, [n.key, n.value], st)
        return v.with_(obj=None)

    # ---------------------------------------------------------- calls
    def can_inline(self, f):
        if len(self.frames) > self.dom.max_depth:
            return False
        if sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node) >= 1:
            return False
        return self.dom.inline(f, self)

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            fr = self.frame
            selfname = fr.func.params[0] if fr.func is not None and fr.func.params else 'self'
            sv = st.env.get(selfname, V('self'))
            if fr.defcls is not None:
                cc = fr.cls or fr.defcls
                return V('super', NOLAB, TOP, ('super', cc, fr.defcls, sv))
            return V('super')
        fv = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v.obj, tuple) and v.obj[0] in ('tuple', 'list'):
                    args.extend(v.obj[1])
                else:
                    args.append(v.with_(obj=('starred', v)))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                m = self.dom.mapping(self, v, st)
                if m is not None:
                    for kk, vv in m.items():
                        kw.setdefault(kk, vv)
                elif isinstance(v.obj, tuple) and v.obj[0] == 'dict':
                    for kk, vv in v.obj[1].items():
                        kw.setdefault(kk if isinstance(kk, str) else str(kk), vv)
                    if v.obj[1].get('**'):
                        pass
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call_value(n, fv, args, kw, st)

    def call_value(self, n, fv, args, kw, st):
        if self.frame.handlers:
            self.note_exc(st)
        r = self.dom.on_call(self, n, fv, args, kw, st)
        if r is not None:
            return r
        o = fv.obj
        if isinstance(o, tuple):
            if o[0] == 'func' and self.can_inline(o[1]):
                return self.call_func(o[1], args, kw, n, st, None)
            if o[0] == 'method':
                f = o[1]
                if self.can_inline(f):
                    if f.kind == 'staticmethod':
                        return self.call_func(f, args, kw, n, st, o[3])
                    return self.call_func(f, [o[2]] + args, kw, n, st, o[3])
            if o[0] == 'unbound' and self.can_inline(o[1]):
                if o[1].kind == 'classmethod':
                    return self.call_func(o[1], [V('cls:' + o[2].qual, NOLAB, TOP, ('class', o[2]))] + args, kw, n, st, o[2])
                cc = o[2]
                if args and self.clsof(args[0]) is not None:
                    cc = self.clsof(args[0])
                return self.call_func(o[1], args, kw, n, st, cc)
            if o[0] == 'closure' and self.can_inline(o[1]):
                return self.call_func(o[1], args, kw, n, st, None, closure=o[2])
            if o[0] == 'class':
                f = self.prog.lookup(o[1], '__init__')
                self.fresh += 1
                obj = V('new:%s@%d' % (o[1].name, getattr(n, 'lineno', 0)), frozenset().union(*[a.labels for a in args + list(kw.values())]) if (args or kw) else NOLAB,
                        TOP, ('inst', o[1]))
                if f is not None and self.can_inline(f) and self.dom_inline_init(o[1]):
                    self.call_func(f, [obj] + args, kw, n, st, o[1])
                return obj
        labs = set(fv.labels)
        for a in args:
            labs |= a.labels
        for a in kw.values():
            labs |= a.labels
        ex = '%s(%s)' % (fv.expr, ', '.join([a.expr for a in args] + ['%s=%s' % (k, v.expr) for k, v in sorted(kw.items())]))
        return V(ex, frozenset(labs))

    def dom_inline_init(self, cls):
        return getattr(self.dom, 'inline_init', False)

    def bind(self, f, args, kw, st_env_caller=None):
        env = {}
        pos = list(args)
        names = list(f.params)
        extra = []
        i = 0
        for v in pos:
            if isinstance(v.obj, tuple) and v.obj[0] == 'starred':
                # unknown number: may feed all remaining
                for nm in names[i:]:
                    env.setdefault(nm, V('star(%s)' % v.expr, v.labels))
                if f.vararg:
                    extra.append(v)
                i = len(names)
                continue
            if i < len(names):
                env[names[i]] = v
                i += 1
            else:
                extra.append(v)
        kwd = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names or k in f.kwonly:
                env[k] = v
            else:
                kwd[k] = v
        if '**' in kw:
            v = kw['**']
            for nm in f.all_params:
                if nm not in env:
                    d = f.default_of(nm)
                    if d is not None or nm in f.kwonly:
                        env[nm] = V('kwget(%s,%s)' % (v.expr, nm), v.labels)
        return env, extra, kwd

    def call_func(self, f, args, kw, node, st, cls, closure=None):
        env, extra, kwd = self.bind(f, args, kw)
        missing = [p for p in f.all_params if p not in env]
        caller_env = st.env
        saved_ret, saved_conds = st.ret, dict(st.conds)
        cl = None
        if closure is not None:
            if closure[0] is self.frame:
                cl = (closure[0], caller_env, closure[2])
            else:
                cl = closure
        fr = Frame(f, f.module, cls or f.cls, f.cls, len(self.frames), cl)
        for p in missing:
            d = f.default_of(p)
            if d is not None:
                self.frames.append(fr)
                dst = State()
                env[p] = self.ev(d, dst)
                self.frames.pop()
            else:
                env[p] = V('?missing:' + p)
        if f.vararg:
            env[f.vararg] = V('(%s)' % ', '.join(v.expr for v in extra), frozenset().union(*[v.labels for v in extra]) if extra else NOLAB, TOP,
                              ('tuple', extra) if not any(isinstance(v.obj, tuple) and v.obj[0] == 'starred' for v in extra) else None)
        if f.kwarg:
            labs = frozenset().union(*[v.labels for v in kwd.values()]) if kwd else NOLAB
            if '**' in kw:
                env[f.kwarg] = V(kw['**'].expr, labs | kw['**'].labels)
                if kwd:
                    env[f.kwarg] = env[f.kwarg].with_(obj=('dict', dict(kwd)))
            else:
                env[f.kwarg] = V('{%s}' % ', '.join('%s: %s' % (k, v.expr) for k, v in sorted(kwd.items())), labs, TOP, ('dict', dict(kwd)))
        sub = State()
        sub.env, sub.heap, sub.conds, sub.facts = env, dict(st.heap), dict(st.conds), dict(st.facts)
        self.inlined.add(f.qual)
        self.frames.append(fr)
        self.dom.on_enter(self, f, sub)
        if self.frames[-2].handlers or self.dom.track_exc:
            fr.handlers.append([])
        out = self.block(f.node.body, [sub])
        for s in out.get('next', []):
            s.ret = V('None', NOLAB, None)
            self.dom.on_return(self, f, f.node, s)
        raised = list(out.get('raise', []))
        if fr.handlers:
            raised += fr.handlers.pop()
        self.frames.pop()
        for x in raised:
            y = x.copy()
            y.env, y.ret = caller_env, saved_ret
            if self.frame.handlers:
                self.frame.handlers[-1].append(y.copy())
        outs = out.get('return', []) + out.get('next', [])
        if not outs:
            # never returns normally
            st.facts['__dead__'] = True
            return V('?noreturn')
        j = self.joinall(outs)
        if len(outs) > 1 and j.ret is not None and j.ret.const is TOP and j.ret.obj is None and len(outs) <= 24 \
                and any(o.ret is not None and (o.ret.const is None or isinstance(o.ret.const, bool)) for o in outs):
            cases = []
            for o in outs:
                cc = dict(o.conds)
                rv = o.ret
                if rv is not None and rv.const is TOP and rv.expr.startswith('('):
                    # the returned expression is itself the condition
                    for want in (True, False):
                        c2 = dict(cc)
                        e2, w2 = canon_text(rv.expr, want)
                        c2[e2] = w2
                        imply_text(e2, w2, c2)
                        cases.append((want, c2))
                else:
                    cases.append((rv.const if rv is not None else None, cc))
            j.ret = j.ret.with_(obj=('cases', cases))
        st.heap, st.facts = j.heap, j.facts
        # path conditions that hold on every normal exit of the callee hold afterwards
        st.conds.clear()
        st.conds.update(saved_conds)
        for k, v in j.conds.items():
            st.conds.setdefault(k, v)
        st.ret = saved_ret
        return j.ret if j.ret is not None else V('None', NOLAB, None)


def canon_text(e, want):
    if e.startswith('(') and ' != ' in e and _topop(e, ' != '):
        return e.replace(' != ', ' == ', 1), not want
    if ' is not ' in e and _topop(e, ' is not '):
        return e.replace(' is not ', ' is ', 1), not want
    if ' not in ' in e and _topop(e, ' not in '):
        return e.replace(' not in ', ' in ', 1), not want
    return e, want


def imply_text(e, want, conds, depth=0):
    """Conditions implied by the truth of a canonical boolean text.  False if contradictory."""
    if depth > 6:
        return True
    try:
        t = ast.parse(e.strip(), mode='eval').body
    except (SyntaxError, ValueError, RecursionError):
        return True

    def text(n):
        seg = ast.get_source_segment(e.strip(), n)
        return '(%s)' % seg if isinstance(n, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp)) else seg

    def put(k, w):
        k, w = canon_text(k, w)
        if conds.get(k, w) != w:
            return False
        conds[k] = w
        return imply_text(k, w, conds, depth + 1) if (' and ' in k or ' or ' in k or 'not ' in k) and depth < 6 else True
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return put(text(t.operand), not want)
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == want:
            for x in t.values:
                if not put(text(x), want):
                    return False
    return True


def _topop(e, op):
    depth = 0
    i = 0
    while i < len(e):
        c = e[i]
        if c in '([{': depth += 1
        elif c in ')]}': depth -= 1
        elif depth == 1 and e.startswith(op, i):
            return True
        i += 1
    return False


_SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
        ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
_CS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}


def _fold(op, a, b):
    try:
        if isinstance(op, ast.Add): return a + b
        if isinstance(op, ast.Sub): return a - b
        if isinstance(op, ast.Mult) and isinstance(a, (int, float)) and isinstance(b, (int, float)): return a * b
        if isinstance(op, ast.BitAnd): return a & b
        if isinstance(op, ast.BitOr): return a | b
        if isinstance(op, ast.Mod) and isinstance(a, str): return TOP
    except Exception:
        return TOP
    return TOP


def _cmp(op, a, b):
    try:
        if isinstance(op, ast.Eq): return a == b
        if isinstance(op, ast.NotEq): return a != b
        if isinstance(op, ast.Is): return (a is b) or (a == b and type(a) is type(b))
        if isinstance(op, ast.IsNot): return not ((a is b) or (a == b and type(a) is type(b)))
        if isinstance(op, ast.Lt): return a < b
        if isinstance(op, ast.LtE): return a <= b
        if isinstance(op, ast.Gt): return a > b
        if isinstance(op, ast.GtE): return a >= b
        if isinstance(op, ast.In): return a in b
        if isinstance(op, ast.NotIn): return a not in b
    except Exception:
        return TOP
    return TOP
