"""symbolic execution of code that works through the members of a composite object.

Terms are tuples.  A loop or comprehension over a collection of members is executed once, for a generic
member; what it accumulates becomes a sum over the collection, what it appends a list over it, and what
it does to each member a quantified effect.  `first`/`rest` keep sums exact that start from the first
member and go on with the others.
"""
import ast
import itertools

NONE = ('c', None)


def is_term(x):
    return isinstance(x, tuple)


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    return t


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else ''
    if k == 'c':
        return repr(t[1])
    if k in ('p', 'g'):
        return t[1]
    if k == 'self':
        return 'self'
    if k == 'attr':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'idx':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join([show(x) for x in t[2]] + ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k == 'el':
        return '<member>'
    if k == 'key':
        return '<member key>'
    if k == 'sum':
        return 'sum over %s of %s' % (show(t[1]), show(t[2]))
    if k == 'list':
        return '[%s for %s]' % (show(t[2]), show(t[1]))
    if k == 'dom':
        return '%s members of %s' % (t[2], show(t[1]))
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'slice':
        return ':'.join('' if x == NONE else show(x) for x in t[1:])
    if k == 'tup':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    return '%s<%s>' % (k, ', '.join(show(x) for x in t[1:]))


class Path:
    def __init__(self):
        self.env, self.heap, self.guards, self.effects, self.end = {}, {}, [], [], None
        self.left = {}                                  # what the function called last left in its parameters

    def copy(self):
        p = Path()
        p.env, p.heap, p.guards, p.effects, p.end = dict(self.env), dict(self.heap), list(self.guards), list(self.effects), self.end
        return p

    def truth(self, t):
        for g, v in reversed(self.guards):
            if g == t:
                return v
        return None


class TooMany(Exception):
    pass


class Run:
    """colls: terms of member collections -> 'list' | 'dict'"""
    MAX = 1500
    stamped = {'value': {('attr', ('self',), 'pf'), ('attr', ('self',), '_frame')}}

    @staticmethod
    def sets(effects):
        """how often the composite's own values have been assigned"""
        return sum(1 for e in effects if not e[0] and e[1][:2] == ('call', ('super', 'set_values')))

    def __init__(self, prog, cls, colls, inline=lambda f: True):
        self.prog, self.cls, self.colls, self.inline = prog, cls, colls, inline
        self.ids = itertools.count(1)
        self.frames = []
        self.loops = []
        self.commands = set()                           # lines of calls made for their effect
        self.npaths = 0

    # -------------------------------------------------------------- entry
    def method(self, f, args=None, init=None):
        p = init or Path()
        p.env = {f.params[0]: ('self',)} if f.cls is not None and f.params and f.kind != 'staticmethod' else {}
        for x in f.all_params:
            if x not in p.env:
                p.env[x] = ('p', x)
        if f.vararg:
            p.env[f.vararg] = ('p', '*' + f.vararg)
        if f.kwarg:
            p.env[f.kwarg] = ('p', '**' + f.kwarg)
        p.env.update(args or {})
        self.frames.append(f)
        out = self.block(f.node.body, [p])
        self.frames.pop()
        for q in out:
            if q.end is None:
                q.end = ('return', NONE)
        return out

    # --------------------------------------------------------- statements
    def block(self, stmts, paths):
        for s in stmts:
            nxt = []
            for p in paths:
                if p.end is not None:
                    nxt.append(p)
                else:
                    nxt.extend(self.stmt(s, p))
            if len(nxt) > self.MAX:
                raise TooMany(self.frames[-1].qual)
            paths = nxt
        return paths

    def stmt(self, s, p):
        k = type(s).__name__
        if k == 'Expr':
            if isinstance(s.value, ast.Constant):
                return [p]
            self.commands.add(s.lineno)
            return [q for q, _ in self.ev(s.value, p)]
        if k == 'Assign':
            out = []
            for q, v in self.ev(s.value, p):
                qs = [q]
                for t in s.targets:
                    qs = [r for x in qs for r in self.assign(t, v, x)]
                out.extend(qs)
            return out
        if k == 'AnnAssign':
            return [p] if s.value is None else [r for q, v in self.ev(s.value, p) for r in self.assign(s.target, v, q)]
        if k == 'AugAssign':
            cur = ast.copy_location(ast.fix_missing_locations(self.loadof(s.target)), s)
            out = []
            for q, old in self.ev(cur, p):
                for r, v in self.ev(s.value, q):
                    out.extend(self.assign(s.target, self.bin(type(s.op).__name__, old, v), r))
            return out
        if k == 'Return':
            if s.value is None:
                p.end = ('return', NONE)
                return [p]
            out = []
            for q, v in self.ev(s.value, p):
                if q.end is None:
                    q.end = ('return', v)
                out.append(q)
            return out
        if k == 'Raise':
            p.end = ('raise',)
            return [p]
        if k == 'Assert':
            return [p]
        if k == 'If':
            out = []
            for q, v in self.cond(s.test, p):
                out.extend(self.block(s.body if v else s.orelse, [q]))
            return out
        if k == 'For':
            return self.loop(s, p)
        if k == 'While':
            q = p.copy()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    q.env[n.id] = ('opaque', n.id, next(self.ids))
            return self.block(s.body, [q])
        if k == 'With':
            for i in s.items:
                p = self.ev(i.context_expr, p)[0][0]
            return self.block(s.body, [p])
        if k == 'Try':
            out = []
            body = self.block(s.body, [p.copy()])
            for q in body:
                out.extend(self.block(s.orelse, [q]) if q.end is None and s.orelse else [q])
            for h in s.handlers:
                q = p.copy()
                q.guards.append((('exception', ast.unparse(h.type) if h.type is not None else '', s.lineno), True))
                if h.name:
                    q.env[h.name] = ('opaque', h.name, 0)
                out.extend(self.block(h.body, [q]))
            if s.finalbody:
                fin = []
                for q in out:
                    e, q.end = q.end, None
                    for r in self.block(s.finalbody, [q]):
                        if r.end is None:
                            r.end = e
                        fin.append(r)
                out = fin
            return out
        if k == 'Break':
            p.end = ('break',)
            return [p]
        if k == 'Continue':
            p.end = ('continue',)
            return [p]
        if k in ('Import', 'ImportFrom'):
            for a in s.names:
                p.env[a.asname or a.name.split('.')[0]] = ('g', a.asname or a.name)
            return [p]
        if k == 'FunctionDef':
            p.env[s.name] = ('closure', id(s))
            self.closures = getattr(self, 'closures', {})
            self.closures[id(s)] = s
            return [p]
        if k == 'Delete':
            for t in s.targets:
                if isinstance(t, ast.Name):
                    p.env.pop(t.id, None)
                else:
                    for q, v in self.ev(self.loadof(t), p):
                        q.effects.append((tuple(self.loops), ('del', v), s.lineno))
            return [p]
        return [p]

    @staticmethod
    def loadof(t):
        src = ast.unparse(t)
        return ast.parse(src, mode='eval').body

    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
            return [p]
        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Starred) and (v[0] == 'list' or v in self.colls):
            p = self.assign(t.elts[0], self.index(v, ('c', 0)), p)[0]
            return self.assign(t.elts[1].value, self.index(v, ('slice', ('c', 1), NONE, NONE)), p)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                p = self.assign(e, v[1][i] if v[0] == 'tup' and i < len(v[1]) else ('idx', v, ('c', i)), p)[0]
            return [p]
        if isinstance(t, ast.Attribute):
            for q, b in self.ev(t.value, p)[:1]:
                q.heap[('attr', b, t.attr)] = v
                q.effects.append((tuple(self.loops), ('store', ('attr', b, t.attr), v), t.lineno))
                return [q]
        if isinstance(t, ast.Subscript):
            for q, b in self.ev(t.value, p)[:1]:
                for r, i in self.ev(t.slice, q)[:1]:
                    r.effects.append((tuple(self.loops), ('store', ('idx', b, i), v), t.lineno))
                    if isinstance(t.value, ast.Name) and r.env.get(t.value.id, NONE)[0] == 'dictx' and i[0] == 'c':
                        r.env[t.value.id] = ('dictx', tuple(x for x in b[1] if x[0] != i[1]) + ((i[1], v),))
                    return [r]
        return [p]

    # ---------------------------------------------------------- conditions
    def cond(self, n, p):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(q, not v) for q, v in self.cond(n.operand, p)]
        if isinstance(n, ast.BoolOp):
            stop = isinstance(n.op, ast.Or)
            out, cur = [], [p]
            for x in n.values:
                nxt = []
                for c in cur:
                    for q, v in self.cond(x, c):
                        if v == stop:
                            out.append((q, v))
                        else:
                            nxt.append(q)
                cur = nxt
            return out + [(q, not stop) for q in cur]
        out = []
        for q, t in self.ev(n, p):
            neg = False
            if t[0] == 'cmp' and t[1] in ('isnot', '!=', 'notin'):
                t, neg = ('cmp', {'isnot': 'is', '!=': '==', 'notin': 'in'}[t[1]], t[2], t[3]), True
            v = self.known(t)
            if v is None:
                v = q.truth(t)
            if v is not None:
                out.append((q, v != neg))
                continue
            for b in (True, False):
                r = q.copy()
                r.guards.append((t, b))
                out.append((r, b != neg))
        return out

    def known(self, t):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'bin' and t[1] == 'BitAnd' and any(a[0] == 'bin' and a[1] == 'BitOr' and b in a[2:] for a, b in (t[2:], t[:1:-1])):
            return True                                 # (x | flag) & flag
        if t[0] == 'cmp':
            if t[2][0] == 'c' and t[3][0] == 'c':
                try:
                    return {'is': lambda a, b: a is b or a == b, '==': lambda a, b: a == b}[t[1]](t[2][1], t[3][1])
                except Exception:
                    return None
            if t[1] == 'is' and NONE in t[2:]:
                o = t[2] if t[3] == NONE else t[3]
                if o[0] in ('call', 'list', 'sum', 'tup', 'dictx', 'el', 'self', 'dict') and o[0] != 'call':
                    return False
        return None

    # --------------------------------------------------------------- loops
    def domain(self, it, p):
        """(domain, binder) of an iterable term; binder gives the loop target for a member id"""
        n = next(self.ids)
        el, key = ('el', n), ('key', n)

        def full(c):
            return ('dom', c, 'all')
        if it in self.colls:
            return full(it), el if self.colls[it] == 'list' else key, n
        if it[0] == 'slice-of' and it[1] in self.colls:
            return ('dom', it[1], it[2]), el, n
        if it[0] == 'call' and it[1][0] == 'attr' and it[1][1] in self.colls and not it[2]:
            c = it[1][1]
            if it[1][2] == 'values':
                return full(c), el, n
            if it[1][2] == 'keys':
                return full(c), key, n
            if it[1][2] == 'items':
                return full(c), ('tup', (key, el)), n
        if it[0] == 'call' and it[1][0] == 'g' and len(it[2]) >= 1:
            f = it[1][1]
            if f in ('list', 'tuple', 'sorted', 'reversed', 'set', 'iter', 'tqdm'):
                return self.domain(it[2][0], p)
            if f == 'enumerate':
                d, b, n = self.domain(it[2][0], p)
                return d, ('tup', (('pos', n), b)), n
            if f == 'zip':
                ds = [self.domain(x, p) for x in it[2]]
                if all(d[0] == ds[0][0] for d in ds) and ds[0][0][0] == 'dom':
                    m = ds[0][2]
                    bs = [subst(b, {('el', k): ('el', m), ('key', k): ('key', m), ('pos', k): ('pos', m)}) for _, b, k in ds]
                    return ds[0][0], ('tup', tuple(bs)), m
            if f == 'range' and len(it[2]) == 1 and it[2][0][0] == 'call' and it[2][0][1] == ('g', 'len') and it[2][0][2][0] in self.colls:
                return full(it[2][0][2][0]), ('pos', n), n
            if f == 'range' and len(it[2]) in (1, 2) and it[2][-1][0] == 'call' and it[2][-1][1] == ('g', 'len') and it[2][0] in (it[2][-1], ('c', 0), ('c', 1)):
                x = it[2][-1][2][0]
                d = full(x) if x in self.colls else x[1] if x[0] == 'list' else None
                if d is not None and d[0] == 'dom' and (d[2] == 'all' or it[2][0] != ('c', 1)):
                    return ('dom', d[1], 'rest') if it[2][0] == ('c', 1) else d, ('pos', n), n
        if it[0] == 'list':
            d, m, t = it[1], it[3], it[2]
            return d, subst(t, {('el', m): el, ('key', m): key, ('pos', m): ('pos', n)}), n
        if it[0] == 'slice-of' and it[1][0] == 'list' and it[1][1][2] == 'all':
            d, t, m = it[1][1], it[1][2], it[1][3]
            return ('dom', d[1], it[2]), subst(t, {('el', m): el, ('key', m): key, ('pos', m): ('pos', n)}), n
        return ('over', it), ('item', it, n), n

    def loop(self, s, p):
        out = []
        for q, it in self.ev(s.iter, p):
            out.extend(self.loop1(s, it, q))
        return out

    def loop1(self, s, it, p):
        if it[0] == 'tup':
            paths = [p]
            for x in it[1]:
                paths = [r for q in paths for r in (self.block(s.body, self.assign(s.target, x, q)) if q.end is None else [q])]
            return self.block(s.orelse, paths) if s.orelse else paths
        if it[0] == 'concat':
            paths = [p]
            for x in it[1]:
                nxt = []
                for q in paths:
                    if q.end is not None:
                        nxt.append(q)
                    elif x[0] == 'star':
                        nxt.extend(self.loop1(s, x[1], q))
                    else:
                        nxt.extend(r for z in self.assign(s.target, x, q) for r in self.block(s.body, [z]))
                for q in nxt:
                    if q.end is not None and q.end[0] == 'continue':
                        q.end = None
                paths = nxt
            for q in paths:
                if q.end is not None and q.end[0] == 'break':
                    q.end = None
            return paths
        dom, binder, n = self.domain(it, p)
        assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        # containers grown in the loop
        grown = {c.func.value.id for b in s.body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend', 'add', 'update', 'insert') and isinstance(c.func.value, ast.Name) and c.func.value.id in p.env and p.env[c.func.value.id][0] in ('tup', 'list', 'concat', 'call')}
        assigned |= {x for b in s.body for c in ast.walk(b) if isinstance(c, ast.Call) for x in self.augmented(c, p).values()}
        assigned |= {k.value.id for b in s.body for c in ast.walk(b) if isinstance(c, ast.Call) for k in c.keywords if k.arg == 'out' and isinstance(k.value, ast.Name)}
        base = p.copy()
        body = p.copy()
        for v in assigned | grown:
            if v in p.env:
                body.env[v] = ('acc', v, n)
        qs = self.assign(s.target, binder, body)
        k0, g0 = len(p.effects), len(p.guards)
        self.loops.append((dom, n))
        ends = [r for q in qs for r in self.block(s.body, [q])]
        self.loops.pop()
        live = [r for r in ends if r.end is None or r.end[0] == 'continue']
        stops = [r for r in ends if r.end is not None and r.end[0] in ('break', 'return')]
        res = base.copy()
        if stops and dom[0] == 'dom':
            dom2 = ('dom', dom[1], 'some')
        else:
            dom2 = dom
        # effects: on every path -> for every member; on some paths -> with the guards that decide it
        order = []
        for r in live + stops:
            for e in r.effects[k0:]:
                if e[:2] not in [x[:2] for x in order]:
                    order.append(e)
        for e in order:
            rs = [r for r in live + stops if any(x[:2] == e[:2] for x in r.effects[k0:])]
            loops = tuple((dom2, m) if m == n else (d, m) for d, m in e[0])
            gs = e[3] if len(e) > 3 else ()
            if len(rs) < len(live) + len(stops):
                loops = tuple((('dom', d[1], 'when'), m) if m == n and d[0] == 'dom' and d[2] == 'all' else (d, m) for d, m in loops)
                gs = gs + (tuple(tuple(r.guards[g0:]) for r in rs),)
            res.effects.append((loops, e[1], e[2], gs))
        for h in {h for r in live for h in r.heap if r.heap.get(h) != p.heap.get(h)}:
            res.heap[h] = ('opaque', 'heap', next(self.ids))
        for v in assigned | grown:
            vals = [(r.guards[g0:], r.env.get(v)) for r in live + [r for r in stops if r.end[0] == 'break']]
            res.env[v] = self.combine(v, n, dom2, p.env.get(v), vals)
        outs = [res]
        if any(r.end[0] == 'return' for r in stops):
            r0 = [r for r in stops if r.end[0] == 'return'][0]
            q = res.copy()
            q.end = ('return', ('opaque', 'early return', r0.end[1]))
            q.guards.append((('early', n), True))
            outs.append(q)
        return outs

    def combine(self, v, n, dom, v0, vals):
        acc = ('acc', v, n)
        if not vals:
            return v0 if v0 is not None else ('opaque', v, n)
        distinct = []
        for g, t in vals:
            if t not in [x for _, x in distinct]:
                distinct.append((g, t))
        # started on the first round
        if len(distinct) == 2 and v0 == NONE:
            isn = ('cmp', 'is', acc, NONE)
            a = [t for g, t in distinct if (isn, True) in g]
            b = [t for g, t in distinct if (isn, False) in g]
            if len(a) == 1 and len(b) == 1:
                k, t = self.added(b[0], acc)
                if k and t == a[0] and not has(t, acc):
                    return ('sum', dom, t, k, n)
        if len(distinct) == 1:
            t = distinct[0][1]
            if t is None:
                return ('opaque', v, n)
            if t == acc:
                return v0
            k, x = self.added(t, acc)
            if k and not has(x, acc) and v0 is not None:
                return self.plus(v0, ('sum', dom, x, k, n))
            if t[0] == 'bool' and t[1] == 'Or' and acc in t[2] and v0 is not None:
                rest = tuple(x for x in t[2] if x != acc)
                x = rest[0] if len(rest) == 1 else ('bool', 'Or', rest)
                if not has(x, acc):
                    c = -1 - len(self.loops)
                    x = subst(x, {('el', n): ('el', c), ('key', n): ('key', c), ('pos', n): ('pos', c)})
                    return ('bool', 'Or', (v0, ('call', ('g', 'any'), (('list', dom, x, c),), ())))
            if t[0] == 'appended' and t[1] == acc and not has(t[2], acc):
                if v0 == ('tup', ()) or v0 == ('call', ('g', 'list'), (), ()):
                    return ('list', dom, t[2], n)
            if not has(t, acc):
                if not (has(t, ('el', n)) or has(t, ('key', n)) or has(t, ('pos', n))):
                    return t if v0 is None or t == v0 else ('either', v0, t)
                return ('last', dom, t, n)
        return ('opaque', v, n)

    @staticmethod
    def added(t, acc):
        if t[0] == 'bin' and t[1] == 'Add':
            if t[2] == acc:
                return 'plain', t[3]
            if t[3] == acc:
                return 'plain', t[2]
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'add' and t[1][1] == acc and len(t[2]) == 1:
            return ('fill' if t[3] == (('fill_value', ('c', 0)),) or t[3] == (('fill_value', ('c', 0.0)),) else 'plain'), t[2][0]
        if t[0] == 'bin' and t[1] == 'Add' and t[2][0] == 'bin':      # acc + a + b
            k, x = Run.added(t[2], acc)
            if k:
                return k, ('bin', 'Add', x, t[3])
        if t[0] == 'bin' and t[1] == 'Add' and t[2][0] == 'call':
            pass
        return None, None

    def plus(self, v0, s):
        """initial value plus a sum"""
        dom, t, k, n = s[1:]
        if v0[0] == 'sum' and v0[1] == s[1] and v0[3] == k:
            return ('sum', dom, ('bin', 'Add', subst(v0[2], {('el', v0[4]): ('el', n), ('key', v0[4]): ('key', n), ('pos', v0[4]): ('pos', n)}), t), k, n)
        if v0 in (('c', 0), ('c', 0.0)) or v0[0] == 'zeros':
            return s
        if dom[0] == 'dom' and dom[2] == 'rest' and v0 == subst(t, {('el', n): ('first', dom[1]), ('key', n): ('firstkey', dom[1])}):
            return ('sum', ('dom', dom[1], 'all'), t, k, n)
        return ('bin', 'Add', v0, s)

    # --------------------------------------------------------- expressions
    def ev(self, n, p):
        """[(path, term)]"""
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is not None:
            return m(n, p)
        return [(p, ('opaque', ast.unparse(n), 0))]

    def many(self, ns, p):
        out = [(p, ())]
        for x in ns:
            out = [(r, vs + (v,)) for q, vs in out for r, v in self.ev(x, q)]
        return out

    def e_Constant(self, n, p):
        return [(p, ('c', n.value))]

    def e_Name(self, n, p):
        return [(p, p.env.get(n.id, ('g', n.id)))]

    def e_Attribute(self, n, p):
        out = []
        for q, b in self.ev(n.value, p):
            t = ('attr', b, n.attr)
            if t in q.heap:
                out.append((q, q.heap[t]))
                continue
            if b[0] == 'dictx':
                d = dict(b[1])
                if n.attr in d:
                    out.append((q, d[n.attr]))
                    continue
            if b == ('self',) and self.cls is not None and self.prog.is_prop(self.cls, n.attr):
                g = self.prog.lookup(self.cls, n.attr, 'getter')
                if g is not None and g.cls is self.cls and self.inline(g) and len(self.frames) < 6:
                    out.extend(self.call(g, (), (), q, ('self',)))
                    continue
            if n.attr in self.stamped and b in self.stamped[n.attr]:
                t = ('as-of', t, self.sets(q.effects))
            out.append((q, t))
        return out

    def e_Subscript(self, n, p):
        out = []
        for q, b in self.ev(n.value, p):
            for r, i in self.ev(n.slice, q):
                c = b[1] if b[0] == 'attr' and b[2] == 'loc' and i[0] == 'tup' and len(i[1]) == 2 and i[1][0] == ('slice', NONE, NONE, NONE) else b
                j = i[1][1] if c is not b else i
                if j[0] == 'c' and isinstance(j[1], str) and c in self.stamped.get(j[1], ()):
                    out.append((r, ('as-of', ('attr', c, j[1]), self.sets(r.effects))))
                else:
                    out.append((r, self.index(b, i)))
        return out

    def index(self, b, i):
        lst = b in self.colls and self.colls[b] == 'list' or b[0] == 'list'
        if lst and i[0] == 'slice':
            if i[1] in (NONE, ('c', 0)) and i[2] == NONE and i[3] in (NONE, ('c', 1)):
                return b
            if i[1] == ('c', 1) and i[2] == NONE and i[3] in (NONE, ('c', 1)):
                return ('slice-of', b, 'rest')
            return ('slice-of', b, 'some')
        if lst and i == ('c', 0):
            if b in self.colls:
                return ('first', b)
            d = b[1]
            if d[0] == 'dom' and d[2] == 'all':
                return subst(b[2], {('el', b[3]): ('first', d[1]), ('key', b[3]): ('firstkey', d[1])})
        if i[0] == 'pos' and b in self.colls and self.colls[b] == 'list':
            return ('el', i[1])
        if i[0] == 'pos' and b[0] == 'list':
            return subst(b[2], {('el', b[3]): ('el', i[1]), ('key', b[3]): ('key', i[1])})
        if i[0] == 'key' and b in self.colls:
            return ('el', i[1])
        if b[0] == 'dictx' and i[0] == 'c':
            d = dict(b[1])
            if i[1] in d:
                return d[i[1]]
        if i[0] == 'c' and isinstance(i[1], str):
            return ('attr', b, i[1]) if b[0] == 'call' else ('idx', b, i)
        if b[0] == 'tup' and i[0] == 'c' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
            return b[1][i[1]]
        return ('idx', b, i)

    def e_Slice(self, n, p):
        out = [(p, ())]
        for x in (n.lower, n.upper, n.step):
            out = [(r, vs + (v,)) for q, vs in out for r, v in ([(q, NONE)] if x is None else self.ev(x, q))]
        return [(q, ('slice',) + v) for q, v in out]

    def e_Tuple(self, n, p):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(q, ('concat', vs)) for q, vs in self.many(n.elts, p)]
        return [(q, ('tup', vs)) for q, vs in self.many(n.elts, p)]
    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, n, p):
        if any(k is None for k in n.keys):
            return [(p, ('opaque', ast.unparse(n), 0))]
        return [(r, ('dict', tuple(zip(ks, vs)))) for q, ks in self.many(n.keys, p) for r, vs in self.many(n.values, q)]

    def e_UnaryOp(self, n, p):
        out = []
        for q, v in self.ev(n.operand, p):
            if isinstance(n.op, ast.USub) and v[0] == 'c' and isinstance(v[1], (int, float)):
                out.append((q, ('c', -v[1])))
            else:
                out.append((q, ('un', type(n.op).__name__, v)))
        return out

    def pieces(self, t):
        """a collection as a part of a longer one"""
        if t[0] == 'tup':
            return t[1]
        if t[0] == 'concat':
            return t[1]
        if t in self.colls or t[0] == 'list' or self.values(t) is not None:
            return (('star', t),)
        return None

    def values(self, t):
        """the collection whose members this view gives"""
        return t[1][1] if t[0] == 'call' and t[1][0] == 'attr' and t[1][1] in self.colls and t[1][2] == 'values' and not t[2] else None

    def bin(self, op, a, b):
        if op == 'Add' and a[0] in ('tup', 'concat', 'list', 'call') and b[0] in ('tup', 'concat', 'list', 'call'):
            x, y = self.pieces(a), self.pieces(b)
            if x is not None and y is not None:
                return ('concat', x + y) if any(z[0] == 'star' for z in x + y) else ('tup', x + y)
        if op == 'Add':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'sum' and x[0] != 'acc':
                    r = self.plus(x, y)
                    if r[0] == 'sum':
                        return r
            if a in (('c', 0), ('c', 0.0)):
                return b
            if b in (('c', 0), ('c', 0.0)):
                return a
        return ('bin', op, a, b)

    def e_BinOp(self, n, p):
        return [(r, self.bin(type(n.op).__name__, a, b)) for q, a in self.ev(n.left, p) for r, b in self.ev(n.right, q)]

    def e_BoolOp(self, n, p):
        return [(q, ('bool', type(n.op).__name__, vs)) for q, vs in self.many(n.values, p)]

    def e_Compare(self, n, p):
        ops = {'Is': 'is', 'IsNot': 'isnot', 'Eq': '==', 'NotEq': '!=', 'In': 'in', 'NotIn': 'notin', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}
        if len(n.ops) == 1:
            return [(r, ('cmp', ops[type(n.ops[0]).__name__], a, b)) for q, a in self.ev(n.left, p) for r, b in self.ev(n.comparators[0], q)]
        return [(p, ('opaque', ast.unparse(n), 0))]

    def e_IfExp(self, n, p):
        return [x for q, v in self.cond(n.test, p) for x in self.ev(n.body if v else n.orelse, q)]

    def e_JoinedStr(self, n, p):
        return [(p, ('text', ast.unparse(n)))]

    def e_Starred(self, n, p):
        return [(q, ('star', v)) for q, v in self.ev(n.value, p)]

    def e_NamedExpr(self, n, p):
        return [(self.assign(n.target, v, q)[0], v) for q, v in self.ev(n.value, p)]

    def e_Lambda(self, n, p):
        return [(p, ('lambda', id(n)))]

    def comp(self, n, elts, p):
        if len(n.generators) != 1:
            return [(p, ('opaque', ast.unparse(n), next(self.ids)))]
        g = n.generators[0]
        out = []
        for q, it in self.ev(g.iter, p):
            if it[0] == 'tup' and not g.ifs:
                vals = []
                for x in it[1]:
                    r = self.assign(g.target, x, q.copy())[0]
                    vals.append(self.ev(elts, r)[0][1])
                out.append((q, ('tup', tuple(vals))))
                continue
            if it[0] == 'concat' and not g.ifs:
                vals = []
                for x in it[1]:
                    r = q.copy()
                    if x[0] == 'star':
                        r.env[' part'] = x[1]
                        g2 = ast.GeneratorExp(elts, [ast.comprehension(g.target, ast.Name(' part', ast.Load()), [], 0)])
                        r, t = self.comp(ast.fix_missing_locations(ast.copy_location(g2, n)), elts, r)[0]
                        vals.append(('star', t))
                    else:
                        r, t = self.ev(elts, self.assign(g.target, x, r)[0])[0]
                        vals.append(t)
                    r.env = dict(q.env)
                    q = r
                out.append((q, ('concat', tuple(vals))))
                continue
            dom, binder, m = self.domain(it, q)
            if g.ifs and dom[0] == 'dom':
                dom = ('dom', dom[1], 'some')
            elif g.ifs:
                dom = ('over', ('filtered', dom[1], ast.unparse(g.ifs[0])))
            saved = dict(q.env)
            r = self.assign(g.target, binder, q)[0]
            self.loops.append((dom, m))
            res = self.ev(elts, r)
            self.loops.pop()
            r2, v = res[0]
            if len(res) > 1:
                v = ('cond', tuple(x for _, x in res))
            r2.env = dict(saved)
            if len(res) > 1:
                r2.guards = r2.guards[:len(p.guards)]
            c = -1 - len(self.loops)                # the same name for the generic member wherever the same list is built
            v = subst(v, {('el', m): ('el', c), ('key', m): ('key', c), ('pos', m): ('pos', c)})
            for i, e in enumerate(r2.effects):
                if any(l[1] == m for l in e[0]):
                    r2.effects[i] = (tuple((d, c if x == m else x) for d, x in e[0]), subst(e[1], {('el', m): ('el', c), ('key', m): ('key', c), ('pos', m): ('pos', c)})) + e[2:]
            out.append((r2, ('list', dom, v, c)))
        return out

    def e_ListComp(self, n, p):
        return self.comp(n, n.elt, p)
    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, p):
        return self.comp(n, ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n), p)

    def e_Call(self, n, p):
        out = []
        for q, fv in self.callee(n.func, p):
            args = [(q, (), ())]
            for a in n.args:
                args = [(r, vs + (v,), kw) for x, vs, kw in args for r, v in self.ev(a, x)]
            for k in n.keywords:
                args = [(r, vs, kw + ((k.arg or '**', v),)) for x, vs, kw in args for r, v in self.ev(k.value, x)]
            for r, vs, kw in args:
                back = self.augmented(n, r)
                for z, v in self.apply(n, fv, vs, tuple(sorted(kw, key=str)), r):
                    for a, name in back.items():
                        if a in z.left:
                            z.env[name] = z.left[a]
                    out.append((z, v))
        return out

    def augmented(self, c, p):
        """names of the caller which the called function adds to in place: {its parameter: name}"""
        f = c.func
        g = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and p.env.get(f.value.id) == ('self',) and self.cls is not None:
            g = self.prog.lookup(self.cls, f.attr)
            skip = 1
        elif isinstance(f, ast.Name) and f.id not in p.env:
            g = self.function(f.id)
            skip = 0
        if g is None or not hasattr(g, 'all_params') or not self.inline(g):
            return {}
        if g.kind == 'staticmethod':
            skip = 0
        aug = {x.target.id for x in ast.walk(g.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        pairs = list(zip(list(g.params)[skip:], c.args)) + [(k.arg, k.value) for k in c.keywords]
        return {a: v.id for a, v in pairs if a in aug and isinstance(v, ast.Name) and p.env.get(v.id, NONE)[0] in ('zeros', 'acc', 'sum', 'bin')}

    def callee(self, f, p):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return [(p, ('super', f.attr))]
        return self.ev(f, p)

    def apply(self, n, fv, vs, kw, p):
        if fv[0] == 'attr' and fv[1][0] == 'g' and fv[2] in ('sum', 'fsum') and len(vs) == 1 and not kw and vs[0][0] in ('list', 'slice-of'):
            fv = ('g', 'sum')
        if fv[0] == 'attr' and fv[1][0] == 'g' and fv[2] in ('add', 'multiply') and len(vs) == 2 and all(k == 'out' for k, _ in kw):
            t = self.bin('Add' if fv[2] == 'add' else 'Mult', *vs)
            for k in n.keywords:
                p = self.assign(k.value, t, p)[0]
            return [(p, t)]
        if fv == ('g', 'slice') and vs and not kw:
            vs = (NONE,) + vs if len(vs) == 1 else vs
            return [(p, ('slice',) + vs + (NONE,) * (3 - len(vs)))]
        if fv == ('g', 'map') and len(vs) == 2:
            r = self.mapped(n, vs, p)
            if r is not None:
                return [r]
        if fv[0] == 'g':
            f = fv[1]
            if f == 'sum' and vs:
                x = vs[0]
                if x[0] == 'list':
                    return [(p, self.bin('Add', vs[1] if len(vs) > 1 else ('c', 0), ('sum', x[1], x[2], 'plain', x[3])))]
                if x[0] == 'slice-of':
                    d, b, m = self.domain(x, p)
                    return [(p, self.bin('Add', vs[1] if len(vs) > 1 else ('c', 0), ('sum', d, b, 'plain', m)))]
            if f in ('list', 'tuple') and len(vs) == 1 and (vs[0][0] == 'concat' or self.values(vs[0]) is not None or vs[0] in self.colls and self.colls[vs[0]] == 'list' or vs[0][0] in ('list', 'slice-of', 'tup')):
                return [(p, vs[0])]
            if f == 'dictx' and not vs:
                return [(p, ('dictx', kw))]
            if f == 'reduce' and len(vs) >= 2 and vs[0][0] == 'lambda':
                r = self.reduce(n, vs, p)
                if r is not None:
                    return [(p, r)]
            g = self.function(f)
            if g is not None and self.inline(g) and len(self.frames) < 6:
                return self.call(g, vs, kw, p, None)
        if fv[0] == 'attr' and fv[2] in ('zeros', 'zeros_like') and fv[1][0] == 'g':
            return [(p, ('zeros', vs))]
        if fv[0] == 'attr' and fv[2] in ('append',) and len(vs) == 1 and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in p.env:
            b = fv[1]
            if b[0] in ('acc', 'appended'):
                p.env[n.func.value.id] = ('appended', b, vs[0])
                return [(p, NONE)]
            if b[0] == 'tup':
                p.env[n.func.value.id] = ('tup', b[1] + (vs[0],))
                return [(p, NONE)]
        if fv[0] == 'attr' and fv[2] == 'add' and fv[1][0] == 'sum' and len(vs) == 1:
            pass
        if fv[0] == 'closure':
            s = self.closures[fv[1]]
            return self.inline_node(s, vs, kw, p)
        if fv[0] == 'attr' and fv[1] == ('self',) and self.cls is not None:
            name = fv[2]
            g = self.prog.lookup(self.cls, name)
            if g is not None and hasattr(g, 'all_params') and g.cls is not None and g.cls.module is self.cls.module and self.inline(g) and len(self.frames) < 6:
                return self.call(g, vs, kw, p, ('self',))
        t = ('call', fv, vs, kw)
        if fv[0] == 'attr' and fv[2] in ('copy', 'asarray', 'asanyarray') and (fv[2] == 'copy' and not vs or vs):
            t2 = fv[1] if fv[2] == 'copy' else vs[0]
            return [(p, t2)]
        p.effects.append((tuple(self.loops), t, n.lineno))
        return [(p, t)]

    def mapped(self, n, vs, p):
        f = n.args[0]
        if isinstance(f, ast.Lambda) and len(f.args.args) == 1:
            g = ast.GeneratorExp(f.body, [ast.comprehension(ast.Name(f.args.args[0].arg, ast.Store()), n.args[1], [], 0)])
        elif isinstance(f, (ast.Name, ast.Attribute)):
            g = ast.GeneratorExp(ast.Call(f, [ast.Name('item ', ast.Load())], []), [ast.comprehension(ast.Name('item ', ast.Store()), n.args[1], [], 0)])
        else:
            return None
        return self.comp(ast.fix_missing_locations(ast.copy_location(g, n)), g.elt, p)[0]

    def reduce(self, n, vs, p):
        lam = n.args[0]
        if not isinstance(lam, ast.Lambda) or len(lam.args.args) != 2:
            return None
        a, b = [x.arg for x in lam.args.args]
        d, el, m = self.domain(vs[1], p)
        q = p.copy()
        q.env[a], q.env[b] = ('acc', a, m), el
        t = self.ev(lam.body, q)[0][1]
        k, x = self.added(t, ('acc', a, m))
        if not k:
            return None
        s = ('sum', d, x, k, m)
        return self.plus(vs[2], s) if len(vs) > 2 else s if x == el else None

    def function(self, name):
        try:
            g = self.prog.resolve(self.frames[-1].module, name)
        except Exception:
            return None
        return g if hasattr(g, 'all_params') and g.module is self.frames[-1].module else None

    def inline_node(self, s, vs, kw, p):
        q = p.copy()
        names = [a.arg for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs]
        for x, v in zip(names, vs):
            q.env[x] = v
        for k, v in kw:
            q.env[k] = v
        outs = []
        for r in self.block(s.body, [q]):
            v = r.end[1] if r.end is not None and r.end[0] == 'return' else NONE
            r2 = r.copy()
            r2.env = dict(p.env)
            r2.end = None if r.end is None or r.end[0] == 'return' else r.end
            outs.append((r2, v))
        return outs

    def call(self, g, vs, kw, p, selfterm):
        env = {}
        ps = list(g.params)
        if selfterm is not None and ps and g.kind != 'staticmethod':
            env[ps[0]] = selfterm
            ps = ps[1:]
        if any(v[0] == 'star' for v in vs):
            if g.vararg and not ps:
                env[g.vararg] = ('concat', tuple(vs))
                vs = ()
            else:
                t = ('call', ('g', g.name), vs, kw)
                p.effects.append((tuple(self.loops), t, 0))
                return [(p, t)]
        for x, v in zip(ps, vs):
            env[x] = v
        if g.vararg:
            env.setdefault(g.vararg, ('tup', tuple(vs[len(ps):])))
        rest = []
        for k, v in kw:
            if k in g.all_params:
                env[k] = v
            else:
                rest.append((k, v))
        if g.kwarg:
            env[g.kwarg] = rest[0][1] if len(rest) == 1 and rest[0][0] == '**' else ('dict', tuple((('c', k), v) for k, v in rest))
        for x in g.all_params:
            if x not in env:
                d = g.default_of(x)
                env[x] = self.ev(d, Path())[0][1] if d is not None else ('p', '?' + x)
        q = p.copy()
        q.env = env
        self.frames.append(g)
        outs = []
        res = self.block(g.node.body, [q])
        self.frames.pop()
        for r in res:
            if r.end is not None and r.end[0] == 'raise':
                r2 = r.copy()
                r2.env = dict(p.env)
                outs.append((r2, NONE))
                continue
            v = r.end[1] if r.end is not None and r.end[0] == 'return' else NONE
            r2 = r.copy()
            r2.left = {a: r.env.get(a) for a in g.all_params}
            r2.env, r2.end = dict(p.env), None
            outs.append((r2, v))
        self.npaths += len(outs)
        return outs
