"""P20: objects that compare equal have equal hashes."""
import ast

from ..absint import Interp, Domain, V, NOLAB, TOP
from ..logic import facts, lit
from ..program import AnalysisBroken

TECHNIQUE = ('path-sensitive analysis of every __eq__: the equalities established on each path that can answer True are compared, as dependencies, with the terms the hash is computed from; equality with plain strings requires the hash of the plain string')
NOTE = 'equality of the attribute values compared inside __eq__ is taken to imply equality of their hashes; floating-point not-a-number values are not considered'
EXPLAIN = ('For each class with its own equality: all paths of __eq__ on which the result may be True, with the comparisons that hold there; then the hash in force (own, inherited, assigned, or none).  A class with equality and no hash is unhashable, which cannot give '
           'unequal hashes.')
ASSUME = ['hash() of two equal attribute values is equal']

STRBASES = ('str', 'unicode')


class Eq(Domain):
    cap = 60
    max_depth = 4

    def inline(self, g, ip):
        return g.cls is not None and g.name not in ('__repr__', '__str__', '__hash__', '__getitem__', '__len__')

    def on_call(self, ip, node, fv, args, kw, st):
        if isinstance(fv.obj, tuple) and fv.obj[0] == 'ext' or fv.expr in ('super.__str__', 'super.__repr__', 'super.__hash__'):
            if fv.expr.startswith('super.'):
                return V('%s(self)' % fv.expr.replace('super.', 'super_'), NOLAB)
        return None


def strbase(prog, c):
    for cc in prog.mro(c):
        for b in cc.node.bases:
            if isinstance(b, ast.Name) and b.id in STRBASES:
                return True
        for b in getattr(cc.node, 'cbases', []) or []:
            if str(b) in STRBASES:
                return True
    return False


def subs(prog, c):
    out = [c]
    for d in prog.subclasses(c):
        if d not in out:
            out.append(d)
    return out


def empty_content(prog, c):
    """is the string content of every instance a constant (all real content is in attributes)?"""
    for cc in prog.mro(c):
        f = cc.methods.get('__new__')
        if f is not None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__new__':
                    return len(n.args) > 1 and isinstance(n.args[1], ast.Constant)
            return False
    return False


def embeds_content(prog, c, f):
    """every value __repr__ can return is formatted from the whole string content of self"""
    rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    local = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            local[n.targets[0].id] = n.value

    def content(e):
        if isinstance(e, ast.Name) and e.id in local:
            return content(local[e.id])
        if isinstance(e, ast.Name):
            return e.id == f.params[0]
        t = ast.unparse(e)
        return t in ('super().__str__()', 'str(self)', 'str.__str__(self)', 'super().__repr__()', 'repr(str(self))')

    def has(e):
        if isinstance(e, ast.Name) and e.id in local and not content(e):
            return has(local[e.id])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            return any(content(a) for a in e.args) or any(content(k.value) for k in e.keywords)
        if isinstance(e, ast.JoinedStr):
            return any(isinstance(v, ast.FormattedValue) and content(v.value) for v in e.values)
        if isinstance(e, ast.BinOp):
            return has(e.left) or has(e.right) or content(e.left) or content(e.right) or isinstance(e.right, ast.Tuple) and any(content(x) for x in e.right.elts)
        if isinstance(e, ast.IfExp):
            return has(e.body) and has(e.orelse)
        return content(e)
    return bool(rets) and all(r.value is not None and has(r.value) for r in rets)


def side(t, strb, hasstr):
    """canonical name of the self-side of a comparison"""
    t = t.strip()
    if t in ('super_str(self)', 'super___str__(self)', 'str.__str__(self)'):
        return 'content'
    if t == 'str(self)' and strb and not hasstr:
        return 'content'
    return t


def eq_paths(prog, c, f):
    ip = Interp(prog, Eq())
    s, o = f.params[:2]
    res = ip.run(f, {s: V('self', NOLAB, TOP, ('inst', c)), o: V('other', NOLAB)}, cls=c)
    out = []
    for st in res['return']:
        r = st.ret
        if r is None or r.const in (False, None) and r.const is not TOP or r.expr == 'NotImplemented':
            continue
        conds = dict(st.conds)
        if r.const is TOP:
            conds[r.expr] = True
        k = facts(conds)
        if k is None:
            continue
        eqs = set()
        types = {}
        for a, w in k.items():
            if a.startswith('isinstance(other, '):
                types[a[len('isinstance(other, '):-1]] = w
            if a == 'type(other) is type(self)' or a == 'type(self) is type(other)' or a == 'type(other) == type(self)':
                types['type(self)'] = w
            if w and ' == ' in a:
                l, r2 = a.split(' == ', 1)
                for x, y in ((l, r2), (r2, l)):
                    if 'self' in x and 'other' in y:
                        eqs.add((x, y))
        out.append((st, eqs, types))
    return out


def hash_of(prog, c):
    """-> ('func', Func, owner) | ('alias', text, owner) | 'unhashable' | 'identity'"""
    for cc in prog.mro(c):
        if '__hash__' in cc.methods:
            return ('func', cc.methods['__hash__'], cc)
        for s in cc.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__hash__' for t in s.targets):
                if isinstance(s.value, ast.Constant) and s.value.value is None:
                    return 'unhashable'
                return ('alias', s.value, cc)
        if '__eq__' in cc.methods:
            return 'unhashable'
    return 'identity'


def hash_terms(prog, h, c, hasstr):
    """-> (set of self-terms, is it exactly the hash of the string content)"""
    if h[0] == 'alias':
        t = ast.unparse(h[1])
        if t in ('str.__hash__', 'unicode.__hash__'):
            return {'content'}, True
        return {'?' + t}, False
    f = h[1]
    ip = Interp(prog, Eq())
    res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
    terms, exact = set(), True
    for st in res['return']:
        e = st.ret.expr
        if e in ('super___hash__(self)', 'str.__hash__(self)'):
            terms.add('content' if strbase(prog, c) else '?identity')
            continue
        try:
            t = ast.parse(e, mode='eval').body
        except SyntaxError:
            terms.add('?' + e)
            exact = False
            continue

        def go(n, top=False):
            nonlocal exact
            s = side(ast.unparse(n), True, hasstr)
            if s == 'content':
                terms.add('content')
                return
            if s == 'self':
                terms.add('?self')
                exact = False
                return
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hash', 'tuple', 'frozenset') and n.args:
                for a in n.args:
                    go(a)
                if n.func.id != 'hash':
                    exact = False
                return
            if isinstance(n, (ast.Tuple, ast.List)):
                exact = False
                for x in n.elts:
                    go(x)
                return
            if isinstance(n, ast.BinOp):
                exact = False
                go(n.left)
                go(n.right)
                return
            if isinstance(n, ast.Constant):
                return
            exact = False
            terms.add(s)
        go(t, True)
        if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hash'):
            exact = exact and e in ('super___hash__(self)',)
    return terms, exact


def check(ctx):
    prog = ctx.prog
    ctx.rule('hash-uses-only-equality', 'on every path on which equality can hold, each term of the hash is determined by the comparisons made there', 3)
    ctx.rule('string-equality-string-hash', 'when equality can hold with a plain string, the hash is the hash of the string', 2)
    ctx.rule('equality-without-hash', 'a class with its own equality and no hash of its own is unhashable (it does not inherit or alias a hash that ignores its equality)', 4)
    ctx.rule('inequality-negates', 'an explicit __ne__ is the negation of __eq__', 2)
    nonq = 0
    for m in prog.all_modules():
        if not m.name.startswith('larch'):
            continue
        for c in m.classes.values():
            if not any('__eq__' in cc.methods or '__hash__' in cc.methods for cc in prog.mro(c)):
                continue
            own = '__eq__' in c.methods or '__hash__' in c.methods or any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ('__hash__', '__eq__') for t in s.targets) for s in c.node.body)
            ne = c.methods.get('__ne__')
            if ne is not None and '__eq__' in c.methods:
                ip = Interp(prog, Eq())
                ok = False
                rs = [n for n in ast.walk(ne.node) if isinstance(n, ast.Return)]
                ok = bool(rs) and all(ast.unparse(r.value) in ('not self.__eq__(other)', 'not self == other') for r in rs if r.value is not None)
                ctx.ob('inequality-negates', c.qual, ok, ne.loc(), '%s.__ne__ is not the negation of its __eq__' % c.name)
            f = prog.lookup(c, '__eq__')
            h = hash_of(prog, c)
            if f is None:
                continue
            ctx.seen(f)
            if h == 'unhashable':
                if own:
                    ctx.ob('equality-without-hash', c.qual, True, f.loc())
                continue
            if h == 'identity':
                ctx.ob('equality-without-hash', c.qual, False, f.loc(), '%s has its own equality but hashes by identity' % c.name)
                continue
            if not own and f.cls is not None and h[2] is f.cls and not any(n in c.methods for n in ('__str__', '__repr__')):
                pass
            if h[0] == 'func':
                ctx.seen(h[1])
            strb = strbase(prog, c)
            owner = h[2]
            hasstr = any('__str__' in cc.methods and not _plain_str(cc.methods['__str__']) for cc in prog.mro(c))
            terms, exact = hash_terms(prog, h, c, hasstr)
            paths = eq_paths(prog, c, f)
            if not paths:
                raise AnalysisBroken('%s never answers True' % f.qual)
            plain = False
            for st, eqs, types in paths:
                keys = {side(x, strb, hasstr) for x, y in eqs}
                if empty_content(prog, c):
                    keys.add('content')
                if 'repr(self)' in keys:
                    rp = prog.lookup(c, '__repr__')
                    if strb and (rp is None or embeds_content(prog, c, rp)):
                        keys.add('content')
                missing = [t for t in terms if t not in keys]
                what = 'isinstance tests: %s' % ', '.join('%s%s' % ('' if w else 'not ', t) for t, w in sorted(types.items())) if types else 'no type test'
                ctx.ob('hash-uses-only-equality', '%s.__hash__' % c.qual, not missing, (h[1].loc() if h[0] == 'func' else f.loc()),
                       '%s: the hash is computed from %s, but equality can hold on a path (%s) that only compares %s' % (c.name, ', '.join(sorted(terms)), what, ', '.join(sorted(keys)) or 'nothing'))
                if types.get('str') and not types.get(c.name) or (strb and not types and any(y == 'other' or y == 'str(other)' for x, y in eqs)):
                    plain = True
            if plain:
                ok = exact and terms == {'content'} or empty_content(prog, c)
                ctx.ob('string-equality-string-hash', c.qual, ok, (h[1].loc() if h[0] == 'func' else f.loc()),
                       '%s can equal a plain string but does not hash like that string: the two are different keys of one dictionary' % c.name)


def _plain_str(f):
    rs = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    return bool(rs) and all(ast.unparse(r.value) in ('super().__str__()', 'str.__str__(self)') for r in rs if r.value is not None)
