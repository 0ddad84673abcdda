"""P19: linear-expression arithmetic loses no term, coefficient or scale."""
import ast

from ..program import AnalysisBroken
from ..termdom import Dom, Endless, Exec, NotImpl, Num, Obj, Opaque, Poly, Raised, Ref, Str, Type, apply, paths

TECHNIQUE = ('abstract interpretation of the operator methods in a domain of term sums: for every pair of operand kinds the methods are followed through their type tests and special cases, the parts (parameter, data, scale) '
             'carried by the result are collected, and compared with the parts of the operands under the law of the operator')
NOTE = ('each operand kind is represented by generic parts, and linear functions by functions of none, one and two components; text that spells a data expression is read as the expression it spells, trusting the helper that adds '
        'parentheses; combinations that are rejected with an error are not failures, except those listed as needed; the older expression classes of larch/roles.py are not covered')
EXPLAIN = ('Obligations: one per operator, operand kinds and special case of ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C and the parameter arithmetic of linear_math: the result means what the operator says; '
           'operands are unchanged afterwards and a mutable operand is not handed back as the result; in-place addition adds exactly the operand; copies mean the same as the original.')
ASSUME = ['Python and Cython dispatch binary operators to both operands\' types in the usual order', 'parenthize() returns text that spells the same value']

LIN = 'larch.model.linear'
NEED = {('add', 'parameter', 'parameter'), ('add', 'parameter', 'component'), ('add', 'component', 'parameter'), ('add', 'component', 'component'), ('add', 'component', 'function'), ('add', 'function', 'component'),
        ('add', 'function', 'function'), ('add', 'function', 'parameter'), ('mul', 'parameter', 'data'), ('mul', 'data', 'parameter'), ('mul', 'parameter', 'number'), ('mul', 'number', 'parameter'), ('mul', 'component', 'number'),
        ('mul', 'number', 'component'), ('mul', 'component', 'data'), ('mul', 'data', 'component'), ('mul', 'function', 'number'), ('mul', 'number', 'function'), ('sub', 'component', 'component'), ('sub', 'function', 'component'),
        ('sub', 'function', 'function'), ('sub', 'component', 'function'), ('sub', 'parameter', 'component'), ('sub', 'component', 'parameter'), ('sub', 'function', 'parameter'), ('mul', 'data', 'data'), ('add', 'data', 'data'),
        ('sub', 'data', 'data'), ('truediv', 'data', 'data'), ('truediv', 'component', 'number'), ('truediv', 'component', 'data'), ('truediv', 'parameter', 'number'), ('mul', 'function', 'data'), ('mul', 'data', 'function'),
        ('add', 'function', 'data') if False else ('add', 'number', 'function'), ('add', 'number', 'component')}


class Maker:
    def __init__(self, prog):
        m = prog.need_module(LIN)
        self.P, self.X = prog.cls(LIN, 'ParameterRef_C'), prog.cls(LIN, 'DataRef_C')
        self.LC, self.LF = prog.cls(LIN, 'LinearComponent_C'), prog.cls(LIN, 'LinearFunction_C')
        mm = prog.need_module('larch.model.linear_math')
        self.ops = {n: mm.classes[n] for n in mm.classes}
        self.n = 0

    def param(self, t, null=False):
        return Ref(Poly.const(1) if null else Poly.sym('p' + t), 'param', self.P, null)

    def data(self, t):
        return Ref(Poly.sym('x' + t), 'data', self.X)

    def comp(self, t, null=False, unit=False):
        o = Obj(self.LC)
        o.attrs['_param'] = Str(Poly.const(1) if null else Poly.sym('p' + t), 'param', null)
        o.attrs['_data'] = Str(Poly.const(1) if unit else Poly.sym('x' + t), 'data')
        o.attrs['_scale'] = Num(Poly.sym('s' + t))
        return o

    def func(self, comps):
        o = Obj(self.LF)
        o.attrs['_func'] = list(comps)
        return o

    def pmath(self, t):
        o = Obj(self.ops['ParameterAdd'])
        o.attrs.update(_left=self.param('l' + t), _right=self.param('r' + t), _formatting=None)
        return o


def kinds(mk, t):
    """(kind, variant, maker)"""
    yield 'parameter', '', lambda: mk.param(t)
    yield 'parameter', 'empty', lambda: mk.param(t, True)
    yield 'data', '', lambda: mk.data(t)
    yield 'number', '', lambda: Num(Poly.sym('n' + t))
    yield 'component', '', lambda: mk.comp(t)
    yield 'component', 'data only', lambda: mk.comp(t, null=True)
    yield 'component', 'parameter only', lambda: mk.comp(t, unit=True)
    yield 'function', 'empty', lambda: mk.func([])
    yield 'function', 'one', lambda: mk.func([mk.comp(t + '1')])
    yield 'function', 'two', lambda: mk.func([mk.comp(t + '1'), mk.comp(t + '2')])
    yield 'function', 'parameters only', lambda: mk.func([mk.comp(t + '1', unit=True), mk.comp(t + '2', unit=True)])
    yield 'function', 'data only', lambda: mk.func([mk.comp(t + '1', null=True), mk.comp(t + '2', null=True)])
    yield 'parameter math', '', lambda: mk.pmath(t)


def snapshot(ex, v):
    if isinstance(v, Obj):
        return tuple((k, tuple(id(x) for x in w) if isinstance(w, list) else id(w)) for k, w in sorted(v.attrs.items()))
    return None


def mutable(v):
    return isinstance(v, Obj) and '_func' in v.attrs


def reach(v, seen=None):
    """the lists a value is built on"""
    out = []
    if isinstance(v, Obj):
        for w in v.attrs.values():
            if isinstance(w, list):
                out.append(id(w))
    return out


def where(run_info):
    return run_info


def check(ctx):
    prog = ctx.prog
    mk = Maker(prog)
    nul = prog.need_module(LIN).consts.get('_null_')
    if not isinstance(nul, ast.Constant):
        raise AnalysisBroken('the name of the empty parameter was not found')
    dom = Dom(prog, prog.need_module(LIN), nul.value, {'ParameterRef_C': 'param', 'DataRef_C': 'data'})
    dom.seen = set()
    dom.binary, dom.unary = {}, {}
    ctx.rule('value', 'parameter arithmetic evaluates what it stands for', 5)
    ctx.rule('law', 'the result of an operator carries every part of its operands', 150)
    ctx.rule('need', 'the operators users build utility functions with are available', 30)
    ctx.rule('pure', 'operators leave their operands as they were', 100)
    ctx.rule('alias', 'the result of an operator is not one of its mutable operands', 20)
    ctx.rule('inplace', 'in-place addition adds the operand, once', 10)
    ctx.rule('copy', 'copies carry every part', 3)
    ctx.rule('evaluate', 'evaluation uses parameter, data and scale of every term', 2)

    # ---- meaning of the parameter arithmetic classes, from their value methods
    OPN = {'ParameterAdd': ('add', '+'), 'ParameterSubtract': ('sub', '-'), 'ParameterMultiply': ('mul', '*'), 'ParameterDivide': ('truediv', '/')}
    for n, (op, sy) in OPN.items():
        if n not in mk.ops:
            raise AnalysisBroken('class %s not found' % n)
        dom.binary[n] = op
    dom.unary.update(ParameterNoop='pos', ParameterNegate='neg')
    for n, c in mk.ops.items():
        if n not in dom.binary and n not in dom.unary:
            continue
        v = prog.method(c, 'value')
        ctx.seen(v)
        bad = value_method(prog, c, v, dom)
        ctx.ob('value', '%s.value' % n, bad is None, v.loc(v.node), bad or '')
        i = prog.method(c, '__init__')
        a = {t.attr: ast.unparse(s.value) for s in i.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Attribute)}
        if n in dom.binary:
            ok = a.get('_left') == i.params[1] and a.get('_right') == i.params[2]
        else:
            ok = a.get('_operand') == i.params[1]
        ctx.ob('value', '%s operands' % n, ok, i.loc(i.node), 'the operands are not kept as given')

    def report(rule, name, ok, f, msg, node=None):
        loc = f.loc(node if node is not None else f.node) if f is not None else prog.need_module(LIN).rel + ':1'
        ctx.ob(rule, name, ok, loc, msg)

    def handler_of(a, b, m):
        for v in (a, b):
            if isinstance(v, (Obj, Ref)):
                h = prog.lookup(v.cls, m)
                if h is not None:
                    return h
        return None

    npaths = 0
    for op in ('add', 'sub', 'mul', 'truediv', 'and', 'or', 'xor', 'floordiv', 'pow'):
        for ka, va, ma in kinds(mk, 'a'):
            for kb, vb, mb in kinds(mk, 'b'):
                if ka == kb == 'number' or (ka == 'number' and va) or (op not in ('add', 'sub', 'mul', 'truediv') and not (ka in ('data', 'number') and kb in ('data', 'number'))):
                    continue
                name = '%s: %s%s, %s%s' % (op, ka, ' (%s)' % va if va else '', kb, ' (%s)' % vb if vb else '')
                h = handler_of(ma(), mb(), '__%s__' % op)
                laws, pure, alias, some = None, None, None, False

                def go(run):
                    ex = Exec(dom, run)
                    a, b = ma(), mb()
                    sa, sb = snapshot(ex, a), snapshot(ex, b)
                    try:
                        r = ex.binop(op, a, b, None)
                    except Raised as e:
                        return ('raise', e.name, None, None, None, None)
                    except Endless as e:
                        return ('endless', e.node, None, None, None, None)
                    al = [x for x in (a, b) if mutable(x) and (r is x or set(reach(r)) & set(reach(x)))]
                    ch = [x for x, s in ((a, sa), (b, sb)) if snapshot(ex, x) != s]
                    ea, eb = ex.denote(a), ex.denote(b)
                    if isinstance(r, Opaque) or isinstance(r, (Str,)) or r is None or isinstance(r, (list, tuple)) and r != ():
                        return ('odd', ex.what(r), None, None, al, ch)
                    want = ex.val(apply(op, ea, eb))
                    return ('ok', ex.denote(r), want, dict(run.assume), al, ch)

                for run, out in paths(dom, go):
                    npaths += 1
                    if out[0] == 'raise':
                        continue
                    if out[0] == 'endless':
                        laws = laws or 'the operation never ends'
                        continue
                    if out[0] == 'odd':
                        laws = laws or 'the result is %s' % out[1]
                        continue
                    some = True
                    if out[1] != out[2] and laws is None:
                        laws = 'the result stands for %s, but %s %s %s is %s%s' % (out[1], ka, op, kb, out[2], ' when %s' % ', '.join('%s=%s' % kv for kv in sorted(out[3].items())) if out[3] else '')
                    if out[4] and alias is None:
                        alias = 'the %s that was given is itself returned' % ('function',)
                    if out[5] and pure is None:
                        pure = 'an operand is changed'
                report('law', name, laws is None, h, laws or '')
                report('pure', name, pure is None, h, pure or '')
                if ka == 'function' or kb == 'function':
                    report('alias', name, alias is None, h, alias or '')
                if (op, ka, kb) in NEED and not (va or vb) or (op, ka, kb) in NEED and va in ('', 'one', 'two') and vb in ('', 'one', 'two'):
                    report('need', name, some, h, 'every way through it ends in an error')

    # ---- unary
    for op in ('neg', 'pos', 'invert'):
        for k, v, m in kinds(mk, 'a'):
            if k in ('number',) or (op == 'invert' and k != 'data'):
                continue
            h = handler_of(m(), None, '__%s__' % op)
            if h is None:
                continue
            name = '%s: %s%s' % (op, k, ' (%s)' % v if v else '')
            bad = alias = None

            def go1(run):
                ex = Exec(dom, run)
                a = m()
                try:
                    r = ex.unop(op, a, None)
                except Raised as e:
                    return None
                want = ex.denote(a)
                want = -want if op == 'neg' else (Poly.sym('{~%s}' % want) if op == 'invert' else want)
                return (ex.denote(r), want, mutable(a) and (r is a or set(reach(r)) & set(reach(a))))
            for run, out in paths(dom, go1):
                npaths += 1
                if out is None:
                    continue
                if out[0] != out[1]:
                    bad = bad or 'the result stands for %s and not for %s' % (out[0], out[1])
                if out[2]:
                    alias = 'the function that was given is itself returned'
            report('law', name, bad is None, h, bad or '')
            if k == 'function':
                report('alias', name, alias is None, h, alias or '')

    # ---- in place
    for k, v, m in list(kinds(mk, 'b')) + [('itself', '', None)]:
        for ka, va, ma in kinds(mk, 'a'):
            if ka != 'function':
                continue
            name = 'iadd: function (%s), %s%s' % (va, k, ' (%s)' % v if v else '')
            h = handler_of(ma(), None, '__iadd__')
            if h is None:
                continue
            bad = None

            def go2(run):
                ex = Exec(dom, run)
                a = ma()
                b = m() if m is not None else a
                before = ex.denote(a)
                sb = snapshot(ex, b) if b is not a else None
                eb = None
                try:
                    r = ex.iadd(a, b, None)
                except Raised as e:
                    return 'raise' if ex.denote(a) == before.subst(run.assume) else 'an operation that is rejected has already changed the function'
                except Endless:
                    return 'adding a function to itself never ends'
                eb = ex.denote(b) if b is not a else before.subst(run.assume)
                want = before.subst(run.assume) + eb
                if r is not a:
                    return 'the function is not updated in place'
                if ex.denote(a) != want:
                    return 'the function then stands for %s and not for %s' % (ex.denote(a), want)
                if b is not a and snapshot(ex, b) != sb:
                    return 'the added operand is changed'
                if b is not a and mutable(b) and set(reach(a)) & set(reach(b)):
                    return 'the function and the operand share their terms'
                return None
            for run, out in paths(dom, go2):
                npaths += 1
                if out not in (None, 'raise'):
                    bad = bad or out
            report('inplace', name, bad is None, h, bad or '')

    # ---- copies
    for c, m, meth in ((mk.LC, lambda: mk.comp('a'), '__copy__'), (mk.LF, lambda: mk.func([mk.comp('a1'), mk.comp('a2')]), 'copy')):
        f = prog.lookup(c, meth)
        if f is None:
            continue

        def go3(run):
            ex = Exec(dom, run)
            a = m()
            try:
                r = ex.call(f, [a], {})
            except Raised as e:
                return 'copying fails'
            if ex.denote(r) != ex.denote(a):
                return 'the copy stands for %s and not for %s' % (ex.denote(r), ex.denote(a))
            if mutable(a) and (r is a or set(reach(r)) & set(reach(a))):
                return 'the copy and the original share their terms'
            return None
        for run, out in paths(dom, go3):
            report('copy', '%s.%s' % (c.name, meth), out is None, f, out or '')
    # LinearFunction_C built from another
    def go4(run):
        ex = Exec(dom, run)
        a = mk.func([mk.comp('a1'), mk.comp('a2')])
        r = ex.construct(Type('LinearFunction_C', mk.LF), [a], {}, None, {}, prog.method(mk.LF, '__init__'))
        if ex.denote(r) != ex.denote(a):
            return 'a function made from another stands for %s and not for %s' % (ex.denote(r), ex.denote(a))
        if set(reach(r)) & set(reach(a)):
            return 'a function made from another shares its terms'
        return None
    for run, out in paths(dom, go4):
        f = prog.method(mk.LF, '__init__')
        report('copy', 'LinearFunction_C(function)', out is None, f, out or '')

    evaluate(ctx, prog, mk)
    for f in dom.seen:
        ctx.seen(f)
    ctx.info['cases'] = npaths


def value_method(prog, c, f, dom):
    """a value method combines the values of its operands with the right operator, in the right order"""
    want = dom.binary.get(c.name)
    left, right = Poly.sym('left'), Poly.sym('right')

    def run_one(lref, rref):
        env = {}

        def ev(n):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                return Poly.const(n.value)
            t = ast.unparse(n)
            if isinstance(n, ast.Name) and n.id in env:
                return env[n.id]
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                return {'_left': left, '_right': right, '_operand': left}.get(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'value':
                return ev(n.func.value)
            if isinstance(n, ast.BinOp):
                return apply({ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv'}.get(type(n.op), 'other'), ev(n.left), ev(n.right))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                return -ev(n.operand)
            if isinstance(n, ast.IfExp):
                return ev(n.body if test(n.test) else n.orelse)
            if isinstance(n, ast.Call):
                # a helper that reads one operand
                a = [x for x in map(ev, n.args) if x is not None]
                if len(a) == 1:
                    return a[0]
            return None

        def test(t):
            s = ast.unparse(t)
            if '_left' in s:
                return lref
            if '_right' in s:
                return rref
            return True

        def block(b):
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    env[s.targets[0].id] = ev(s.value)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    env[s.target.id] = apply({ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv'}.get(type(s.op), 'other'), env[s.target.id], ev(s.value))
                elif isinstance(s, ast.If):
                    r = block(s.body if test(s.test) else s.orelse)
                    if r is not None:
                        return r
                elif isinstance(s, ast.Return):
                    return ev(s.value)
            return None
        return block(f.node.body)
    for l in (True, False):
        for r in (True, False):
            got = run_one(l, r)
            if want is not None:
                w = apply(want, left, right)
            else:
                w = -left if dom.unary[c.name] == 'neg' else left
            if got is None:
                raise AnalysisBroken('%s: value cannot be read off the source' % f.qual)
            if got != w:
                return 'its value is %s and not %s' % (got, w)
    return None


def evaluate(ctx, prog, mk):
    """LinearComponent_C.evaluate returns scale * parameter value * data value; LinearFunction_C.evaluate sums all terms"""
    f = prog.lookup(mk.LC, 'evaluate')
    if f is not None:
        ctx.seen(f)
        rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
        defs = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                defs.setdefault(x.targets[0].id, []).append(x.value)

        def roots(n, seen=()):
            out = set()
            for y in ast.walk(n):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self':
                    out.add(y.attr.lstrip('_'))
                if isinstance(y, ast.Name) and y.id in defs and y.id not in seen:
                    for d in defs[y.id]:
                        out |= roots(d, seen + (y.id,))
            return out
        for x in rets:
            r = roots(x.value)
            ctx.ob('evaluate', 'LinearComponent_C.evaluate line %d' % (len([y for y in rets if y.lineno < x.lineno])), {'param', 'data', 'scale'} <= r, f.loc(x), 'the value does not depend on %s' % ', '.join(sorted({'param', 'data', 'scale'} - r)))
    f = prog.lookup(mk.LF, 'evaluate')
    if f is not None:
        ctx.seen(f)
        ok = False
        for x in ast.walk(f.node):
            gens = getattr(x, 'generators', None)
            if gens and isinstance(gens[0].iter, (ast.Name, ast.Attribute)) and ast.unparse(gens[0].iter) in ('self', 'self._func') and not gens[0].ifs:
                ok = True
            if isinstance(x, ast.For) and ast.unparse(x.iter) in ('self', 'self._func') and not any(isinstance(y, (ast.Break, ast.Continue, ast.If)) for y in ast.walk(x)):
                ok = True
        ctx.ob('evaluate', 'LinearFunction_C.evaluate', ok, f.loc(f.node), 'the value is not a sum over every term')
