"""Array kernels compiled with guvectorize: signature strings, types and bodies."""
import ast
import re

from .program import AnalysisBroken


class Kernel:
    def __init__(self, name, func, types, shapes, loc, module):
        self.name, self.func, self.types, self.shapes, self.loc, self.module = name, func, types, shapes, loc, module
        ins, outs = split_signature(shapes)
        self.ins, self.outs = ins, outs
        self.out_params = func.params[len(ins):]


def split_signature(s):
    a, _, b = s.partition('->')
    return [x.strip() for x in re.findall(r'\(([^()]*)\)', a)], [x.strip() for x in re.findall(r'\(([^()]*)\)', b)]


def const_str(m, n):
    """the string an expression denotes, following module constants"""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.Name) and n.id in m.consts:
        return const_str(m, m.consts[n.id])
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = const_str(m, n.left), const_str(m, n.right)
        return a + b if a is not None and b is not None else None
    if isinstance(n, ast.JoinedStr):
        out = ''
        for v in n.values:
            x = const_str(m, v.value if isinstance(v, ast.FormattedValue) else v)
            if x is None:
                return None
            out += x
        return out
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)):
        sep = const_str(m, n.func.value)
        xs = [const_str(m, e) for e in n.args[0].elts]
        return sep.join(xs) if sep is not None and None not in xs else None
    return None


def is_gu(n):
    return isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')) == 'guvectorize'


def type_strings(m, n):
    """type strings passed to the type helper anywhere in the first argument"""
    out = []
    if isinstance(n, ast.Name) and n.id in m.consts:
        n = m.consts[n.id]
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and x.args:
            s = const_str(m, x.args[0])
            if s is not None:
                out.append(s)
    return out


def kernels(prog):
    out = []
    for m in prog.all_modules():
        for nm, v in m.consts.items():
            if isinstance(v, ast.Call) and is_gu(v.func) and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in m.funcs:
                out.append(make(m, nm, m.funcs[v.args[0].id], v.func))
        for f in m.funcs.values():
            for d in f.node.decorator_list:
                if is_gu(d):
                    out.append(make(m, f.name, f, d))
    return out


def make(m, name, f, call):
    args = {k.arg: k.value for k in call.keywords}
    tn = call.args[0] if call.args else args.get('ftylist')
    sn = call.args[1] if len(call.args) > 1 else args.get('signature')
    s = const_str(m, sn) if sn is not None else None
    if s is None:
        raise AnalysisBroken('the shape signature of %s cannot be read' % name)
    return Kernel(name, f, type_strings(m, tn), s, f.loc(call), m)


def used(prog, k):
    """is the compiled kernel referenced anywhere else"""
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == k.name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == k.name:
                return True
            if isinstance(n, ast.ImportFrom) and any(a.name == k.name for a in n.names):
                return True
    return False
