"""Facts shared by the checks of the model classes."""
import ast

from ..absint import TOP, V, NOLAB

CASE = ['start_case', 'stop_case', 'step_case', 'leave_out', 'keep_only', 'subsample']
MODEL_CLASSES = [('larch.model.model', 'Model'), ('larch.numba.model', 'NumbaModel'),
                 ('larch.model.latentclass', 'LatentClassModel'), ('larch.model.model_group', 'ModelGroup')]

# values of each selection argument that mean "every case"
_WHOLE = {'start_case': ('None', '0'), 'stop_case': ('None', '-1'), 'step_case': ('None', '1'),
          'leave_out': ('-1', 'None'), 'keep_only': ('-1', 'None'), 'subsample': ('-1', 'None', '0', '1')}


def model_classes(prog):
    return [prog.cls(m, c) for m, c in MODEL_CLASSES]


def means_whole(p, expr, conds, whole=None):
    """do the path conditions say that the value `expr` of selection argument p selects every case?"""
    W = whole or _WHOLE[p]
    if expr in W:
        return True
    if p == 'stop_case' and 'n_cases' in expr and 'phi' not in expr:
        return True
    for k, v in conds.items():
        if expr not in k:
            continue
        if v:
            for w in W:
                a, b = sorted([expr, w])
                if k in ('(%s == %s)' % (a, b), '(%s is %s)' % (expr, w)):
                    return True
            if p == 'stop_case' and k.startswith('(') and ' == ' in k and 'n_cases' in k:
                return True
            if ' in ' in k and k.startswith('(%s in ' % expr):
                els = k[len('(%s in ' % expr):-1].strip('()[]{}').split(',')
                if all(x.strip() in W or 'n_cases' in x for x in els if x.strip()):
                    return True
            if k.startswith('OR:'):
                pass
        if p in ('leave_out', 'keep_only'):
            if (k == '(0 <= %s)' % expr and v is False) or (k == '(%s < 0)' % expr and v) or (k == '(-1 < %s)' % expr and v is False) or (k == '(%s <= -1)' % expr and v):
                return True
        if p == 'start_case' and ((k == expr or k == '(%s <= 0)' % expr) and v == (k != expr)):
            return True
        # a disjunction of acceptable alternatives
        if v and k.startswith('(') and ' or ' in k:
            try:
                t = ast.parse(k, mode='eval').body
            except SyntaxError:
                continue
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
                if all(means_whole(p, expr, {'(%s)' % ast.get_source_segment(k, x): True}, W) for x in t.values):
                    return True
    return False


def concrete_methods(prog, c):
    """name -> Func, most derived first, for the methods a concrete class really has."""
    out = {}
    for cc in prog.mro(c):
        for n, f in cc.methods.items():
            out.setdefault(n, f)
    return out
