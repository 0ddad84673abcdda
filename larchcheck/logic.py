"""Unit propagation over the path conditions collected by absint.

Path conditions are texts with a truth value.  `facts(conds)` returns the
literals (canonical atom text -> bool) that follow from them by propagation,
or None when they contradict each other.  No search is done.
"""
import ast
import re


COUNT = re.compile(r'^(?:len\(.*\)|.*\._v_nchildren|.*\.ndim|.*\.size)$')


def atom(n, want):
    a, w = _atom(n, want)
    # counts are not negative: n == 0, n < 1, not n and not 0 < n are one literal
    m = re.match(r'^(?:0 == (?P<a>.*)|(?P<b>.*) == 0|(?P<c>.*) < 1)$', a)
    if m:
        t = m.group('a') or m.group('b') or m.group('c')
        if COUNT.match(t):
            return '0 < ' + t, not w
    if COUNT.match(a) and ' ' not in a.replace(', ', ','):
        return '0 < ' + a, w
    return a, w


def _atom(n, want):
    """-> (text, want) with negations folded in, comparisons in one direction"""
    while isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        n, want = n.operand, not want
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op, a, b = n.ops[0], ast.unparse(n.left), ast.unparse(n.comparators[0])
        t = type(op)
        if t in (ast.NotEq, ast.IsNot, ast.NotIn):
            want = not want
            t = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[t]
        if t in (ast.Gt, ast.GtE):
            a, b = b, a
            t = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t]
        if t is ast.LtE:            # a <= b  is  not (b < a)
            a, b, t, want = b, a, ast.Lt, not want
        if t is ast.Eq and b < a:
            a, b = b, a
        return '%s %s %s' % (a, {ast.Eq: '==', ast.Is: 'is', ast.In: 'in', ast.Lt: '<'}[t], b), want
    return ast.unparse(n), want


def clauses(n, want, out):
    """split into clauses: list of [(atom, want), ...] disjunctions; false when too complex"""
    while isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        n, want = n.operand, not want
    if isinstance(n, ast.Compare) and len(n.ops) > 1 and want:
        l = n.left
        for o, c in zip(n.ops, n.comparators):
            out.append([atom(ast.Compare(l, [o], [c]), True)])
            l = c
        return
    if isinstance(n, ast.BoolOp):
        conj = isinstance(n.op, ast.And) == want
        if conj:
            for v in n.values:
                clauses(v, want, out)
            return
        lits = [[]]
        for v in n.values:
            sub = []
            clauses(v, want, sub)
            lits = [a + b for a in lits for b in sub]
            if len(lits) > 32:
                return
        out.extend(lits)
        return
    out.append([atom(n, want)])


def clean(text):
    """make the texts of abstract values parsable"""
    text = re.sub(r'cls:[\w.]+:(\w+)', r'\1', text)
    text = re.sub(r'new:(\w+)@(\d+)', r'new_\1_\2', text)
    return text.replace('?', '_q_').strip()


def lit(text, want=True):
    try:
        return atom(ast.parse(clean(text), mode='eval').body, want)
    except SyntaxError:
        return text, want


def all_clauses(conds):
    out = []
    for k, v in conds.items():
        try:
            n = ast.parse(clean(k), mode='eval').body
        except (SyntaxError, ValueError):
            continue
        clauses(n, v, out)
    return out


def facts(conds, cls=None):
    cl = cls if cls is not None else all_clauses(conds)
    known = {'True': True, 'False': False, 'None': False}
    changed = True
    while changed:
        changed = False
        for c in cl:
            if any(known.get(a) == w for a, w in c):
                continue
            left = {(a, w) for a, w in c if a not in known}
            if not left:
                return None
            if len(left) == 1:
                a, w = next(iter(left))
                known[a] = w
                changed = True
    return known


def entails(conds, goals):
    """one of the literals `goals` [(atom, want)] follows (possibly as a clause all of whose open literals are goals)"""
    cl = all_clauses(conds)
    known = facts(conds, cl)
    if known is None:
        return True
    goals = set(goals)
    if any(known.get(a) == w for a, w in goals):
        return True
    for c in cl:
        if any(known.get(a) == w for a, w in c):
            continue
        left = {(a, w) for a, w in c if a not in known}
        if left and left <= goals:
            return True
    return False
