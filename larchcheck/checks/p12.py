"""P12: temporary changes to a model are undone on every exit."""
import ast
import re

from ..flatten import View
from ..program import AnalysisBroken

TECHNIQUE = ('typestate analysis over the statement structure with exceptional exits: a write of parameter values that no caller asked for, and a change of a setting whose earlier value the function saved, puts the model '
             'in a "changed" state that only the matching restore leaves; no exit, normal or by an exception of any call in between, may be reached in that state')
NOTE = ('decides that the restore is executed on every exit and restores what was saved, not that the restoring call itself cannot fail; stepping and estimation routines are meant to move the parameter values and are not '
        'obliged to restore them; an exception raised by the modifying call itself, before it has returned, is not counted')
EXPLAIN = ('For every function of the model layers the analysis enumerates the ways through its statements, taking every call as able to raise.  Obligations: functions (outside setters and estimation) that write '
           'parameter values of their own choice, functions that save a setting and later put it back, maximize_loglike with respect to the penalty settings, and context managers that change a setting.')
ASSUME = ['assignments of names, constants and attributes do not raise', 'a with statement on a library context manager restores what it changed']

MODS = ('larch.model', 'larch.numba', 'larch.log', 'larch.warning', 'larch.roles', 'larch.dataframes')
WRITERS = {'set_values': 'soft', 'set_value': 'hard', 'update_values': 'soft', 'shift_values': 'soft', 'lock_value': 'hard', 'lock_values': 'hard', 'set_frame': 'hard'}
MOVES = re.compile(r'^_*(set_|lock_|update_|shift_|remove_|fit|maximi|estimate|jumpstart|simple_|cross_validate|load|unmangle|initialize|reset|copy|from_|mle|magic|ensure|scan)|^__(init|set|setstate|del)')
COMPUTES = re.compile(r'^_*(d_|d2_|get_)?(loglike|log_like|likelihood|neg_|rho|bhhh|logsum|probab|utility|estimat\w*_stat|calculate|robust|check_|doctor|noop|possible|overspec)')
PENALTY = ('constraint_intensity', 'constraint_sharpness')


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def obj_text(n):
    return ast.unparse(n)


class FI:
    """what a function does to the values of the model it works on"""
    def __init__(self, f):
        self.f = f
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(n.iter)

    def from_params(self, n, seen=()):
        """parameters (other than self) an expression is computed from"""
        out = set()
        for x in names_in(n):
            if x in self.f.all_params or x in (self.f.vararg, self.f.kwarg):
                if x not in ('self', 'model', 'cls'):
                    out.add(x)
            if x not in seen:
                for d in self.defs.get(x, []):
                    out |= self.from_params(d, seen + (x,))
        return out

    def saved(self, n):
        """the read of model state a name was assigned from, when it has just one definition"""
        if isinstance(n, ast.Name) and len(self.defs.get(n.id, [])) == 1 and n.id not in self.f.all_params:
            return self.defs[n.id][0]
        return None


READS = re.compile(r"(get_values|pvals|value)\b")


def is_value_read(e):
    t = ast.unparse(e)
    return bool(re.search(r"get_values\(|\.pvals\b|\['value'\]|\.value\b|, 'value'\]|get_value\(", t))


def is_copy(e):
    t = ast.unparse(e)
    return bool(re.search(r"copy\(|get_values\(|get_value\(|\barray\(|dict\(|list\(|, 'value'\]", t))


class Walk:
    """states: frozenset of (token, origin line) that are in the changed state"""
    def __init__(self, fi, classify, quiet=None, tokens=None):
        self.fi, self.classify, self.quiet = fi, classify, quiet
        self.tokens = tokens or (lambda name: ())
        self.exits = []

    def run(self):
        r = self.block(self.fi.f.node.body, {frozenset()})
        return r

    def may_raise(self, s):
        if s is None:
            return False
        for x in ast.walk(s):
            if isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert)):
                return True
        return False

    def effect(self, node, states):
        """apply modifications and restores in a simple statement or expression"""
        mods, res = self.classify(node)
        if not mods and not res:
            return states
        out = set()
        for s in states:
            s = frozenset(x for x in s if x[0] not in res) | frozenset((t, l) for t, l in mods if t not in res)
            out.add(s)
        return out

    def block(self, stmts, states):
        out = {k: set() for k in ('next', 'return', 'raise', 'break', 'continue')}
        cur = states
        for s in stmts:
            if not cur:
                break
            r = self.stmt(s, cur)
            for k in ('return', 'raise', 'break', 'continue'):
                out[k] |= r.get(k, set())
            cur = r.get('next', set())
        out['next'] = cur
        return out

    def raises(self, node, states):
        """states in which evaluating this simple statement may raise"""
        if not self.may_raise(node) or (self.quiet is not None and self.quiet(node)):
            return set()
        mods, res = self.classify(node)
        if res:
            return set()         # the restoring statement itself
        return set(states)

    def stmt(self, s, st):
        out = {k: set() for k in ('next', 'return', 'raise', 'break', 'continue')}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            out['next'] = st
            return out
        if isinstance(s, ast.If):
            out['raise'] |= self.raises(s.test, st)
            st = self.effect(s.test, st)
            for body, truth in ((s.body, True), (s.orelse, False)):
                gone = {t for v in as_before(s.test, truth, self.fi) for t in self.tokens(v)}
                b = {frozenset(x for x in f if x[0] not in gone) for f in st} if gone else st
                r = self.block(body, b) if body else {'next': b}
                for k, v in r.items():
                    out[k] |= v
            return out
        if isinstance(s, (ast.For, ast.While)):
            head = s.iter if isinstance(s, ast.For) else s.test
            out['raise'] |= self.raises(head, st)
            cur = self.effect(head, st)
            seen = set(cur)
            for _ in range(4):
                r = self.block(s.body, seen)
                out['return'] |= r['return']
                out['raise'] |= r['raise']
                new = seen | r['next'] | r['continue']
                brk = r['break']
                out['next'] |= brk
                if isinstance(s, ast.For) or self.may_raise(head):
                    out['raise'] |= self.raises(head, new)
                if new == seen:
                    break
                seen = new
            if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value):
                out['next'] |= seen
            if s.orelse:
                r = self.block(s.orelse, seen)
                for k, v in r.items():
                    out[k] |= v
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                out['raise'] |= self.raises(i.context_expr, st)
                st = self.effect(i.context_expr, st)
            r = self.block(s.body, st)
            for k, v in r.items():
                out[k] |= v
            return out
        if isinstance(s, ast.Try):
            r = self.block(s.body, st)
            if s.orelse:
                x = self.block(s.orelse, r['next'])
                r['next'] = x['next']
                for k in ('return', 'raise', 'break', 'continue'):
                    if k != 'raise':
                        r[k] |= x[k]
                late = x['raise']
            else:
                late = set()
            caught = r['raise']
            r['raise'] = set(late)
            all_ = False
            for h in s.handlers:
                t = ast.unparse(h.type) if h.type is not None else ''
                if h.type is None or t.split('.')[-1] in ('Exception', 'BaseException'):
                    all_ = True
                if caught:
                    x = self.block(h.body, caught)
                    for k, v in x.items():
                        r[k] |= v
            if not all_:
                r['raise'] |= caught
            if s.finalbody:
                o2 = {k: set() for k in out}
                for k, v in r.items():
                    if v:
                        x = self.block(s.finalbody, v)
                        for kk, vv in x.items():
                            o2[k if kk == 'next' else kk] |= vv
                r = o2
            for k, v in r.items():
                out[k] |= v
            return out
        if isinstance(s, ast.Return):
            out['raise'] |= self.raises(s, st)
            out['return'] |= self.effect(s, st)
            return out
        if isinstance(s, ast.Raise):
            out['raise'] |= st
            return out
        if isinstance(s, ast.Break):
            out['break'] |= st
            return out
        if isinstance(s, ast.Continue):
            out['continue'] |= st
            return out
        if isinstance(s, ast.Assert):
            out['raise'] |= self.raises(s, st)
            out['next'] |= st
            return out
        out['raise'] |= self.raises(s, st)
        out['next'] |= self.effect(s, st)
        return out


def as_before(test, truth, fi):
    """the saved names for which this outcome of the test means that there is nothing to put back"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return as_before(test.operand, not truth, fi)
    if isinstance(test, ast.BoolOp):
        parts = [as_before(v, truth, fi) for v in test.values]
        if isinstance(test.op, ast.And) == truth:
            return set().union(*parts)
        return set.intersection(*parts)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        same = isinstance(test.ops[0], (ast.Is, ast.Eq))
        if not same and not isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) or same != truth:
            return set()
        out = set()
        for a, b in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
            d = fi.saved(a)
            if d is None:
                continue
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'getattr' and len(d.args) == 3 and ast.dump(d.args[2]) == ast.dump(b):
                out.add(a.id)                      # there was no such setting
            elif ast.dump(d) == ast.dump(b) and not isinstance(b, ast.Call):
                out.add(a.id)                      # it still has the saved value
        return out
    if isinstance(test, ast.Call) and getattr(test.func, 'id', '') == 'hasattr' and len(test.args) == 2 and isinstance(test.args[1], ast.Constant) and not truth:
        return {v for v, ds in fi.defs.items() if len(ds) == 1 and reads_setting(ds[0], obj_text(test.args[0]), test.args[1].value)}
    return set()


def model_modules(prog):
    return [m for m in prog.all_modules() if any(m.name == x or m.name.startswith(x + '.') for x in MODS)]


def own_writes(fi, writers):
    """calls that write parameter values chosen by this function: [(call, kind)]"""
    out = []
    for n in ast.walk(fi.f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in writers and not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
            out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in writers and n.func.id not in WRITERS and len(n.args) >= 2:
            out.append(n)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and re.search(r"\b(_frame|pf)\b(\.loc|\.at)?\[.*'value'\]$", ast.unparse(t)):
                    out.append(n)
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule('values', 'an operation that is not a setter or an estimation step leaves the parameter values as they were on every exit', 2)
    ctx.rule('saved', 'the value put back is a copy taken before the change', 2)
    ctx.rule('strength', 'values written regardless of held parameters are put back regardless of them', 1)
    ctx.rule('setting', 'a setting whose earlier value was saved is put back on every exit', 2)
    ctx.rule('manager', 'a context manager that changes a setting changes it back however its body ends', 1)
    ctx.rule('follow-up', 'what a context manager must do after its body to keep derived state in step is done however the body ends', 1)

    funcs = []
    for m in model_modules(prog):
        for f in m.all_funcs():
            funcs.append(f)
    ctx.info['functions_scanned'] = len(funcs)
    # functions that write whatever their caller passes: treated as writers at their call sites
    writers = dict(WRITERS)
    infos = {f: FI(f) for f in funcs}
    byname = {}
    for f in funcs:
        byname.setdefault(f.name, []).append(f)
    for f in funcs:
        k = passes_on(infos[f], writers)
        if k:
            writers.setdefault(f.name, k)
    ctx.info['value_writers'] = sorted(writers)
    # ---- values
    nown = 0
    for f in funcs:
        fi = infos[f]
        ws = own_writes(fi, writers)
        if not ws:
            continue
        ctx.seen(f)
        if MOVES.match(f.name) or 'BHHH' in f.name.upper() or f.kind in ('setter', 'deleter'):
            continue
        own = {}
        restores = {}
        for w in ws:
            if isinstance(w, ast.Call):
                vals = list(w.args) + [k.value for k in w.keywords if k.arg not in ('respect_holdfast', 'note', 'change_check')]
                rv = w.args[-1] if w.args else (vals[-1] if vals else None)
                kind = writers.get(callee(w), 'soft')
                for k in w.keywords:
                    if k.arg == 'respect_holdfast' and isinstance(k.value, ast.Constant) and k.value.value is False:
                        kind = 'hard'
                recv = obj_text(w.func.value if isinstance(w.func, ast.Attribute) else w.args[0])
            else:
                vals, rv, kind, recv = [w.value], w.value, 'hard', 'self'
            sv = saved_value(fi, rv) if rv is not None else None
            if sv is not None and is_value_read(sv):
                restores[w] = (recv, kind, sv)
                continue
            ps = set()
            for v in vals:
                ps |= fi.from_params(v)
            if restores_somewhere(fi, ws):              # a temporary change, unless the very value is the caller's
                ps = ({x for x in names_in(rv) if x in f.all_params and x not in ('self', 'model')} if rv is not None else set())
                if ps and guarded_by_param(f.node, w, ps):
                    continue
            elif ps and ('x' in ps or not COMPUTES.match(f.name)):
                continue                                # the caller asked for it
            own[w] = (recv, kind)
        if not own:
            continue
        nown += 1

        def classify(node, own=own, restores=restores):
            mods, res = [], set()
            for x in ast.walk(node):
                if x in own:
                    mods.append(('values of %s' % own[x][0], x.lineno))
                if x in restores:
                    res.add('values of %s' % restores[x][0])
            return mods, res
        def tokens(name, restores=restores, fi=fi):
            d = fi.saved(ast.Name(name, ast.Load()))
            return {'values of %s' % rc for rc, kk, sv in restores.values() if sv is d}
        w = Walk(fi, classify, None, tokens)
        r = w.run()
        bad = None
        for k in ('next', 'return', 'raise'):
            for s in r[k]:
                for tok, line in s:
                    bad = bad or (k, tok, line)
        ctx.ob('values', f.qual, bad is None, f.loc() if bad is None else '%s:%d' % (f.module.rel, bad[2]),
               '' if bad is None else '%s can be left %s with the parameter values it wrote at line %d' % (f.name, 'by an exception' if bad[0] == 'raise' else 'normally', bad[2]))
        for x, (recv, kind, sv) in restores.items():
            ctx.ob('saved', f.qual, is_copy(sv), f.loc(x), '%s puts back %s, which is not a copy of the earlier values' % (f.name, ast.unparse(sv)))
            hard = any(kk == 'hard' for rc, kk in own.values() if rc == recv)
            ctx.ob('strength', f.qual, not hard or kind == 'hard', f.loc(x), '%s writes values regardless of held parameters but puts them back only where parameters are free' % f.name)
    # ---- saved settings
    for f in funcs:
        if f.kind in ('setter', 'deleter') or f.name in ('__init__', '__setstate__', '__set__'):
            continue                                    # changing the setting is what they are for
        if not any(setting_store(n) for n in ast.walk(f.node)) and f.name != 'maximize_loglike':
            continue
        f = View(f, lambda g: any(setting_store(n) for n in ast.walk(g.node)))
        fi = FI(f)
        toks = {}
        for n in ast.walk(f.node):
            t = setting_store(n)
            if t is None:
                continue
            obj, attr, val = t
            sv = saved_value(fi, val)
            if sv is not None and reads_setting(sv, obj, attr):
                toks[(obj, attr)] = True
        ismax = f.cls is None and f.name == 'maximize_loglike'
        if ismax:
            p = f.params[0]
            for a in PENALTY:
                toks.setdefault((p, a), False)
        if not toks:
            continue
        ctx.seen(f)
        for (obj, attr), has in sorted(toks.items()):
            def classify(node, obj=obj, attr=attr, fi=fi):
                mods, res = [], set()
                for x in ast.walk(node):
                    t = setting_store(x)
                    if t is not None and t[0] == obj and t[1] == attr:
                        sv = saved_value(fi, t[2])
                        if sv is not None and reads_setting(sv, obj, attr):
                            res.add(attr)
                        else:
                            mods.append((attr, x.lineno))
                    elif isinstance(x, ast.Call) and attr in PENALTY and isinstance(x.func, ast.Attribute) and obj_text(x.func.value) == obj and changes(prog, byname, x.func.attr, attr):
                        mods.append((attr, x.lineno))
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and attr in PENALTY and x.args and obj_text(x.args[0]) == obj and changes(prog, byname, x.func.id, attr):
                        mods.append((attr, x.lineno))
                return mods, res
            def quiet(node, fi=fi):
                """a statement that is itself the restore of a saved setting"""
                t = setting_store(node.value if isinstance(node, ast.Expr) else node)
                return t is not None and (lambda sv: sv is not None and reads_setting(sv, t[0], t[1]))(saved_value(fi, t[2]))
            def tokens(name, fi=fi, obj=obj, attr=attr):
                d = fi.saved(ast.Name(name, ast.Load()))
                return {attr} if d is not None and reads_setting(d, obj, attr) else ()
            r = Walk(fi, classify, quiet, tokens).run()
            bad = None
            for k in ('next', 'return', 'raise'):
                for s in r[k]:
                    for tok, line in s:
                        bad = bad or (k, line)
            ctx.ob('setting', '%s:%s' % (f.qual, attr), bad is None, f.loc() if bad is None else '%s:%d' % (f.module.rel, bad[1]),
                   '' if bad is None else '%s can be left %s with %s.%s as changed at line %d' % (f.name, 'by an exception' if bad[0] == 'raise' else 'normally', obj, attr, bad[1]))
    # ---- context managers
    for f in funcs:
        if not any('contextmanager' in ast.unparse(d) for d in f.node.decorator_list):
            continue
        manager(ctx, f, infos[f])
    # ---- everything with a restoring job must still be there
    for mod, cls, name in (('larch.model.abstract_model', 'AbstractChoiceModel', 'loglike_null'), ('larch.model.abstract_model', 'AbstractChoiceModel', 'likelihood_ratio')):
        prog.method(prog.cls(mod, cls), name)
    if nown < 1 and not any('manager' in k for k in ctx.obs):
        raise AnalysisBroken('no temporary change of parameter values found')


def callee(w):
    return w.func.attr if isinstance(w.func, ast.Attribute) else w.func.id


def passes_on(fi, writers):
    """the strength with which a helper writes the values its caller hands it, when that is all it does with values"""
    ws = [w for w in own_writes(fi, writers) if isinstance(w, ast.Call) and w.args]
    if len(ws) != 1 or fi.f.kind in ('setter', 'getter') or fi.f.name.startswith('__'):
        return None
    w = ws[0]
    v = w.args[-1]
    if not (isinstance(v, ast.Name) and v.id in fi.f.all_params and v.id not in fi.defs):
        return None
    if fi.f.default_of(v.id) is not None or guarded_by_param(fi.f.node, w, {v.id}) or restores_somewhere(fi, ws):
        return None
    soft = writers[callee(w)]
    return 'hard' if any(k.arg == 'respect_holdfast' and isinstance(k.value, ast.Constant) and k.value.value is False for k in w.keywords) else soft


def restores_somewhere(fi, ws):
    return any(isinstance(w, ast.Call) and w.args and (lambda sv: sv is not None and is_value_read(sv))(saved_value(fi, w.args[-1])) for w in ws)


def guarded_by_param(root, w, ps):
    """the write is executed only when the caller gave a value"""
    par = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    n = w
    while n in par:
        n = par[n]
        if isinstance(n, (ast.If, ast.IfExp)) and names_in(n.test) & ps and 'None' in ast.unparse(n.test):
            return True
    return False


def saved_value(fi, val):
    if val is None:
        return None
    return fi.saved(val)


def setting_store(n):
    """(object text, attribute, value) of a statement that stores an attribute, or of setattr"""
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
        return obj_text(n.targets[0].value), n.targets[0].attr, n.value
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
        return obj_text(n.target.value), n.target.attr, n.value
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
        return obj_text(n.args[0]), n.args[1].value, n.args[2]
    return None


def reads_setting(e, obj, attr):
    if isinstance(e, ast.Attribute):
        return e.attr == attr and obj_text(e.value) == obj
    if isinstance(e, ast.Call) and getattr(e.func, 'id', '') == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
        return e.args[1].value == attr and obj_text(e.args[0]) == obj
    return False


def changes(prog, byname, name, attr, seen=None):
    """does a function of this name (or what it calls, three levels deep) store the attribute"""
    seen = seen if seen is not None else set()
    if name in seen or len(seen) > 40:
        return False
    seen.add(name)
    for f in byname.get(name, []):
        for n in ast.walk(f.node):
            t = setting_store(n)
            if t is not None and t[1] == attr and f.name != '__init__':
                return True
    for f in byname.get(name, []):
        if f.name in ('fit_bhhh', 'simple_fit_bhhh') or len(seen) < 3:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in byname and n.func.id not in seen:
                    if changes(prog, byname, n.func.id, attr, seen):
                        return True
    return False


def manager(ctx, f, fi):
    """a generator context manager: everything changed before the yield is changed back, and consistency work after it is done, on an exception too"""
    ctx.seen(f)
    yields = [n for n in ast.walk(f.node) if isinstance(n, ast.Yield)]
    if not yields:
        return
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    y = yields[0]
    # statements executed on the exceptional exit of the yield
    protected = []
    n = y
    while n in par:
        p = par[n]
        if isinstance(p, ast.Try) and in_block(p.body, n):
            protected += p.finalbody
            for h in p.handlers:
                protected += h.body
        n = p
    pre = [t for s in f.node.body for t in settings_of(s) if s.lineno < y.lineno or t[3] < y.lineno]
    for obj, attr, val, line in pre:
        ok = any(o == obj and a == attr for s in protected for o, a, v, l in settings_of(s))
        ctx.ob('manager', '%s:%s' % (f.qual, attr), ok, '%s:%d' % (f.module.rel, line), '%s changes %s.%s and does not change it back when its body raises' % (f.name, obj, attr))
    # method calls on the same object after the yield, made on the normal way out only
    post = []
    inside = {id(x) for s in protected for x in ast.walk(s)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.lineno > y.lineno:
            post.append(n)
    if any(o == 'self' for o, a, v, l in pre):
        if not post:
            ctx.ob('follow-up', f.qual, True, f.loc())
        for n in post:
            ctx.ob('follow-up', '%s:%s' % (f.qual, n.func.attr), id(n) in inside, f.loc(n), '%s does not call %s when its body raises' % (f.name, n.func.attr))


def settings_of(s):
    out = []
    for n in ast.walk(s):
        t = setting_store(n)
        if t is not None:
            out.append(t + (n.lineno,))
    return out


def in_block(body, n):
    return any(n is s for s in body)
