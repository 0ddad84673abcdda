"""which quantities belong to the parameter values a model holds now.

Abstract interpretation of estimation code.  The state keeps a version for the values in the model and,
for every variable, the versions of the parameter values it was computed from (an equality partition:
only which of them are the same matters).  Loops run to a fixed point over the set of states.
"""
import ast

EVAL = {'loglike', 'loglike2', 'loglike2_bhhh', 'd_loglike', 'bhhh', '_loglike2_bhhh_tuple', 'neg_loglike', 'neg_d_loglike', 'neg_loglike2', 'd2_loglike', 'loglike3',
        'loglike_casewise', 'd_loglike_casewise', 'probability', 'constraint_converge_tolerance'}
SET = {'set_values'}
ONE = {'set_value', 'lock_value', 'lock_values'}
ALGO = {'fit_bhhh', 'simple_fit_bhhh', 'simple_step_bhhh', 'jumpstart_bhhh', 'maximize_loglike', 'estimate'}
SNAP = {'pvals'}
NOTHING = (frozenset(), False, None)
MIXED = frozenset({-1})
LIMIT = 6000


class TooMany(Exception):
    pass


class State:
    __slots__ = ('model', 'vars', 'consts', 'facts')

    def __init__(self, model=0, vars=None, consts=None, facts=None):
        self.model, self.vars, self.consts, self.facts = model, vars or {}, consts or {}, facts or {}

    def copy(self):
        return State(self.model, dict(self.vars), dict(self.consts), dict(self.facts))

    def canon(self):
        """the same state with the versions numbered in the order they are met"""
        m = {self.model: 0, -1: -1}
        out = {}
        for k in sorted(self.vars):
            t, pure, kind = self.vars[k]
            if not t and kind is None and not pure:
                continue
            if len(t) > 1:
                t = MIXED                               # of no single version, now or later
            for x in sorted(t):
                m.setdefault(x, len(m))
            out[k] = (frozenset(m[x] for x in t), pure, kind)
        s = State(0, out, self.consts, self.facts)
        return s

    def key(self):
        return (tuple(sorted(self.vars.items(), key=lambda x: x[0])), tuple(sorted((k, repr(v)) for k, v in self.consts.items())), tuple(sorted(self.facts.items())))


def last(n):
    """last line of a statement (positions of translated sources only mark where things start)"""
    return max([getattr(x, 'end_lineno', None) or 0 for x in ast.walk(n)] + [getattr(x, 'lineno', 0) for x in ast.walk(n)])


def dedupe(states):
    seen, out = set(), []
    for s, e in states:
        if e is not None and e[0] == 'return':
            out.append((s, e))
            continue
        c = s.canon()
        k = (c.key(), e)
        if k not in seen:
            seen.add(k)
            out.append((c, e))
    if len(out) > LIMIT:
        raise TooMany()
    return out


class Versions:
    def __init__(self, prog, f, model, events):
        """events(kind, node, state, info): called at every assignment, evaluation, minimisation and return"""
        self.prog, self.f, self.model, self.events = prog, f, model, events
        self.next = 1000
        self.traps = []
        self.local = {x.name: x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
        self.relevant = self.find_relevant()
        self.loops = [(x.lineno, last(x)) for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While))]
        self.reads = {(x.id, x.lineno) for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}

    def fresh(self):
        self.next += 1
        return self.next

    # --------------------------------------------------- which tests matter
    def find_relevant(self):
        names = set()

        def acts(n):
            for x in ast.walk(n):
                if isinstance(x, ast.Call) and (self.method(x.func) in SET | ONE | ALGO or any(self.bound(a) for a in list(x.args) + [k.value for k in x.keywords])):
                    return True
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names:
                    return True
            return False
        for _ in range(6):
            n0 = len(names)
            for x in ast.walk(self.f.node):
                if isinstance(x, (ast.If, ast.While)) and any(acts(s) for s in x.body + x.orelse):
                    names |= {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)}
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and any(isinstance(t, ast.Name) and t.id in names for t in x.targets):
                    names.add(x.value.id)
            if len(names) == n0:
                break
        return names

    def method(self, f):
        """name of the method of the model that is called"""
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.model:
            return f.attr
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return f.attr
        return None

    def bound(self, a):
        """an argument through which a function called may evaluate the model at values of its own choice"""
        if isinstance(a, ast.Attribute) and self.method(a) in EVAL | SET:
            return True
        if isinstance(a, ast.Lambda):
            return any(isinstance(x, ast.Call) and self.method(x.func) in EVAL | SET and x.args for x in ast.walk(a.body))
        if isinstance(a, ast.Call) and isinstance(a.func, (ast.Name, ast.Attribute)) and ast.unparse(a.func).split('.')[-1] == 'partial':
            return any(self.bound(x) for x in a.args)
        return False

    # ------------------------------------------------------------- running
    def run(self, init=None):
        s = init or State()
        return dedupe(self.block(self.f.node.body, [(s, None)]))

    def block(self, stmts, states):
        for st in stmts:
            nxt = []
            for s, e in states:
                if e is not None:
                    nxt.append((s, e))
                    continue
                self.trap(s)
                nxt.extend(self.stmt(st, s.copy()))
            for s, e in nxt:
                if e is None:
                    self.prune(s, st)
            states = dedupe(nxt)
        for s, e in states:
            if e is None:
                self.trap(s)
        return states

    def trap(self, s):
        """an exception may be raised in this state"""
        if self.traps:
            c = s.canon()
            k = c.key()
            for t in self.traps:
                t.setdefault(k, c)

    def prune(self, s, st):
        """forget what is not read any more"""
        end = last(st)
        first = min([lo for lo, hi in self.loops if lo <= st.lineno and end <= hi and (lo, hi) != (st.lineno, end)] + [end + 1])
        live = {n for n, line in self.reads if line >= first}
        for k in [k for k in s.vars if k not in live and k[0] != '@']:
            del s.vars[k]
        for k in [k for k in s.consts if k not in live]:
            del s.consts[k]
        for p in [p for p in s.facts if not self.names(p) <= live]:
            del s.facts[p]

    def stmt(self, n, s):
        k = type(n).__name__
        if k in ('Expr', 'Assign', 'AnnAssign', 'AugAssign', 'Return', 'Assert', 'Delete'):
            return self.simple(n, s, k)
        if k == 'Raise':
            self.events('raise', n, s, None)
            return [(s, ('raise', n.lineno))]
        if k == 'If':
            out = []
            for v in (True, False):
                for q in self.assume(n.test, v, s.copy()):
                    out.extend(self.block(n.body if v else n.orelse, [(q, None)]))
            return out
        if k in ('While', 'For'):
            return self.loop(n, s)
        if k == 'With':
            for i in n.items:
                self.value(i.context_expr, s)
            return self.block(n.body, [(s, None)])
        if k == 'Try':
            return self.tried(n, s)
        if k == 'Break':
            return [(s, ('break',))]
        if k == 'Continue':
            return [(s, ('continue',))]
        return [(s, None)]

    def tried(self, n, s):
        handlers = [h for h in n.handlers if not self.reraises(h)]
        self.traps.append({})
        body = self.block(n.body, [(s.copy(), None)])
        trap = self.traps.pop()
        out = []
        if n.orelse:
            for q, e in body:
                out.extend(self.block(n.orelse, [(q, None)]) if e is None else [(q, e)])
        else:
            out = [(q, e) for q, e in body if e is None or e[0] != 'raise' or not n.handlers]
        if n.handlers:
            hs = dedupe([(q, None) for q in trap.values()] + [(q, None) for q, e in body if e is not None and e[0] == 'raise'])
            for h in handlers:
                out.extend(self.block(h.body, [(q.copy(), None) for q, _ in hs]))
        else:
            out.extend((q, ('raise', n.lineno)) for q in trap.values())
        if n.finalbody:
            fin = []
            for q, e in dedupe(out):
                for r, e2 in self.block(n.finalbody, [(q, None)]):
                    fin.append((r, e2 if e2 is not None else e))
            out = fin
        return out

    def reraises(self, h):
        """the handler ends in raising again, and neither moves the model nor returns before that
        (enclosing handlers get every state of the body themselves)"""
        return isinstance(h.body[-1], ast.Raise) and not any(isinstance(x, ast.Return) or isinstance(x, ast.Call) and self.method(x.func) in SET | ONE | ALGO | EVAL for x in ast.walk(h))

    def loop(self, n, s):
        out, seen, todo = [], set(), [s]
        while todo:
            q = todo.pop()
            c = q.canon()
            if c.key() in seen:
                continue
            seen.add(c.key())
            if len(seen) > LIMIT:
                raise TooMany()
            starts = []
            if isinstance(n, ast.While):
                starts = self.assume(n.test, True, c.copy())
                for r in self.assume(n.test, False, c.copy()):
                    out.extend(self.block(n.orelse, [(r, None)]))
            else:
                r = c.copy()
                v = self.value(n.iter, r)
                self.bind(n.target, v, r, None)
                starts = [r]
                out.extend(self.block(n.orelse, [(c.copy(), None)]))
            for r in starts:
                for z, e in self.block(n.body, [(r, None)]):
                    if e is None or e == ('continue',):
                        todo.append(z)
                    elif e == ('break',):
                        out.append((z, None))
                    else:
                        out.append((z, e))
        return dedupe(out)

    # -------------------------------------------------------------- simple
    def simple(self, n, s, k):
        if self.traps:
            if any(isinstance(x, ast.Call) and (self.method(x.func) in SET | ONE | ALGO or any(self.bound(a) for a in list(x.args) + [y.value for y in x.keywords])) for x in ast.walk(n)):
                q = s.copy()
                q.model = self.fresh()
                self.trap(q)
        if k == 'Expr':
            self.value(n.value, s)
        elif k == 'Assert':
            pass
        elif k == 'Return':
            v = self.value(n.value, s) if n.value is not None else NOTHING
            self.events('return', n, s, v)
            return [(s, ('return', n.lineno))]
        elif k == 'Assign':
            v = self.value(n.value, s)
            for t in n.targets:
                self.bind(t, v, s, n.value)
        elif k == 'AnnAssign':
            if n.value is not None:
                self.bind(n.target, self.value(n.value, s), s, n.value)
        elif k == 'AugAssign':
            v = self.value(n.value, s)
            if isinstance(n.target, ast.Name):
                o = s.vars.get(n.target.id, NOTHING)
                self.bind(n.target, (o[0] | v[0], False, None), s, None)
            else:
                self.bind(n.target, v, s, None)
        return [(s, None)]

    def bind(self, t, v, s, node):
        if isinstance(t, ast.Name):
            self.kill(t.id, s)
            s.vars[t.id] = v
            if node is not None:
                try:
                    s.consts[t.id] = self.fold(node, s)
                except ValueError:
                    if isinstance(node, ast.Name) and t.id in self.relevant:
                        for p, b in list(s.facts.items()):
                            if self.names(p) == {node.id}:
                                s.facts[self.rename(p, node.id, t.id)] = b
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = node.elts if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts) else None
            vals = [self.value(x, s) for x in parts] if parts else [(v[0], False, None)] * len(t.elts)
            for x, y in zip(t.elts, vals):
                self.bind(x, y, s, None)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id != self.model:
            o = s.vars.get(t.value.id, NOTHING)
            s.vars[t.value.id] = (o[0] | v[0], False, o[2])
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != self.model:
            o = s.vars.get(t.value.id, NOTHING)
            s.vars[t.value.id] = (o[0] | v[0], False, o[2])
        else:
            src = ast.unparse(t)
            if src.split('.')[0] == self.model and ('.pf' in src or '._frame' in src or src.split('[')[0].endswith('pvals')) and not self.other_column(t):
                self.events('direct', t, s, v)
                s.model = self.fresh()

    @staticmethod
    def other_column(t):
        """a store of some column of the parameter frame other than the value"""
        if not isinstance(t, ast.Subscript):
            return False
        i = t.slice.elts[-1] if isinstance(t.slice, ast.Tuple) else t.slice
        if isinstance(i, ast.Constant) and isinstance(i.value, str):
            return i.value != 'value'
        return isinstance(i, ast.JoinedStr)

    # -------------------------------------------------------------- values
    def value(self, n, s):
        if n is None or isinstance(n, ast.Constant):
            return NOTHING
        if isinstance(n, ast.Name):
            return s.vars.get(n.id, NOTHING)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.model:
                if n.attr in SNAP:
                    return (frozenset({s.model}), True, None)
                if n.attr == 'pbounds':
                    return (frozenset(), False, 'bounds')
                return NOTHING
            v = self.value(n.value, s)
            src = ast.unparse(n)
            if src.split('.')[0] == self.model and ('.pf' in src or '._frame' in src) and n.attr in ('value', 'values'):
                return (frozenset({s.model}), n.attr == 'value' or v[1], None)
            if v[2] == 'optimum' and n.attr == 'x':
                return (v[0], True, None)
            if n.attr in ('values', 'array'):
                return v
            return (v[0], False, None)
        if isinstance(n, ast.Subscript):
            src = ast.unparse(n)
            if src.split('.')[0] == self.model and src.endswith("['value']") and ('.pf' in src or '._frame' in src):
                return (frozenset({s.model}), True, None)
            v = self.value(n.value, s)
            self.value(n.slice, s)
            if v[2] == 'optimum' and isinstance(n.slice, ast.Constant) and n.slice.value == 'x':
                return (v[0], True, None)
            return (v[0], False, None)
        if isinstance(n, ast.Call):
            return self.call(n, s)
        if isinstance(n, ast.IfExp):
            try:
                return self.value(n.body if self.fold(n.test, s) else n.orelse, s)
            except ValueError:
                pass
            b, c = self.value(n.body, s), self.value(n.orelse, s)
            return (b[0] | c[0], b[1] and c[1], b[2] if b[2] == c[2] else None)
        if isinstance(n, (ast.Lambda, ast.JoinedStr)):
            return NOTHING
        if isinstance(n, ast.NamedExpr):
            v = self.value(n.value, s)
            self.bind(n.target, v, s, n.value)
            return v
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            q = s.copy()
            tags = frozenset()
            for g in n.generators:
                v = self.value(g.iter, q)
                tags |= v[0]
                self.bind(g.target, (v[0], False, None), q, None)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                tags |= self.value(e, q)[0]
            return (tags, False, None)
        tags = frozenset()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                tags |= self.value(c, s)[0]
        return (tags, False, None)

    def call(self, n, s):
        m = self.method(n.func)
        args = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
        vals = [self.value(a, s) for a in args]
        kws = {k.arg: self.value(k.value, s) for k in n.keywords}
        if m in SET:
            v = vals[0] if vals else kws.get('values', kws.get(None, NOTHING))
            self.events('assign', n, s, v)
            s.model = list(v[0])[0] if v[1] and len(v[0]) == 1 else self.fresh()
            s.vars['@put back'] = (frozenset({s.model}), True, None) if v[1] else NOTHING
            return NOTHING
        if m in ONE:
            s.model = self.fresh()
            return NOTHING
        if m in ALGO:
            self.events('algorithm', n, s, None)
            s.model = self.fresh()
            return (frozenset({s.model}), False, 'optimum')
        if m in EVAL:
            x = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'x'), None)
            if x is not None and not (isinstance(x, ast.Constant) and x.value is None):
                v = self.value(x, s)
                s.model = list(v[0])[0] if v[1] and len(v[0]) == 1 else self.fresh()
            self.events('evaluate', n, s, None)
            return (frozenset({s.model}), False, None)
        if m is not None and self.sets(m):
            s.model = self.fresh()
            return (frozenset({s.model}), False, None)
        if m is not None and self.evaluates(m):
            return (frozenset({s.model}), False, None)
        g = self.local.get(n.func.id) if isinstance(n.func, ast.Name) else None
        if g is not None:
            called = {self.method(x.func) for x in ast.walk(g) if isinstance(x, ast.Call)} - {None}
            if called & (SET | ONE | ALGO) or any(self.sets(x) for x in called):
                s.model = self.fresh()
                return (frozenset({s.model}), False, None)
            if called & EVAL or any(self.evaluates(x) for x in called):
                return (frozenset({s.model}), False, None)
        if any(self.bound(a) for a in args + [k.value for k in n.keywords]) and ast.unparse(n.func).split('.')[-1] != 'minimize':
            # evaluated around a point that is given, by a function of the library
            start = frozenset().union(*[v[0] for v in vals], *[v[0] for v in kws.values()])
            self.events('differences', n, s, (vals, kws))
            if not self.returns_to_start(n):
                s.model = self.fresh()
            return (start, False, None)
        if any(self.bound(a) for a in args + [k.value for k in n.keywords]):
            self.events('minimise', n, s, (vals, kws))
            s.model = self.fresh()
            return (frozenset({self.fresh()}), False, 'optimum')
        # a function of the library that is given the model
        if isinstance(n.func, ast.Name) and any(isinstance(a, ast.Name) and a.id == self.model for a in args):
            if n.func.id in ALGO:
                s.model = self.fresh()
                return (frozenset({s.model}), False, 'optimum')
            try:
                g = self.prog.resolve(self.f.module, n.func.id)
            except Exception:
                g = None
            used = {x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute)} if hasattr(g, 'node') and hasattr(g, 'all_params') else set()
            if used & (SET | ONE | ALGO):
                s.model = self.fresh()
                return (frozenset({s.model}), False, 'optimum')
            if used & EVAL:
                return (frozenset({s.model}), False, None)
        tags = frozenset().union(*[v[0] for v in vals], *[v[0] for v in kws.values()])
        if isinstance(n.func, ast.Attribute) and m is None:
            v = self.value(n.func.value, s)
            if n.func.attr in ('copy', 'to_numpy', 'astype', 'to_dict') and isinstance(n.func.value, ast.expr):
                return (v[0] | tags, v[1], v[2])
            if n.func.attr in ('update', 'append', 'setdefault') and isinstance(n.func.value, ast.Name):
                s.vars[n.func.value.id] = (v[0] | tags, False, v[2])
            tags |= v[0]
        if isinstance(n.func, (ast.Name, ast.Attribute)) and ast.unparse(n.func).split('.')[-1] in ('asarray', 'array', 'asanyarray', 'float', 'dict', 'Series') and len(vals) == 1:
            return (vals[0][0] | tags, vals[0][1], vals[0][2])
        return (tags, False, None)

    def sets(self, name):
        """a method of the model, other than an evaluation, that assigns parameter values"""
        for g in self.versions_of(name):
            if any(isinstance(x, ast.Call) and self.method_of_self(x.func) in SET | ONE for x in ast.walk(g.node)):
                return name not in ('unmangle', 'mangle', 'loglike_null', 'loglike_constants_only')
        return False

    def returns_to_start(self, n):
        """the last evaluation made by the function called is at the point it was given"""
        g = None
        if isinstance(n.func, ast.Name):
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.ImportFrom) and any((a.asname or a.name) == n.func.id for a in x.names):
                    src = '.'.join(self.f.module.name.split('.')[:-x.level] + [x.module or '']) if x.level else x.module
                    mod = self.prog.module(src)
                    name = [a.name for a in x.names if (a.asname or a.name) == n.func.id][0]
                    g = mod.funcs.get(name) if mod is not None else None
            if g is None:
                try:
                    g = self.prog.resolve(self.f.module, n.func.id)
                except Exception:
                    g = None
        if g is None or not hasattr(g, 'node') or not hasattr(g, 'all_params'):
            return False
        args = g.all_params
        back = False
        for st in g.node.body:
            for x in ast.walk(st):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in args:
                    back = bool(x.args) and isinstance(x.args[0], ast.Name) and x.args[0].id in args and isinstance(st, (ast.Assign, ast.Expr, ast.Return))
                elif isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id in self.called_in(g) for a in list(x.args) + [k.value for k in x.keywords]):
                    back = False
        return back

    @staticmethod
    def called_in(g):
        """parameters that are functions, to judge by their use or their name"""
        return {x.func.id for x in ast.walk(g.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in g.all_params} | ({'f', 'func', 'fun'} & set(g.all_params))

    def evaluates(self, name):
        """a method of the model, other than the evaluations themselves, that returns what it evaluates"""
        return any(isinstance(x, ast.Call) and self.method_of_self(x.func) in EVAL for g in self.versions_of(name) for x in ast.walk(g.node)) and not self.sets(name)

    @staticmethod
    def method_of_self(f):
        return f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' else None

    def versions_of(self, name):
        for m in ('larch.model.abstract_model', 'larch.model.controller', 'larch.numba.model', 'larch.model.model', 'larch.model.parameter_frame'):
            mod = self.prog.module(m)
            for c in (mod.classes.values() if mod is not None else ()):
                g = c.methods.get(name)
                if g is not None and hasattr(g, 'node'):
                    yield g

    # ---------------------------------------------------------- predicates
    def assume(self, test, v, s):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not v, s)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == v
            if conj:                                    # all of them have this truth value
                cur = [s]
                for x in test.values:
                    cur = [r for q in cur for r in self.assume(x, v, q)]
                return cur
            out, cur = [], [s]
            for x in test.values:                       # the first that decides
                nxt = []
                for q in cur:
                    out.extend(self.assume(x, v, q.copy()))
                    nxt.extend(self.assume(x, not v, q.copy()))
                cur = nxt
            return [q for q, _ in dedupe([(q, None) for q in out])]
        try:
            return [s] if bool(self.fold(test, s)) == v else []
        except ValueError:
            pass
        self.value(test, s)
        test, flip = self.normal(test)
        ns = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} - {'len', 'isinstance', 'str'}
        if ns and ns <= self.relevant and (isinstance(test, ast.Name) or any(isinstance(x, ast.Constant) for x in ast.walk(test))):
            p = ast.unparse(test)
            want = v != flip
            if p in s.facts:
                return [s] if s.facts[p] == want else []
            s.facts[p] = want
        return [s]

    @staticmethod
    def normal(t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn)):
            op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(t.ops[0])]()
            return ast.Compare(t.left, [op], t.comparators), True
        return t, False

    @staticmethod
    def names(p):
        return {x.id for x in ast.walk(ast.parse(p, mode='eval')) if isinstance(x, ast.Name)} - {'len', 'isinstance', 'str'}

    @staticmethod
    def rename(p, a, b):
        t = ast.parse(p, mode='eval')
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and x.id == a:
                x.id = b
        return ast.unparse(t)

    def kill(self, name, s):
        s.consts.pop(name, None)
        for p in [p for p in s.facts if name in self.names(p)]:
            del s.facts[p]

    def fold(self, n, s):
        """value of a constant expression"""
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in s.consts:
                return s.consts[n.id]
            raise ValueError
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return tuple(self.fold(x, s) for x in n.elts)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'upper', 'strip') and not n.args:
                v = self.fold(n.func.value, s)
                if isinstance(v, str):
                    return getattr(v, n.func.attr)()
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and ast.unparse(n.args[1]) == 'str':
                return isinstance(self.fold(n.args[0], s), str)
            raise ValueError
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.fold(n.operand, s)
        if isinstance(n, ast.BoolOp):
            bad = False
            for x in n.values:
                try:
                    if bool(self.fold(x, s)) != isinstance(n.op, ast.And):
                        return not isinstance(n.op, ast.And)
                except ValueError:
                    bad = True
            if bad:
                raise ValueError
            return isinstance(n.op, ast.And)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.fold(n.left, s), self.fold(n.comparators[0], s)
            op = type(n.ops[0])
            if op in (ast.Eq, ast.NotEq):
                return (a == b) == (op is ast.Eq)
            if op in (ast.Is, ast.IsNot):
                return (a is b) == (op is ast.Is)
            if op in (ast.In, ast.NotIn) and isinstance(b, (tuple, str)):
                return (a in b) == (op is ast.In)
        raise ValueError
