"""P24: matrices and lookups in an open-matrix file are replaced only on request, and fit the file."""
import ast
import copy
import re

from ..absint import Interp, Domain, V, State, NOLAB, TOP
from ..logic import entails, facts, lit
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of every method of the open-matrix class with a typestate of the stored nodes: each node creation, replacement, removal and shape write is an event, checked against the path conditions that dominate it')
NOTE = 'element writes into an existing matrix through the array objects themselves, and what the HDF5 library does inside one call, are outside the analysis; the temporary matrix of change_atom_type is assumed not to be a name in use'
EXPLAIN = ('All methods of OMX are walked path by path, helper methods in place.  Node events: create_carray, remove_node, _f_rename(overwrite), _f_remove, a store to the SHAPE attribute.  Path conditions are propagated as clauses.')
ASSUME = ['PyTables raises before anything is stored when an array cannot be stored']

GROUP = re.compile(r'(self\.(data|lookup))\b')
NEST = {'create_carray', 'create_array', 'create_earray', 'create_table'}


def group_of(v):
    m = re.match(r"^(?:self\.(data|lookup)|'/(data|lookup)')$", v.expr)
    return (m.group(1) or m.group(2)) if m else None


def norm(e):
    """texts of shapes as written by numpy helpers"""
    for fn in ('numpy.asanyarray', 'numpy.asarray', 'np.asarray', 'numpy.atleast_1d', 'np.asanyarray', 'tuple', 'int', 'list'):
        while e.startswith(fn + '(') and e.endswith(')'):
            e = e[len(fn) + 1:-1]
    return e


_SYM = {}


def symbol(e):
    """a parsable stand-in for the text of a value"""
    if e not in _SYM:
        try:
            ast.parse(e, mode='eval')
            _SYM[e] = e
        except (SyntaxError, ValueError):
            _SYM[e] = 'value_%d' % len(_SYM)
    return _SYM[e]


class Ip(Interp):
    def ev(self, n, st):
        v = super().ev(n, st)
        s = symbol(v.expr)
        return v if s == v.expr else v.with_(expr=s)

    def e_Slice(self, n, st):
        parts = [self.ev(x, st) if x is not None else V('None', NOLAB, None) for x in (n.lower, n.upper, n.step)]
        return V('slice(%s)' % ', '.join(p.expr for p in parts), frozenset().union(*[p.labels for p in parts]))


class Omx(Domain):
    cap = 40
    max_depth = 5

    def __init__(self, ctx, cls, entry):
        self.ctx, self.cls, self.entry = ctx, cls, entry
        self.name = entry.name
        self.bad = []           # (rule, func, node, msg)
        self.good = []
        self.loops = []
        self.copied = set()     # (copy, source): which nodes are filled from which
        self.flags = {}

    def inline(self, g, ip):
        return g.cls is self.cls and g.kind not in ('getter',) and g.name not in ('add_blank_matrix', 'add_blank_lookup', 'close', '__init__') or (g is self.entry)

    def join_fact(self, k, a, b):
        if k in ('mut', 'copied', 'shape', 'created'):
            return (a or frozenset()) | (b or frozenset())
        return Domain.join_fact(self, k, a, b)

    def put(self, ip, rule, node, ok, msg):
        f = ip.frame.func
        (self.good if ok else self.bad).append((rule, f, node, msg))

    def add(self, st, k, x):
        st.facts[k] = st.facts.get(k, frozenset()) | {x}

    # ------------------------------------------------------------------
    def on_load_attr(self, ip, node, base, attr, st):
        if base.expr == 'self' and attr == 'shape':
            return V('self.shape', NOLAB, TOP, ('tuple', [V('self.shape[0]'), V('self.shape[1]')])) if False else V('self.shape', frozenset(['shape']))
        return None

    def asked(self, ip, st):
        """does the way to here imply that the caller asked to overwrite?"""
        if entails(st.conds, [('overwrite', True)]):
            return True
        return False

    def on_call(self, ip, node, fv, args, kw, st):
        nm = fv.expr.rsplit('.', 1)[-1]
        recv = fv.expr.rsplit('.', 1)[0] if '.' in fv.expr else ''
        if nm in ('asanyarray', 'asarray', 'atleast_1d') and args:
            return args[0]
        if facts(st.conds) is None:
            return V('?infeasible')
        if isinstance(fv.obj, tuple) and fv.obj[0] == 'class' and fv.obj[1] is self.cls:
            if fv.expr == 'cls':
                return V('self', NOLAB, TOP, ('inst', self.cls))
            return V('other_file', NOLAB)
        if nm in ('add_blank_matrix', 'add_blank_lookup') and recv == 'self':
            a = dict(kw)
            f = self.cls.methods[nm]
            for p, v in zip(f.params[1:], args):
                a.setdefault(p, v)
            g = 'data' if nm.endswith('matrix') else 'lookup'
            nmv = a.get('name', V('?'))
            sh = a.get('shape')
            return V('blank(%s,%s)' % (g, nmv.expr), frozenset(['blank']), TOP, ('blank', g, nmv.expr, sh.expr if sh is not None else None))
        if nm in NEST and recv == 'self':
            return self.create(ip, node, args, kw, st)
        if nm == 'remove_node':
            where, name = (args + [None, None])[:2]
            where = where or kw.get('where')
            name = name or kw.get('name')
            self.replace(ip, node, where, name, None, st, 'removed')
            return V('None', NOLAB, None)
        if nm in ('_f_remove', '_f_rename', 'rename_node', '_f_move', 'move_node', '_f_copy', 'copy_node'):
            b = fv.obj[1] if isinstance(fv.obj, tuple) and fv.obj[0] == 'bound' else None
            if nm in ('rename_node', 'move_node', 'copy_node'):
                raise AnalysisBroken('unmodelled node operation %s in %s' % (nm, ip.frame.func.qual))
            fresh = b is not None and isinstance(b.obj, tuple) and b.obj[0] in ('blank', 'node')
            if nm == '_f_remove':
                self.put(ip, 'replace-on-request', node, fresh, 'removes a stored node (%s) that it did not make itself' % recv)
                self.add(st, 'mut', 'removed')
            else:
                ow = kw.get('overwrite')
                target = (args or [kw.get('newname')])[0]
                self.put(ip, 'replace-on-request', node, fresh, 'moves a stored node (%s) that it did not make itself' % recv)
                if ow is not None and ow.const is not False and fresh and target is not None:
                    self.replace(ip, node, V('self.' + b.obj[1]), target, b, st, 'replaced')
                self.add(st, 'mut', 'renamed')
            return V('None', NOLAB, None)
        return None

    def replace(self, ip, node, where, name, new, st, word):
        g = group_of(where) if where is not None else None
        f = ip.frame.func
        if g is None or name is None:
            self.put(ip, 'replace-on-request', node, False, 'a node is %s in a group the analysis cannot identify' % word)
            return
        absent = entails(st.conds, [lit('%s not in self.%s._v_children' % (name.expr, g))])
        ok = self.asked(ip, st) or absent
        how = ''
        if not ok:
            # an operation that rewrites what is there: the new content must come from the same node
            src = 'self.%s._v_children[%s]' % (g, name.expr)
            src2 = 'self.%s[%s]' % (g, name.expr)
            own = new is not None and (any(s in new.expr or s in (new.obj[3] or '') if len(new.obj) > 3 and isinstance(new.obj[3], str) else s in new.expr for s in (src, src2))
                                       or any(c[0] == new.expr and (src in c[1] or src2 in c[1]) for c in self.copied))
            ok = own
        self.put(ip, 'replace-on-request', node, ok, 'a stored %s can be %s although the caller did not ask for overwriting' % ('matrix' if g == 'data' else 'lookup', word))
        if word == 'removed':
            self.put(ip, 'old-kept-until-new-stored', node, absent, 'the stored %s is removed before its replacement has been stored; when storing fails the content is lost' % ('matrix' if g == 'data' else 'lookup'))
        else:
            self.put(ip, 'old-kept-until-new-stored', node, True, '')
        self.add(st, 'mut', word)

    def create(self, ip, node, args, kw, st):
        a = dict(kw)
        for p, v in zip(('where', 'name', 'atom', 'shape'), args):
            a.setdefault(p, v)
        g = group_of(a['where']) if 'where' in a else None
        if g is None:
            self.put(ip, 'shape-checked', node, False, 'an array is stored in a group the analysis cannot identify')
            return V('?')
        obj, shp = a.get('obj'), a.get('shape')
        conds = st.conds
        nomat = [lit('0 < self.data._v_nchildren', False), lit('self.data._v_nchildren == 0'), lit('self.data._v_nchildren', False), lit('len(self.data._v_children) == 0'), lit('self.data._v_children', False)]
        ign = [('ignore_shape', True)]
        k = 2 if g == 'data' else 1
        internal = st.facts.get('ignoring', False)
        if obj is not None:
            x = obj.expr
            dims = [lit('len(%s.shape) == %d' % (x, k)), lit('%s.ndim == %d' % (x, k))]
            if g == 'data':
                eq = [lit('%s.shape == self.shape' % x)]
            else:
                eq = [lit('%s.shape[0] in self.shape' % x), lit('%s.shape[0] == self.shape[0]' % x), lit('%s.shape[0] == self.shape[1]' % x), lit('len(%s) in self.shape' % x), lit('%s.size in self.shape' % x)]
            ignored = entails(conds, ign) or internal or self.param_true(ip, st, 'ignore_shape')
            ok1 = ignored or entails(conds, dims) or (g == 'data' and entails(conds, eq))
            shape_set = any(x in s for s in st.facts.get('shape', ()))
            first = entails(conds, nomat + ign)
            ok2 = ignored or entails(conds, eq + ign + nomat) and (entails(conds, eq + ign) or g == 'lookup' or shape_set or not first)
            if g == 'data' and ok2 and not ignored and not entails(conds, eq + ign):
                ok2 = shape_set
            self.put(ip, 'shape-checked', node, ok1, 'an array is stored as a %s without a test of its number of dimensions' % ('matrix' if g == 'data' else 'lookup'))
            self.put(ip, 'shape-checked', node, ok2, 'an array is stored as a %s without a test of its shape against the file (and without the caller asking for that)' % ('matrix' if g == 'data' else 'lookup'))
            if self.param_true(ip, st, 'ignore_shape') and 'ignore_shape' not in self.entry.all_params:
                self.add(st, 'created', 'ignoring')
            val = obj
        elif shp is not None:
            x = norm(shp.expr)
            goals = []
            if g == 'data':
                for t in (x, x + '[slice(None, 2, None)]', x + '[slice(0, 2, None)]'):
                    goals.append(lit('%s == self.shape' % t))
                ok = x == 'self.shape' or entails(conds, goals)
            else:
                goals = [lit('%s in self.shape' % x), lit('%s == self.shape[0]' % x), lit('%s == self.shape[1]' % x)]
                ok = x in ('self.shape[0]', 'self.shape[1]') or entails(conds, goals) or any(x in s for s in st.facts.get('shape', ()))
            self.put(ip, 'shape-checked', node, ok, 'a blank %s is stored without a test of its shape against the file' % ('matrix' if g == 'data' else 'lookup'))
            val = shp
        else:
            raise AnalysisBroken('array stored without obj or shape in %s' % ip.frame.func.qual)
        self.add(st, 'mut', 'created')
        nme = a['name'].expr if 'name' in a else '?'
        return V('node(%s,%s,%s)' % (g, nme, val.expr), val.labels | {'node'}, TOP, ('node', g, nme, val.expr))

    def param_true(self, ip, st, p):
        return any((id(fr), p) in self.flags for fr in ip.frames)

    def on_enter(self, ip, func, st):
        for p in ('ignore_shape',):
            v = st.env.get(p) if p in func.all_params else None
            if v is not None and v.const is True:
                self.flags[(id(ip.frame), p)] = ip.frame

    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        if isinstance(base.obj, tuple) and base.obj[0] in ('blank', 'node'):
            self.copied.add((base.expr, val.expr))

    def on_store_attr(self, ip, node, base, attr, val, st):
        if attr == 'SHAPE' and base.expr.endswith('_v_attrs'):
            srcs = [val.expr]
            for c in st.facts.get('filled', ()):
                srcs.append(c)
            st.facts['shape'] = st.facts.get('shape', frozenset()) | frozenset(srcs) | frozenset(['SHAPE'])
            self.add(st, 'mut', 'shape')
            if not self.param_true(ip, st, 'ignore_shape'):
                self.add(st, 'shape', 'own SHAPE')
        if base.expr == 'self' and attr == 'shape':
            st.facts['shape'] = st.facts.get('shape', frozenset()) | {val.expr, 'SHAPE'}

    def on_raise(self, ip, func, node, st):
        if facts(st.conds) is None or self.entry.kind == 'classmethod':
            return
        if self.loops and (func is not self.entry or any(x is node for l in self.loops for x in ast.walk(l))):
            return          # a later item of several
        # contradiction: a file without matrices has no matrix of that name
        m = st.facts.get('mut', frozenset())
        k = facts(st.conds)
        if m == {'shape'} or m == frozenset(['shape']):
            none = [lit('0 < self.data._v_nchildren', False), lit('self.data._v_nchildren == 0'), lit('self.data._v_nchildren', False)]
            if any(k.get(a) == w for a, w in none) and any(w and a.endswith('in self.data._v_children') for a, w in k.items()):
                return
        self.put(ip, 'rejection-changes-nothing', node, not m, 'a request is rejected after the file has already been changed (%s)' % ', '.join(sorted(m)))

    def on_loop(self, ip, node, itv, st):
        return None


def fill_tracking(cls):
    """`shp[0] = x[0]` style fills: text of what goes into local arrays is kept with the array"""
    return cls


class OmxFill(Omx):
    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        super().on_store_sub(ip, node, base, idx, val, aug, st)
        if 'empty(' in base.expr or 'zeros(' in base.expr:
            st.facts['filled'] = st.facts.get('filled', frozenset()) | {val.expr}

    def join_fact(self, k, a, b):
        if k == 'filled':
            return (a or frozenset()) | (b or frozenset())
        return super().join_fact(k, a, b)


def check(ctx):
    prog = ctx.prog
    mod = prog.need_module('larch.omx')
    c = prog.cls('larch.omx', 'OMX')
    ctx.rule('replace-on-request', 'a stored node is removed or replaced only where the path implies that it is absent, that the caller asked for overwriting, or that the new content is computed from that very node', 6)
    ctx.rule('old-kept-until-new-stored', 'no stored node is removed before its replacement has been stored', 2)
    ctx.rule('shape-checked', 'every array stored has been compared with the shape of the file on the path to the store, unless the caller asked to ignore shapes or it is the first matrix and sets the shape', 6)
    ctx.rule('rejection-changes-nothing', 'on every path that ends in an explicit rejection nothing has been created, replaced or re-shaped before', 15)
    ctx.rule('shape-attribute', 'assigning the shape of a file either stores it or is only accepted when both dimensions agree; an operation that stores arrays of a new shape also stores that shape', 2)
    ctx.rule('children-iteration', 'no loop runs over the live children of a group while its body replaces nodes in that group', 2)
    ctx.rule('lookup-dimension', 'the length of a lookup is taken from its only dimension', 2)
    ctx.rule('whole-node-copied', 'when a node is rewritten element by element, the copy covers the extent of that node', 2)
    ctx.rule('opened-for-reading', 'a file is truncated on opening only when it is a temporary one; files that are only read from are opened for reading', 4)
    done = set()
    for f in c.functions():
        if f.name in ('_remake_command', '_evaluate_single_item', '__init__', '__repr__', 'info', '__getattr__'):
            if f.name not in ('__init__',):
                continue
        ctx.seen(f)
        if f.name == '__init__' or f.kind == 'getter':
            continue
        if f.name.startswith('_') and not f.name.startswith('__') and any(isinstance(n, ast.Attribute) and n.attr == f.name for g in c.functions() if g is not f for n in ast.walk(g.node)):
            continue        # a helper: analysed in place at its callers
        d = OmxFill(ctx, c, f)
        d.loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        ip = Ip(prog, d)
        args = {}
        if f.kind == 'classmethod':
            args[f.params[0]] = V('cls', NOLAB, TOP, ('class', c))
        else:
            args[f.params[0]] = V('self', NOLAB, TOP, ('inst', c))
        res = ip.run(f, args, cls=c)
        bad = {}
        for rule, g, node, msg in d.bad:
            bad.setdefault((rule, g.qual, msg), (g, node))
        for rule, g, node, msg in d.good:
            ctx.ob(rule, '%s via %s' % (g.name, f.name), True, g.loc(node))
        for (rule, q, msg), (g, node) in bad.items():
            ctx.ob(rule, '%s: %s' % (q, msg[:60]), False, g.loc(node), '%s: %s (reached from %s)' % (g.name, msg, f.name))
        if any('ignoring' in s.facts.get('created', ()) for s in res['return']):
            for s in res['return']:
                if 'ignoring' in s.facts.get('created', ()):
                    ctx.ob('shape-attribute', f.qual + ' stores new shape', 'own SHAPE' in s.facts.get('shape', ()), f.loc(),
                           '%s stores arrays of another shape (ignore_shape) and can return without storing that shape' % f.name)
        if f.kind == 'setter' and f.name == 'shape':
            x = f.params[1]
            eqs = [[lit('%s[%d] == self.shape[%d]' % (x, i, i))] for i in (0, 1)]
            for s in res['return']:
                if facts(s.conds) is None:
                    continue
                stored = 'SHAPE' in s.facts.get('shape', ())
                both = all(entails(s.conds, e) for e in eqs) or entails(s.conds, [lit('%s == self.shape' % x)]) or entails(s.conds, [lit('tuple(%s) == self.shape' % x)])
                ctx.ob('shape-attribute', 'OMX.shape setter', stored or both, f.loc(),
                       'assigning a shape that differs from the shape of the stored matrices in one dimension returns normally without effect')
    syntactic(ctx, prog, c)


def syntactic(ctx, prog, c):
    mutators = set()
    meths = {f.name: f for f in c.functions() if f.kind not in ('getter', 'setter')}
    # methods that may create, replace or remove nodes (transitively)
    changed = True
    while changed:
        changed = False
        for n, f in meths.items():
            if n in mutators:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in NEST | {'remove_node', '_f_remove', '_f_rename'} or x.func.attr in mutators and isinstance(x.func.value, ast.Name)):
                    mutators.add(n)
                    changed = True
                    break
    for f in c.functions():
        local = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                local.setdefault(n.targets[0].id, []).append(n.value)

        def resolve(e, depth=0):
            while depth < 4 and isinstance(e, ast.Name):
                before = [v for v in local.get(e.id, ()) if v.lineno < e.lineno]
                if not before:
                    break
                e = max(before, key=lambda v: v.lineno)
                depth += 1
            return e

        def txt(e):
            """expression with the latest plain assignment of locals substituted"""
            class Sub(ast.NodeTransformer):
                def visit_Name(self, n):
                    return resolve(n) if isinstance(n.ctx, ast.Load) else n
            return ast.unparse(Sub().visit(copy.deepcopy(e)))
        for n in ast.walk(f.node):
            if isinstance(n, ast.For):
                it = resolve(n.iter)
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('keys', 'items', 'values') and not it.args:
                    it = it.func.value
                t = txt(it)
                m = re.match(r'^self\.(data|lookup)\._v_children$', t)
                if m:
                    hit = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                           (x.func.attr in NEST | {'remove_node', '_f_remove', '_f_rename'} or x.func.attr in mutators and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self')]
                    ctx.ob('children-iteration', '%s over %s' % (f.qual, t), not hit, f.loc(n), '%s replaces nodes while it runs over the live children of self.%s: it stops with an error part way' % (f.name, m.group(1)))
                elif re.search(r'self\.(data|lookup)\._v_children', t):
                    ctx.ob('children-iteration', '%s over %s' % (f.qual, t), True, f.loc(n))
            # lookup dimension
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape':
                b = txt(n.value.value)
                if re.match(r'^self\.lookup(\._v_children)?\[', b) and isinstance(n.slice, ast.Constant):
                    ctx.ob('lookup-dimension', '%s %s' % (f.qual, ast.unparse(n)), n.slice.value == 0, f.loc(n), '%s: a lookup has one dimension, shape[%r] of it does not exist' % (f.name, n.slice.value))
            # copies
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == 'range':
                for s in n.body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.Subscript):
                        src = txt(s.value.value)
                        dst = txt(s.targets[0].value)
                        m = re.match(r'^self\.(data|lookup)(\._v_children)?\[', src)
                        if m and 'add_blank' in dst:
                            bound = ' '.join(txt(a) for a in n.iter.args)
                            ok = len(n.iter.args) == 1 and (bound in ('%s.shape[0]' % src, 'len(%s)' % src, '%s.nrows' % src) or m.group(1) == 'data' and bound == 'self.shape[0]')
                            ctx.ob('whole-node-copied', '%s %s' % (f.qual, m.group(1)), ok, f.loc(n), '%s copies %s over range(%s), which is not its extent' % (f.name, src, bound))
                            call = resolve(s.targets[0].value)
                            if isinstance(call, ast.Call):
                                sh = [k.value for k in call.keywords if k.arg == 'shape'] + call.args[2:3]
                                if m.group(1) == 'lookup':
                                    ctx.ob('whole-node-copied', '%s %s size' % (f.qual, m.group(1)), bool(sh) and txt(sh[0]) in ('%s.shape[0]' % src, 'len(%s)' % src, '%s.nrows' % src), f.loc(call),
                                           '%s makes the replacement of a lookup without the length of that lookup' % f.name)
            # opening
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ('OMX', 'cls', 'super().__init__', 'self.__init__', '_tb.open_file', 'tables.open_file'):
                mode = [k.value for k in n.keywords if k.arg == 'mode'] + (n.args[1:2] if not any(isinstance(a, ast.Starred) for a in n.args) else [])
                ms = [x.value for m in mode for x in ast.walk(m) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                ctx.ob('opened-for-reading', '%s %s' % (f.qual, ast.unparse(n.func)), 'w' not in ms, f.loc(n), '%s opens a file in a way that discards what it contains' % f.name)
                if ast.unparse(n.func) == 'OMX':
                    ctx.ob('opened-for-reading', '%s source' % f.qual, all(m == 'r' for m in ms), f.loc(n), '%s opens a file it only reads from for writing' % f.name)
    # the constructor truncates only its own temporary file
    init = c.methods['__init__']
    for n in ast.walk(init.node):
        if isinstance(n, ast.Constant) and n.value == 'w':
            par = [s for s in ast.walk(init.node) if isinstance(s, ast.If) and any(x is n for b in s.body for x in ast.walk(b))]
            ok = any(lit(ast.unparse(p.test)) in (lit('len(arg) == 0'), lit('arg', False), lit('len(arg) < 1'), lit('len(arg)', False)) for p in par)
            ctx.ob('opened-for-reading', 'OMX.__init__ temporary', ok, init.loc(n), 'the constructor can open a file named by the caller with mode w')
    # the mode change refuses to truncate
    cm = c.methods.get('change_mode')
    if cm is not None:
        ok = any(isinstance(n, ast.If) and lit(ast.unparse(n.test)) == lit("mode == 'w'") and any(isinstance(x, ast.Raise) for x in n.body) for n in ast.walk(cm.node))
        ok = ok or any(isinstance(n, ast.If) and 'w' in ast.unparse(n.test) and any(isinstance(x, ast.Raise) for b in (n.body, n.orelse) for x in b) for n in ast.walk(cm.node))
        ctx.ob('opened-for-reading', 'OMX.change_mode', ok, cm.loc(), 'change_mode does not refuse mode w, which would discard the content of the file')
