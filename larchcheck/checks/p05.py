"""P05: nesting-tree edits never leave stale node orders behind.

The derived orders are found (lazy attributes, and attributes that query
methods fill in).  Every method of the tree is analysed path by path with the
set of derived orders that may be filled and the set that may be stale; an edit
of nodes, edges or elemental order makes the filled ones stale, discarding one
makes it neither.  No order may be stale when the method ends.
"""
import ast
import re
import os
import glob

from ..absint import Domain, Interp, V, State, TOP, NOLAB
from ..program import AnalysisBroken

TECHNIQUE = 'typestate analysis (filled / stale derived orders) over every path of every method, with the inherited mutators enumerated from the base class source'
NOTE = ('all methods of NestingTree and every mutator it inherits; direct writes to the private adjacency dictionaries by code outside the class, and failures inside networkx itself, are not modelled')
EXPLAIN = ('Derived orders = lazy attributes and attributes filled by query methods. Each path of each method is followed with the sets of possibly-filled and possibly-stale orders; '
           'none may be stale at a return or an explicit raise. Inherited networkx methods that write the adjacency directly must be overridden.')
ASSUME = ['networkx edits the graph only in the mutator methods that its source shows', 'marking the owning model stale does not itself query the tree']

FALLBACK = {'add_node', 'add_nodes_from', 'remove_node', 'remove_nodes_from', 'add_edge', 'add_edges_from', 'remove_edge', 'remove_edges_from', 'clear', 'clear_edges'}
ADJ = {'_adj', '_node', '_succ', '_pred'}
ORDER = {'_suggested_elemental_order', '_root_id'}


def nx_mutators():
    """public methods of networkx DiGraph that write the adjacency or node dictionaries themselves"""
    for pat in ('/opt/venv/lib/python3*/site-packages/networkx/classes', '/usr/lib/python3/dist-packages/networkx/classes'):
        for d in glob.glob(pat):
            out, via = {}, {}
            for fn, cn in (('graph.py', 'Graph'), ('digraph.py', 'DiGraph')):
                t = ast.parse(open(os.path.join(d, fn)).read())
                for c in t.body:
                    if isinstance(c, ast.ClassDef) and c.name == cn:
                        for m in c.body:
                            if isinstance(m, ast.FunctionDef) and not m.name.startswith('_') and not m.decorator_list:
                                out[m.name] = writes(m)
            muts = {k for k, v in out.items() if v}
            if FALLBACK - {'clear_edges'} <= muts:
                return muts, 'networkx source'
    return FALLBACK, 'fixed list'


def writes(m):
    loc = set()
    for n in ast.walk(m):        # local aliases of the dictionaries
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and root_adj(n.value, loc):
            loc.add(n.targets[0].id)
    for n in ast.walk(m):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                if isinstance(t, ast.Subscript) and root_adj(t.value, loc):
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clear', 'pop', 'update') and root_adj(n.func.value, loc):
            return True
    return False


def root_adj(n, loc=()):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        if isinstance(n, ast.Attribute) and n.attr in ADJ and isinstance(n.value, ast.Name) and n.value.id == 'self':
            return True
        n = n.value
    return isinstance(n, ast.Name) and n.id in loc


def keeps_old(val, attr):
    return re.search(r'\b%s\b' % re.escape(attr), val.expr or '') is not None


class Orders(Domain):
    cap = 40
    max_depth = 6

    def __init__(self, ctx, root, cls, caches, muts, fillers):
        self.ctx, self.root, self.cls, self.caches, self.muts, self.fillers = ctx, root, cls, caches, muts, fillers
        self.edits = 0

    def inline(self, f, ip):
        if f.kind == 'getter':
            return False
        if f.name in ('touch', '__init__'):
            return False
        return (f.cls is not None and f.cls in ip.prog.mro(self.cls)) or f.cls is None and f.module is self.cls.module or f.name == 'invalidate'

    def edit(self, st):
        self.edits += 1
        st.facts['stale'] = st.facts['stale'] | st.facts['full']

    def drop(self, st, names):
        names = frozenset(names)
        st.facts['stale'] = st.facts['stale'] - names
        st.facts['full'] = st.facts['full'] - names

    def fill(self, st, names):
        st.facts['full'] = st.facts['full'] | frozenset(names)

    def on_call(self, ip, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else (node.func.id if isinstance(node.func, ast.Name) else '')
        o = fv.obj
        mine = isinstance(o, tuple) and o[0] == 'method' and o[1].cls in ip.prog.mro(self.cls)
        if not mine and nm in self.muts and isinstance(node.func, ast.Attribute):
            recv = fv.expr.rsplit('.', 1)[0]
            if recv in ('self', 'super') or (args and args[0].expr == 'self'):
                self.edit(st)
                return V('None', NOLAB, None)
        if nm == 'invalidate' and not (isinstance(o, tuple) and o[0] in ('method', 'unbound') and o[1].cls is not None and o[1].cls.name == self.cls.name):
            names = [a.const for a in list(args) + list(kw.values()) if isinstance(a.const, str)]
            if names and any(a.expr == 'self' for a in list(args) + list(kw.values())):
                self.drop(st, names)
                return V('None', NOLAB, None)
            if any('keyof:lazies' in a.labels for a in list(args) + list(kw.values())):
                self.drop(st, self.caches['lazy'])
                return V('None', NOLAB, None)
        if nm in ('pop', '__delitem__') and fv.expr.startswith('self.__dict__') and args:
            if isinstance(args[0].const, str):
                self.drop(st, [args[0].const])
            elif 'keyof:lazies' in args[0].labels:
                self.drop(st, self.caches['lazy'])
        if nm in ('clear',) and fv.expr.startswith('self.'):
            a = fv.expr.split('.')[1]
            if a in self.caches['memo']:
                self.drop(st, [a])
            if a in ADJ:
                self.edit(st)
        if nm in self.fillers and fv.expr.startswith('self.'):
            self.fill(st, self.caches['all'])
        if nm == 'delattr' and args and args[0].expr == 'self' and len(args) > 1 and isinstance(args[1].const, str):
            self.drop(st, [args[1].const])
        return None

    def on_loop(self, ip, node, itv, st):
        # a loop over the lazy attributes of the class
        src = ast.unparse(node)
        if 'lazy' in src and ('vars(' in src or '__dict__' in src or 'dir(' in src):
            body = ast.unparse(ast.Module(node.body, [])) if hasattr(node, 'body') else src
            if 'invalidate' in body or 'pop' in body or 'del ' in body or 'delattr' in body:
                self.drop(st, self.caches['lazy'])
        return None

    def on_load_attr(self, ip, node, base, attr, st):
        if base.expr == 'self' and attr in self.caches['lazy']:
            self.fill(st, self.caches['lazy'])
        return None

    def on_store_attr(self, ip, node, base, attr, val, st):
        if base.expr != 'self':
            return
        if attr in ORDER or attr in ADJ:
            self.edit(st)
        if attr in self.caches['memo'] or attr in self.caches['lazy']:
            # a store whose value is made from the old memo (x = x if .. else {}) may keep it
            if not keeps_old(val, attr):
                self.drop(st, [attr])
        if attr == '__dict__':
            self.drop(st, self.caches['all'])

    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        e = base.expr
        if e.startswith('self.') and e.split('.')[1].split('[')[0] in ADJ:
            self.edit(st)
        if e.startswith('self.') and e.split('.')[1].split('[')[0] in self.caches['memo']:
            self.fill(st, [e.split('.')[1].split('[')[0]])

    def on_del(self, ip, node, base, what, st):
        e = base.expr
        if e == 'self' and isinstance(what, str):
            self.drop(st, [what])
        elif e == 'self.__dict__' and isinstance(what, V) and isinstance(what.const, str):
            self.drop(st, [what.const])
        elif e.startswith('self.') and e.split('.')[1].split('[')[0] in ADJ:
            self.edit(st)

    def join_fact(self, k, a, b):
        if k in ('stale', 'full'):
            return (a or frozenset()) | (b or frozenset())
        return Domain.join_fact(self, k, a, b)


def is_lazy(prog, f):
    for d in f.node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
        if n and ('lazy' in n or n == 'cached_property'):
            return True
    return False


def check(ctx):
    prog = ctx.prog
    ctx.rule('edit-discards-orders', 'no derived order may be stale at any return or explicit raise of a method that edits the tree', 10)
    ctx.rule('inherited-edit-overridden', 'every inherited method that writes the adjacency directly is overridden by one that discards the derived orders', 8)
    ctx.rule('derived-order-known', 'every derived order (lazy or memoised attribute) is discarded by some path of the editing methods', 5)
    ctx.rule('invalidate-discards', 'invalidating a lazy attribute removes the stored value whenever there is one', 1)
    ctx.rule('outside-edits', 'code outside the class does not write the order-determining slots of a tree', 0)
    c = prog.cls('larch.model.tree', 'NestingTree')
    muts, src = nx_mutators()
    ctx.info['inherited_mutators_from'] = src
    lazies = {f.name for f in c.functions() if is_lazy(prog, f)}
    SKIP = {'__init__', '__setstate__', '__getstate__', '__set_name__', '__get__', '__set__', '__delete__', '__new__'}

    def edits_tree(f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in muts | {'_clear_caches', 'add_node', 'add_edge', 'remove_node', 'remove_edge'}:
                r = n.func.value
                if isinstance(r, ast.Name) and r.id == 'self' or isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'super':
                    return True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in ORDER | ADJ:
                return True
        return False
    memo = set()
    fillers = set()
    # helpers that editing methods call for their effect alone (the discarding helper) are followed, not taken as queries
    helpers = {n.value.func.attr for f in c.functions() if edits_tree(f) for n in ast.walk(f.node)
               if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)
               and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == 'self'}
    for f in c.functions():
        if f.name in SKIP or edits_tree(f) or not f.params or f.name in helpers:
            continue
        me = f.params[0]
        for n in ast.walk(f.node):
            t = n
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                t = n.value
            elif not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)):
                continue
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr != '__dict__':
                # the discarding helper stores constants (empty) only
                par = [a for a in ast.walk(f.node) if isinstance(a, ast.Assign) and n in a.targets]
                if par and isinstance(par[0].value, (ast.Dict, ast.Constant)) and not (isinstance(par[0].value, ast.Dict) and par[0].value.keys):
                    continue
                memo.add(t.attr)
                fillers.add(f.name)
    # methods that read derived orders fill them
    for f in c.functions():
        if f.kind == 'method' and f.name not in SKIP and not edits_tree(f) and any(isinstance(n, ast.Attribute) and n.attr in lazies and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' for n in ast.walk(f.node)):
            fillers.add(f.name)
    caches = {'lazy': frozenset(lazies), 'memo': frozenset(memo), 'all': frozenset(lazies | memo)}
    if len(lazies) < 3:
        raise AnalysisBroken('only %d lazy attributes found in NestingTree' % len(lazies))
    dropped_anywhere = set()
    for f in c.functions():
        if f.name in SKIP or f.kind in ('getter', 'staticmethod', 'classmethod') or f.node.name == '_clear_caches' or not f.params:
            continue
        d = Orders(ctx, f, c, caches, muts, fillers)
        ip = Interp(prog, d)
        st = State()
        st.facts['full'] = caches['all']
        st.facts['stale'] = frozenset()
        a = {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}
        for p in f.all_params:
            if p.startswith('_') and p != f.params[0]:           # private switches keep their defaults
                dv = f.default_of(p)
                if isinstance(dv, ast.Constant):
                    a[p] = V(repr(dv.value), NOLAB, dv.value)
        res = ip.run(f, a, cls=c, st=st)
        if not d.edits:
            continue
        ctx.seen(f)
        for kind in ('return', 'raise'):
            for s in res[kind]:
                stale = s.facts['stale']
                dropped_anywhere |= caches['all'] - s.facts['full']
                ctx.ob('edit-discards-orders', f.name, not stale, f.loc(),
                       'a path of %s (%s) edits the tree but keeps the previously derived %s' % (f.qual, kind, ', '.join(sorted(stale))))
    for n in sorted(caches['all']):
        ctx.ob('derived-order-known', n, n in dropped_anywhere, '%s:%d' % (c.module.rel, c.node.lineno), 'no editing method ever discards the derived order %s' % n)
    for m in sorted(muts):
        if m in ('update', 'add_weighted_edges_from'):
            continue
        f = prog.lookup(c, m)
        ctx.ob('inherited-edit-overridden', m, f is not None, '%s:%d' % (c.module.rel, c.node.lineno),
               'NestingTree.%s is inherited from networkx and edits the tree without discarding the derived orders' % m)
    # the invalidation primitive
    lz = prog.cls('larch.util.lazy', 'lazy')
    inv = prog.lookup(lz, 'invalidate')
    used = any(isinstance(n, ast.Attribute) and n.attr == 'invalidate' for n in ast.walk(c.node))
    if inv is None and used:
        raise AnalysisBroken('lazy.invalidate not found')
    if inv is not None:
        class Inv(Domain):
            def drop(self, st): st.facts['d'] = True
            def on_del(self, ip, node, base, what, st):
                if base.expr.endswith('.__dict__'):
                    self.drop(st)
            def on_call(self, ip, node, fv, args, kw, st):
                if fv.expr.endswith('.__dict__.pop') or fv.expr == 'delattr':
                    self.drop(st)
                return None
            def join_fact(self, k, a, b): return bool(a and b)
        ip = Interp(prog, Inv())
        res = ip.run(inv, {}, cls=lz)
        ctx.seen(inv)
        for s in res['return']:
            absent = any((' in ' in k and '__dict__)' in k and ' and ' not in k and ' or ' not in k and not v) for k, v in s.conds.items())
            ctx.ob('invalidate-discards', 'lazy.invalidate', bool(s.facts.get('d')) or absent, inv.loc(), 'a path of lazy.invalidate keeps a stored value')
    # the stored key is the attribute name, which is what invalidate is given
    g = prog.lookup(lz, '__get__')
    if g is not None:
        ok = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__' for n in ast.walk(g.node)) \
            or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' for n in ast.walk(g.node)) \
            or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'update') and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__' for n in ast.walk(g.node))
        ctx.ob('invalidate-discards', 'lazy.__get__', ok, g.loc(), 'a lazy value is not stored where invalidation removes it')
    # writes from outside
    for m in prog.all_modules():
        if m.name == 'larch.model.tree':
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ('_suggested_elemental_order', '_root_id'):
                ctx.ob('outside-edits', '%s:%s' % (m.short, n.attr), False, '%s:%d' % (m.rel, n.lineno), 'writes %s of a tree without discarding its derived orders' % n.attr)
