"""P04: in-place edits of specification containers reach the model that owns them.

The containers are the classes held as descriptors by the model classes whose
content sits in a list or dictionary slot.  Every method of each of them is
followed path by path; a path that changes the content slot must tell the owning
model (directly or through a helper, which is followed) before it returns or
raises.  Collections of functions must hand out, and take in, only functions
that know the owner.
"""
import ast

from ..absint import Domain, Interp, V, State, TOP, NOLAB
from ..program import AnalysisBroken
from .common import model_classes
from .p03 import descriptor, desc_rule

TECHNIQUE = 'typestate analysis (content changed / owner told) over every path of every method of the container classes'
NOTE = ('the container classes held as descriptors by the model classes; an owner that has no mangle method (or no owner at all) needs no notice; '
        'edits of attributes of a single immutable term are outside')
EXPLAIN = ('Each path of each container method is followed with the typestate "content changed but owner not told"; it must be clear at every return and explicit raise. Functions read from or stored in a collection '
           'must be given the owner of the collection. Writes to the content slot from other modules are reported.')
ASSUME = ['container methods inherited from collections.abc mix-ins change content only through the abstract methods of the class']

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'update', 'setdefault', 'popitem', '__setitem__', '__delitem__', '__iadd__'}
BUILTIN = {'list', 'dict', 'UserList', 'UserDict', 'OrderedDict', 'defaultdict', 'set', 'deque'}
SKIP = {'__init__', '__cinit__', '__fresh', '__set_name__', '__get__', '__set__', '__delete__', '__getstate__', '__setstate__', '__reduce__'}


def containers(prog):
    out = {}
    for c in model_classes(prog):
        for cc in prog.mro(c):
            for a in cc.attrs:
                d = descriptor(prog, cc, a)
                if d is None:
                    continue
                slot = content_slot(prog, d)
                if slot:
                    out.setdefault(d.name, (d, slot, set()))[2].add(a)
    return out


def content_slot(prog, d):
    """the attribute whose length is the length of the container"""
    f = prog.lookup(d, '__len__')
    if f is None or f.cls is not d:
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
            return n.attr
    return None


class Told(Domain):
    cap = 32
    max_depth = 5

    def __init__(self, ctx, root, cls, slot):
        self.ctx, self.root, self.cls, self.slotname = ctx, root, cls, 'self.' + slot
        self.edits = 0

    def inline(self, f, ip):
        if f.name in SKIP or f.name in ('mangle', 'link_model', 'set_instance', 'copy'):
            return False
        if f.cls is not None and f.cls in ip.prog.mro(self.cls):
            return f.name.startswith('_') and not f.name.startswith('__')
        return f.cls is None and f.module is self.cls.module

    def is_slot(self, e):
        return e == self.slotname or e.startswith(self.slotname + '[')

    def edit(self, ip, node, st):
        self.edits += 1
        self.ctx.seen(ip.frame.func)
        if not st.facts.get('told'):
            st.facts['pend'] = st.facts.get('pend', frozenset()) | {ip.frame.func.loc(node)}

    def tell(self, st):
        st.facts['pend'] = frozenset()
        st.facts['told'] = True

    def owner(self, e):
        return e in ('self._instance', 'self.instance') or e.startswith('getattr(self') and '_instance' in e or e.startswith('self.') and e.endswith('_instance')

    def on_stmt(self, ip, s, st):
        for t in [s] if isinstance(s, ast.Try) else []:
            if any(h.type is None or 'AttributeError' in ast.unparse(h.type) for h in s.handlers):
                for b in s.body:
                    if not isinstance(b, (ast.Assign, ast.Expr)):
                        break
                    for n in [b.value]:
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'mangle':
                            o = n.func.value
                            e = ast.unparse(o)
                            if isinstance(o, ast.Name) and o.id in st.env:
                                e = st.env[o.id].expr
                            elif isinstance(o, ast.Attribute) and isinstance(o.value, ast.Name) and o.value.id in st.env:
                                e = st.env[o.value.id].expr + '.' + o.attr
                            if self.owner(e):
                                self.tell(st)

    def on_call(self, ip, node, fv, args, kw, st):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else (node.func.id if isinstance(node.func, ast.Name) else '')
        recv = fv.expr.rsplit('.', 1)[0]
        if nm == 'mangle' and self.owner(recv):
            self.tell(st)
            return V('None', NOLAB, None)
        if nm in MUT and self.is_slot(recv) and recv == self.slotname:
            self.edit(ip, node, st)
            added = [a.expr for a in args[-1:]] if nm in ('append', 'insert') else []
            st.facts['added'] = st.facts.get('added', frozenset()) | frozenset(added)
        if nm == 'link_model' and isinstance(node.func, ast.Attribute):
            if len(args) > 1 or kw.get('scale') is not None:
                self.edit(ip, node, st)
            if args and self.owner(args[0].expr) or 'model' in kw:
                st.facts['linked'] = st.facts.get('linked', frozenset()) | {recv}
        if nm in ('delattr', 'setattr') and len(args) > 1 and args[0].expr == 'self' and args[1].const == self.slotname[5:]:
            self.edit(ip, node, st)
        return None

    def on_store_attr(self, ip, node, base, attr, val, st):
        if base.expr == 'self' and 'self.' + attr == self.slotname:
            self.edit(ip, node, st)

    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        if self.is_slot(base.expr):
            self.edit(ip, node, st)
            st.facts['added'] = st.facts.get('added', frozenset()) | {val.expr}

    def on_del(self, ip, node, base, what, st):
        if self.is_slot(base.expr) or base.expr == 'self' and isinstance(what, str) and 'self.' + what == self.slotname:
            self.edit(ip, node, st)

    def ownerless(self, st):
        return any('_instance' in k and k.endswith(' is None)') and v for k, v in st.conds.items())


def run(prog, d, f, c):
    ip = Interp(prog, d)
    a = {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}
    return ip.run(f, a, cls=c)


def check(ctx):
    prog = ctx.prog
    ctx.rule('edit-tells-owner', 'a path that changes the content of a container has told the owning model at every return and explicit raise', 12)
    ctx.rule('content-replaced-when-accepted', 'a constructor (which also re-initialises an assigned container) replaces the content only after everything that can reject the new content', 3)
    ctx.rule('functions-handed-out-know-owner', 'a collection gives its owner to every function it hands out', 2)
    ctx.rule('functions-taken-in-know-owner', 'a collection gives its owner to every function stored in it, and takes none away from another owner', 1)
    ctx.rule('descriptor-marks-stale', 'assigning or deleting a container through its descriptor tells the owning model on every path', 4)
    ctx.rule('added-item-is-linked', 'an item added to a list whose items refer to the model is itself linked to the model', 2)
    ctx.rule('no-builtin-base', 'a container class does not inherit mutating methods of a builtin container', 3)
    ctx.rule('outside-edits', 'no code outside the container class writes its content slot', 0)
    cs = containers(prog)
    if len(cs) < 3:
        raise AnalysisBroken('only %d specification containers found' % len(cs))
    fresh_rule(ctx, prog, cs)
    for name, (c, slot, attrs) in sorted(cs.items()):
        ctx.ob('no-builtin-base', name, not any(ast.unparse(b).split('.')[-1] in BUILTIN for b in getattr(c.node, 'bases', [])), '%s:%d' % (c.module.rel, c.node.lineno),
               '%s inherits from a builtin container, whose mutating methods tell nobody' % name)
        links = any(isinstance(n, ast.Attribute) and n.attr == 'link_model' for n in ast.walk(c.node))
        for f in c.functions():
            if f.kind in ('staticmethod', 'classmethod') or not f.params:
                continue
            if f.name in ('__set__', '__delete__'):
                desc_rule(ctx, prog, c, f)
                continue
            if f.name == '__init__':
                init_rule(ctx, prog, c, slot, f)
                continue
            if f.name in SKIP:
                continue
            d = Told(ctx, f, c, slot)
            res = run(prog, d, f, c)
            if not d.edits:
                continue
            ctx.seen(f)
            con = '%s.%s' % (name, f.name)
            if f.name == '__getitem__':
                continue                  # fills in an empty function, which changes nothing in the model
            for kind in ('return', 'raise'):
                for s in res[kind]:
                    pend = s.facts.get('pend', frozenset())
                    ctx.ob('edit-tells-owner', con, not pend or d.ownerless(s), (sorted(pend) or [f.loc()])[0],
                           'a path of %s (%s) changes the content at %s without telling the owning model' % (f.qual, kind, ', '.join(sorted(pend))))
                    if links and kind == 'return' and f.name in ('__setitem__', 'insert', 'append', 'extend') and s.facts.get('added'):
                        ok = any(x in s.facts.get('linked', ()) or any(l.startswith(d.slotname + '[') and f.name == '__setitem__' for l in s.facts.get('linked', ()))
                                 for x in s.facts['added'])
                        ctx.ob('added-item-is-linked', con, ok, f.loc(), 'a path of %s adds an item without linking that item to the model' % f.qual)
        if any(isinstance(n, ast.Attribute) and n.attr == 'set_instance' and f.name != 'set_instance' for f in c.functions() for n in ast.walk(f.node)) and '__setitem__' in {f.name for f in c.functions()} \
                and not links:
            collection_rule(ctx, prog, c, slot)
    # writes from elsewhere
    slots = {slot: c for c, slot, a in cs.values()}
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute):
                t = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                t = n.value
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n
            else:
                continue
            if t.attr in slots and m is not slots[t.attr].module and not (isinstance(t.value, ast.Name) and t.value.id == 'self'):
                ctx.ob('outside-edits', '%s:%s' % (m.short, t.attr), False, '%s:%d' % (m.rel, n.lineno), 'writes the content %s of a container without telling the model' % t.attr)


def fresh_rule(ctx, prog, cs):
    """a container created for a model is given that model"""
    for name, (c, slot, attrs) in sorted(cs.items()):
        for f in c.functions():
            if f.name not in ('__get__',):
                continue

            class G(Domain):
                max_depth = 3

                def inline(self, g, ip):
                    return g.cls is c and g.name.startswith('_') and g.name not in ('__init__',)

                def on_store_attr(self, ip, node, base, attr, val, st):
                    if attr == '_instance' and val.expr == 'instance':
                        st.facts['own'] = True

                def on_call(self, ip, node, fv, args, kw, st):
                    nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
                    if nm == 'set_instance' and args and args[0].expr == 'instance':
                        st.facts['own'] = True
                    if nm == c.name or nm == 'setattr':
                        st.facts['made'] = True
                    return None
            ip = Interp(prog, G())
            res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
            ctx.seen(f)
            for s in res['return']:
                ok = not s.facts.get('made') or bool(s.facts.get('own'))
                ctx.ob('functions-handed-out-know-owner', '%s.%s' % (name, f.name), ok, f.loc(), 'a path of %s creates a container for a model without telling it which' % f.qual)


def init_rule(ctx, prog, c, slot, f):
    class I(Domain):
        max_depth = 3
        cap = 24

        def inline(self, g, ip):
            return g.cls is c and g.name.startswith('_') and not g.name.startswith('__')

        def on_store_attr(self, ip, node, base, attr, val, st):
            if base.expr == 'self' and attr == slot:
                st.facts['new'] = True

        def on_call(self, ip, node, fv, args, kw, st):
            o = fv.obj
            nm = getattr(node.func, 'id', getattr(node.func, 'attr', ''))
            if st.facts.get('new') and isinstance(node.func, ast.Name):
                r = ip.prog.resolve(c.module, nm)
                if hasattr(r, 'methods'):
                    g = ip.prog.lookup(r, '__init__')
                    if g is not None and any(isinstance(x, ast.Raise) for x in ast.walk(g.node)):
                        st.facts['bad'] = ip.frame.func.loc(node)
            return None
    ip = Interp(prog, I())
    res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
    ctx.seen(f)
    for s in res['raise']:
        ctx.ob('content-replaced-when-accepted', '%s.__init__' % c.name, not s.facts.get('new'), f.loc(),
               'a path of %s raises after the previous content was replaced, so a rejected assignment edits the model without notice' % f.qual)
    for s in res['return']:
        ctx.ob('content-replaced-when-accepted', '%s.__init__' % c.name, not s.facts.get('bad'), s.facts.get('bad') or f.loc(),
               'a path of %s calls something that can reject the new content after the previous content was replaced' % f.qual)


def collection_rule(ctx, prog, c, slot):
    sl = 'self.' + slot

    class H(Domain):
        max_depth = 3
        cap = 24

        def inline(self, g, ip):
            return g.cls is c and g.name.startswith('_') and g.name not in SKIP and not (g.name.startswith('__'))

        def owned(self, st, e):
            st.facts['own'] = st.facts.get('own', frozenset()) | {e}

        def on_call(self, ip, node, fv, args, kw, st):
            nm = node.func.attr if isinstance(node.func, ast.Attribute) else ''
            if nm == 'set_instance' and args and args[0].expr == 'self._instance':
                self.owned(st, fv.expr.rsplit('.', 1)[0])
            if nm == '__getitem__' and fv.expr.startswith('self.'):
                self.owned(st, fv.expr)
            return None

        def on_store_attr(self, ip, node, base, attr, val, st):
            if attr == '_instance' and val.expr == 'self._instance':
                self.owned(st, base.expr)

        def on_sub(self, ip, node, base, idx, st):
            if base.expr == 'self':
                self.owned(st, 'self[]')
            return None

        def on_loop(self, ip, node, itv, st):
            if sl in itv.expr:
                st.facts['iter'] = True
                for b in getattr(node, 'body', []):
                    self.bodies.add(id(b))
            return None

        def on_stmt(self, ip, s, st):
            if id(s) in self.bodies:
                st.facts['inbody'] = True
            if isinstance(s, (ast.Expr, ast.Return)) and isinstance(s.value, (ast.Yield,)):
                pass

        def on_store_sub(self, ip, node, base, idx, val, aug, st):
            if base.expr == sl:
                st.facts['stored'] = st.facts.get('stored', frozenset()) | {val.expr}
                o = val.expr
                made = isinstance(val.obj, tuple) and val.obj[0] == 'inst' and '(' in o
                guard = any('._instance' in k and ' is ' in k and not k.startswith('(self._instance') for k in st.conds)
                if not made and not guard:
                    st.facts['stolen'] = True
    for f in c.functions():
        if f.name in ('__getitem__', 'items', 'values', 'get', 'pop', 'setdefault'):
            d = H()
            d.bodies = set()
            ip = Interp(prog, d)
            res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
            ctx.seen(f)
            for s in res['return']:
                own = s.facts.get('own')
                ok = bool(own) or (s.facts.get('iter') and not s.facts.get('inbody'))
                ctx.ob('functions-handed-out-know-owner', '%s.%s' % (c.name, f.name), bool(ok), f.loc(),
                       'a path of %s hands out a function that has not been given the owner, so editing it goes unnoticed' % f.qual)
        if f.name == '__setitem__':
            d = H()
            d.bodies = set()
            ip = Interp(prog, d)
            res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
            ctx.seen(f)
            for s in res['return']:
                stored = s.facts.get('stored', frozenset())
                own = s.facts.get('own', frozenset())
                # a copy made while storing is handed the owner when it is read
                ok = bool(stored) and all(x in own or any(o.startswith(sl + '[') for o in own) for x in stored)
                ctx.ob('functions-taken-in-know-owner', '%s.%s' % (c.name, f.name), ok, f.loc(), 'a path of %s stores a function without giving it the owner' % f.qual)
                ctx.ob('functions-taken-in-know-owner', '%s.%s:owner-kept' % (c.name, f.name), not s.facts.get('stolen'), f.loc(),
                       'a path of %s takes a function away from the model that already owns it' % f.qual)
