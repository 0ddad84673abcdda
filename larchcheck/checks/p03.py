"""P03: changing a model specification never leaves stale prepared structures in use.

Typestate analysis.  (A) every operation that stores into a specification slot
marks the model stale on every path on which the content can change; (B) every
computation first brings the model up to date; (C) bringing a stale model up to
date does everything a forced rebuild does - in particular the flag that guards
the rebuilding is the very slot that marking the model stale writes (a private C
attribute and a Python attribute of the same name are different slots);
(D) attaching new data renews or discards everything derived from the old data.
"""
import ast

from ..absint import Domain, Interp, V, State, TOP, NOLAB
from ..frontend import parse_pxd
from ..program import AnalysisBroken
from .common import MODEL_CLASSES, model_classes, concrete_methods
from . import p01

TECHNIQUE = 'typestate analysis (stale / fresh) by path-sensitive abstract interpretation with C/Python slot resolution'
NOTE = ('all operations of the four model classes and the descriptors of their specification containers; relies on the specification slots being stored through self; '
        'in-place edits of containers are P04, of the nesting tree P05')
EXPLAIN = ('Typestate: stores into specification slots must be followed or preceded by marking the model stale on the same path; engine calls must be preceded by bringing it up to date; '
           'the up-to-date step of a stale model must perform every rebuilding step of a forced one; new data must renew every structure derived from the old.')
ASSUME = ['a setter that skips marking because an immutable slot already equals the new value changes nothing',
          'the choice and availability definitions are mutually exclusive, so setting the one that is already set clears nothing']

PXDS = ['larch.model.parameter_frame', 'larch.model.abstract_model', 'larch.model.controller']
PREP = {'unmangle', 'required_data', '_link_to_model_structure', '_check_data_is_sufficient_for_model', 'check_data_is_sufficient_for_model', 'reflow_data_arrays',
        '_rebuild_fixed_arrays', '_rebuild_work_arrays', 'prepare_data', '_prep_ca', '_prep_co', '_prep_ce', 'model_u_ca_slots', 'model_co_slots', 'model_q_ca_slots',
        'node_slot_arrays', 'edge_slot_arrays', '_scan_all_ensure_names', '_scan_utility_ensure_names', '_scan_quantity_ensure_names', '_scan_logsums_ensure_names',
        'data_ch_cascade', 'data_av_cascade', '_refresh_derived_arrays', '__prepare_for_compute'}
NOT_SPEC = {'_frame', '_title', '_mangled', '_model', '_dataservice', '_instance', 'dataservice', '_display_order', '_matrixes', '_is_clone', '_prior_frame_values', 'work_arrays',
            '_data_arrays', '_fixed_arrays', '_dataset', '_constraint_funcs', '_does_not_require_choice', 'dataflows', '_cached_loglike_best', '_n_threads', 'dashboard', '_dashboard'}
CTORS = {'__init__', '__setstate__', '__getstate__', 'from_dict', 'load', '__new__', '__fresh', '__cinit__'}


def private_slots(prog):
    priv, types = {}, {}
    for m in PXDS:
        p = prog.module_path(m)
        if p is None:
            raise AnalysisBroken('module %s not found' % m)
        import os
        pxd = p.rsplit('.', 1)[0] + '.pxd'
        if not os.path.exists(pxd):
            continue
        e, a = parse_pxd(pxd, m)
        for c, s in parse_pxd.private.items():
            priv.setdefault(c, set()).update(s)
        for c, t in a.items():
            types.setdefault(c, {}).update(t)
    return priv, types


class Slots(Domain):
    """resolves self.<attr> to the C slot or the Python attribute of that name."""
    priv = {}

    def slot(self, ip, base, attr):
        c = ip.clsof(base)
        if c is not None and base.expr == 'self':
            for cc in ip.prog.mro(c):
                if attr in self.priv.get(cc.name, ()):
                    fm = ip.frame.module
                    if fm.path.endswith('.pyx') and ip.frame.defcls is not None and cc in ip.prog.mro(ip.frame.defcls):
                        return attr
                    return attr + '@py'
        return attr


def mangle_call(name):
    return name in ('mangle',)


class Mutate(Slots):
    cap = 32
    max_depth = 6

    def __init__(self, ctx, root, cls, spec, types, caches, selfname):
        self.ctx, self.root, self.cls, self.spec, self.types, self.caches = ctx, root, cls, spec, types, caches
        self.stores = 0
        self.selfname = selfname

    def inline(self, f, ip):
        if f.name in ('mangle', 'unmangle', 'clear_best_loglike') or f.name in PREP:
            return False
        if f.name in ('touch', '_try_mangle', '_try_mangle_h'):
            return True
        if f.kind in ('getter',):
            return False
        if f.kind in ('setter', 'deleter') and not f.name.startswith('_'):
            return False            # an operation of its own, checked on its own
        return f.name.startswith('_') and not f.name.startswith('__') and f.name not in CTORS or f.name == self.root.name

    def marked(self, st):
        st.facts['pend'] = frozenset()
        st.facts['mangled'] = True

    def on_stmt(self, ip, s, st):
        # try: x.mangle()  except AttributeError: nothing to mark
        if isinstance(s, ast.Try) and any(isinstance(h.type, ast.Name) and h.type.id == 'AttributeError' for h in s.handlers):
            for b in s.body:
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'mangle':
                    self.marked(st)

    def on_call(self, ip, node, fv, args, kw, st):
        nm = fv.expr.rsplit('.', 1)[-1]
        if nm in ('mangle', '_try_mangle', '_try_mangle_h', 'touch'):
            self.marked(st)
            return V('None', NOLAB, None)
        if nm == 'unmangle' and (any(a.const is True for a in args) or any(v.const is True for v in kw.values())):
            self.marked(st)
        # renewing what is derived from the data
        done = set(st.facts.get('renewed', ()))
        for cache, makers in self.caches.items():
            if nm in makers:
                done.add(cache)
        st.facts['renewed'] = frozenset(done)
        return None

    kstores = False

    def on_loop(self, ip, node, itv, st):
        if 'self._k_models' in itv.expr:
            st.facts['loopconds'] = frozenset(st.conds.items())
        return None

    def nochange(self, slot, val, st):
        return self.nochange1('self.' + slot, slot, val, st) or self.nochange1('self.' + slot.lstrip('_'), slot, val, st)

    def nochange1(self, cur, slot, val, st):
        """the path implies that the store leaves the content as it was"""
        ty = self.types.get(slot)
        imm = slot.endswith('dtype') or ty in ('str', 'unicode', 'bint', 'int', 'double') or val.const is not TOP or val.expr.startswith('str(')
        for k, v in st.conds.items():
            if not v:
                if k == cur and val.const is False:
                    return True
                continue
            a, b = sorted([cur, val.expr])
            if k == '(%s == %s)' % (a, b) and imm or k == '(%s is %s)' % (cur, val.expr) or k == '(%s is %s)' % (val.expr, cur):
                return True
        # clearing the alternatives of a definition that is already in force
        if val.const in (None, False) and val.const is not TOP:
            grp = slot.split('_')[1] if slot.startswith('_') and '_' in slot[1:] else None
            for k, v in st.conds.items():
                if v and ' == ' in k and k.startswith('('):
                    a, b = k[1:-1].split(' == ', 1)
                    for p, q in ((a, b), (b, a)):
                        if p.startswith('self._%s_' % grp) and p != cur and q not in ('None', 'False', 'self'):
                            if st.conds.get('(%s is None)' % q) is False or q.startswith('str('):
                                return True
                            if any(kk.startswith('isinstance(%s' % q) and vv for kk, vv in st.conds.items()):
                                return True
                            if st.conds.get(q) is True:
                                return True
        return False

    def on_store_attr(self, ip, node, base, attr, val, st):
        if base.expr != 'self':
            if attr == 'dataframes':
                if 'self._k_models' in base.expr:
                    lc = st.facts.get('loopconds')
                    if lc is not None and set(st.conds.items()) <= set(lc):
                        self.kstores = True      # unconditionally, for every member
                else:
                    st.facts['memberdata'] = st.facts.get('memberdata', frozenset()) | {base.expr.split('.')[1] if '.' in base.expr else base.expr}
            return
        if attr in self.caches:
            st.facts['renewed'] = st.facts.get('renewed', frozenset()) | {attr}
        if attr not in self.spec:
            return
        c = ip.clsof(base)
        if c is not None and ip.prog.is_prop(c, attr) and ip.prog.lookup(c, attr, 'setter') is not None:
            return            # goes through the setter, analysed in place
        d = descriptor(ip.prog, c, attr) if c is not None else None
        if d is not None and self.slot(ip, base, attr) != attr or (d is not None and attr not in self.types):
            return            # goes through the descriptor (checked on its own)
        self.stores += 1
        self.ctx.seen(ip.frame.func)
        if st.facts.get('mangled') or self.nochange(attr, val, st):
            return
        st.facts['pend'] = st.facts.get('pend', frozenset()) | {(attr, ip.frame.func.loc(node), ip.frame.func.qual)}
        if attr == '_dataframes':
            st.facts['renewed'] = frozenset()

    def on_return(self, ip, f, node, st):
        if len(ip.frames) != 1:
            return
        for slot, loc, q in st.facts.get('pend', ()):
            if slot == '_dataframes':
                if st.conds.get('raw') is True:
                    continue
                if self.caches:
                    miss = sorted(set(self.caches) - set(st.facts.get('renewed', ())))
                    self.ctx.ob('new-data-renews-derived', '%s.%s' % (self.cls.name, self.root.qual.split(':')[1]), not miss, loc,
                                '%s attaches new data but keeps %s, which was derived from the previous data' % (q, ', '.join(miss)))
                else:
                    ok = '_k_membership' in st.facts.get('memberdata', frozenset()) and 'loopconds' in st.facts and self.kstores
                    self.ctx.ob('new-data-renews-derived', '%s.%s' % (self.cls.name, self.root.qual.split(':')[1]), ok, loc,
                                '%s attaches new data without passing it on to every component model' % q)
                continue
            self.ctx.ob('edit-marks-stale', '%s.%s:%s' % (self.cls.name, self.root.qual.split('.')[-2] + '.' + self.root.qual.split('.')[-1] if self.root.kind != 'method' else self.root.name, slot),
                        False, loc, '%s stores the specification slot %s on a path that neither marks the model stale nor implies that nothing changes' % (q, slot))

    def join_fact(self, k, a, b):
        if k == 'mangled':
            return bool(a and b)
        if k == 'renewed':
            return (a or frozenset()) & (b or frozenset())
        if k == 'memberdata':
            return (a or frozenset()) & (b or frozenset())
        if k == 'loopconds':
            return (a & b) if a is not None and b is not None else None
        if k == 'pend':
            return (a or frozenset()) | (b or frozenset())
        return Domain.join_fact(self, k, a, b)


def descriptor(prog, c, attr):
    """the class whose instance, held as a class attribute, implements attr"""
    if c is None:
        return None
    for cc in prog.mro(c):
        v = cc.attrs.get(attr)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            r = prog.resolve(cc.module, v.func.id)
            if hasattr(r, 'methods') and prog.lookup(r, '__set__') is not None:
                return r
    return None


def prep_reads(prog):
    """attribute names read while preparing a model"""
    funcs = []
    for m in prog.all_modules():
        if m.name.startswith('larch.model.') or m.name.startswith('larch.numba') or m.name == 'larch.dataframes':
            funcs += list(m.funcs.values())
            for c in m.classes.values():
                funcs += c.functions()
    out, found = set(), set()
    for f in funcs:
        if f.name in PREP:
            found.add(f.name)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
    if len(found) < 12:
        raise AnalysisBroken('only %d of the preparation functions were found' % len(found))
    # properties read stand for the slots their getters read
    for f in funcs:
        if f.kind == 'getter' and f.name in out:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    out.add(n.attr)
    return out


class Compute(p01.Fwd):
    """is the model up to date when an engine is entered?"""
    cap = 10
    max_depth = 5

    def __init__(self, ctx, root, reach, pub, cls):
        super().__init__(ctx, root, [], reach, pub, cls)

    def inline(self, f, ip):
        if f.name in ('mangle', 'set_values'):
            return False
        if f.name == 'unmangle':
            return False
        if f.kind in ('getter', 'setter', 'deleter'):
            return False
        if f.module.name in p01.ENGINES:
            return False
        return f.name.startswith('_') and (f.name in self.reach or any(isinstance(n, ast.Attribute) and n.attr == 'unmangle' for n in ast.walk(f.node)))

    def on_load_attr(self, ip, node, base, attr, st):
        if base.expr == 'self' and attr in ('pf', 'pvals', 'pnames', 'pbounds'):
            st.facts['fresh'] = True
        return None

    def site(self, ip, node, what, st):
        self.sites += 1
        f = ip.frame.func
        self.ctx.ob('compute-only-when-fresh', '%s.%s->%s' % (self.cls.name, self.root.name, what), st.facts.get('fresh') is True, f.loc(node),
                    '%s reaches %s (in %s) on a path on which the model has not been brought up to date' % (self.root.qual, what, f.qual))

    def on_call(self, ip, node, fv, args, kw, st):
        o = fv.obj
        nm = fv.expr.rsplit('.', 1)[-1]
        f = ip.frame.func
        if nm == 'unmangle' and (fv.expr in ('self.unmangle', 'super.unmangle', 'model.unmangle')):
            st.facts['fresh'] = True
            return V('None', NOLAB, None)
        if nm == 'mangle' and fv.expr in ('self.mangle',):
            st.facts['fresh'] = False
            return V('None', NOLAB, None)
        eng = p01.is_engine_call(fv)
        if eng is not None and not eng.name.startswith('_'):
            self.site(ip, node, eng.name, st)
            return V('%s(..)' % eng.name)
        if fv.expr.endswith('_numba_master_vectorized'):
            self.site(ip, node, '_numba_master_vectorized', st)
            return V('_numba_master_vectorized(..)')
        if isinstance(o, tuple) and o[0] in ('method', 'unbound') and not o[1].name.startswith('_') and o[1].name in self.reach:
            return V('%s(..)' % o[1].name, fv.labels)      # responsible itself
        if isinstance(node.func, ast.Attribute) and nm in self.public_eval and not (isinstance(o, tuple) and o[0] in ('method', 'func', 'unbound', 'closure', 'super')) \
                and self.cls.name in ('LatentClassModel', 'ModelGroup'):
            if nm in ('loglike', 'loglike2', 'loglike2_bhhh', 'd_loglike', 'probability', 'd_probability', 'logsums', 'utility', 'exputility', 'bhhh'):
                self.site(ip, node, 'member.' + nm, st)
        return None

    def on_return(self, ip, f, node, st): pass

    def assume(self, ip, test, truth, st): return st

    def join_fact(self, k, a, b):
        if k == 'fresh':
            return bool(a and b)
        return Domain.join_fact(self, k, a, b)


class Rebuild(Slots):
    """the rebuilding steps performed by unmangle"""
    cap = 48
    max_depth = 6

    def __init__(self, ctx):
        self.ctx = ctx

    def inline(self, f, ip):
        return f.name in ('unmangle', 'mangle') or f.name.startswith(('_is_', 'is_'))

    def on_call(self, ip, node, fv, args, kw, st):
        nm = fv.expr.rsplit('.', 1)[-1]
        if nm in ('mangle',) and fv.expr in ('self.mangle', 'super.mangle'):
            return None
        if nm == 'unmangle' and fv.expr in ('self.unmangle', 'super.unmangle'):
            return None
        if isinstance(fv.obj, tuple) and fv.obj[0] == 'builtin':
            return None
        if ip.frame.func.name == 'unmangle' and not nm.startswith('is_') and not nm.startswith('_is_') and isinstance(node.func, (ast.Attribute, ast.Name)):
            self.did(st, nm)
        return None

    def on_store_attr(self, ip, node, base, attr, val, st):
        if base.expr == 'self' and ip.frame.func.name == 'unmangle' and not (val.const is False or val.const is None):
            self.did(st, 'store ' + attr)

    def did(self, st, what):
        for k in ('done', 'may'):
            st.facts[k] = st.facts.get(k, frozenset()) | {what}

    def join_fact(self, k, a, b):
        if k == 'done':
            return (a or frozenset()) & (b or frozenset())
        if k == 'may':
            return (a or frozenset()) | (b or frozenset())
        return Domain.join_fact(self, k, a, b)


def check(ctx):
    prog = ctx.prog
    ctx.rule('edit-marks-stale', 'every path of an operation that stores a specification slot marks the model stale, or implies that nothing changes', 0)
    ctx.rule('spec-store-sites', 'stores into specification slots found and followed', 18)
    ctx.rule('descriptor-marks-stale', 'assigning or deleting a specification container through its descriptor marks the owning model stale on every path', 6)
    ctx.rule('compute-only-when-fresh', 'every engine call is preceded, on every path of the entry point, by bringing the model up to date', 15)
    ctx.rule('stale-model-is-fully-rebuilt', 'bringing a model that was marked stale up to date performs every step that a forced rebuild performs', 8)
    ctx.rule('mangle-discards-derived', 'every derived structure that is only rebuilt when missing is discarded when the model is marked stale', 1)
    ctx.rule('new-data-renews-derived', 'attaching new data renews or discards every structure derived from the old data', 3)
    ctx.rule('component-staleness-noticed', 'a composite model that shares state with its components rebuilds it when a component was edited', 1)
    ctx.rule('shared-data-relinked', 'a computation relinks the data when it was last linked to another model', 1)
    priv, types = private_slots(prog)
    Slots.priv = priv
    reads = prep_reads(prog)
    t5 = {}
    for c in types.values():
        t5.update(c)

    # ---- (A) mutators, (D) new data
    for c in model_classes(prog):
        # derived structures: discarded by marking stale and read when computing
        caches = derived_caches(prog, c, reads)
        funcs = []
        seen = set()
        for cc in prog.mro(c):
            for f in cc.functions():
                key = (f.name, f.kind)
                if key in seen:
                    continue
                seen.add(key)
                funcs.append(f)
        # writes of slots that the preparation reads
        spec = {r for r in reads if r.startswith('_') and not r.startswith('__')} - NOT_SPEC
        spec = {s for s in spec if s in t5 or any(s in {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} for f in funcs)}
        for f in funcs:
            if f.name in CTORS or f.kind == 'getter' or f.name in PREP or f.name in ('mangle', 'unmangle'):
                continue
            if f.kind == 'method' and f.name.startswith('_') and not f.name.startswith('__'):
                continue
            if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(f.node)):
                continue
            if f.kind in ('staticmethod', 'classmethod') or not f.params:
                continue
            d = Mutate(ctx, f, c, spec, t5, caches, f.params[0])
            ip = Interp(prog, d)
            res = ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c)
            if d.stores:
                ctx.seen(f)
                ctx.ob('spec-store-sites', '%s.%s(%s)' % (c.name, f.name, f.kind), True, f.loc())
    # ---- descriptors
    done = set()
    for c in model_classes(prog):
        for cc in prog.mro(c):
            for a in cc.attrs:
                d = descriptor(prog, c, a)
                if d is None or d.name in done:
                    continue
                done.add(d.name)
                for mn in ('__set__', '__delete__'):
                    f = prog.lookup(d, mn)
                    if f is None:
                        ctx.ob('descriptor-marks-stale', '%s.%s' % (d.name, mn), mn == '__delete__', '%s:%d' % (d.module.rel, d.node.lineno), 'the descriptor cannot be assigned')
                        continue
                    desc_rule(ctx, prog, d, f)
    if len(done) < 3:
        raise AnalysisBroken('only %d specification descriptors found' % len(done))

    # ---- (B)
    reach = p01.eval_names(prog)
    pub = p01.public_evals(prog, reach)
    for c in model_classes(prog):
        for n, f in sorted(concrete_methods(prog, c).items()):
            if n.startswith('_') or n not in reach or f.kind in ('staticmethod', 'classmethod') or not f.params or n in ('mangle', 'unmangle', 'set_dataframes'):
                continue
            d = Compute(ctx, f, reach, pub, c)
            ip = Interp(prog, d)
            st = State()
            st.facts['fresh'] = False
            ip.run(f, {f.params[0]: V('self', NOLAB, TOP, ('inst', c))}, cls=c, st=st)
            if d.sites:
                ctx.seen(f)

    # ---- (C)
    for c in model_classes(prog):
        um = prog.method(c, 'unmangle')
        mg = prog.method(c, 'mangle')

        def steps(force, stale):
            d = Rebuild(ctx)
            ip = Interp(prog, d)
            st = State()
            sv = V('self', NOLAB, TOP, ('inst', c))
            if stale:
                r = Interp(prog, Rebuild(ctx))
                res = r.run(mg, {'self': sv}, cls=c)
                outs = res['return']
                st = r.joinall(outs)
                st.env, st.ret, st.conds = {}, None, {}
                st.facts = {}
            ps = um.params
            res = ip.run(um, {'self': sv, 'force': V(repr(force), NOLAB, force)}, cls=c, st=st)
            return [(s.facts.get('done', frozenset()), s.facts.get('may', frozenset())) for s in res['return']]
        full = steps(True, False)
        after = steps(False, True)
        ctx.seen(um)
        ctx.seen(mg)
        must_full = frozenset.intersection(*[d for d, m in full]) if full else frozenset()
        may_full = frozenset.union(*[m for d, m in full]) if full else frozenset()
        may_after = frozenset.union(*[m for d, m in after]) if after else frozenset()
        must_after = frozenset.intersection(*[d for d, m in after]) if after else frozenset()
        # what attaching data derives from the specification must be derived again from a changed one
        sd = concrete_methods(prog, c).get('set_dataframes')
        for f in ([g for cc in prog.mro(c) for g in cc.functions() if g.name == 'set_dataframes'] if sd is not None else []):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in PREP and n.func.attr not in ('unmangle', 'mangle') \
                        and 'check_' not in n.func.attr:
                    a = n.func.attr
                    hit = a in may_after or f.cls is not sd.cls      # inherited preparation is checked for the class that defines it
                    ctx.ob('stale-model-is-fully-rebuilt', '%s:attached:%s' % (c.name, a), bool(hit), um.loc(),
                           'attaching data to %s performs "%s", which derives from the specification, but unmangle of a stale model does not repeat it' % (c.name, a))
        for e in sorted(may_full):
            ok = e in may_after and (e not in must_full or e in must_after)
            ctx.ob('stale-model-is-fully-rebuilt', '%s:%s' % (c.name, e), ok, um.loc(),
                   'unmangle of %s performs "%s" when forced, but not (on every path) when the model has merely been marked stale by mangle: the guard does not test what mangle writes' % (c.name, e))
        if not may_full:
            raise AnalysisBroken('unmangle of %s performs no rebuilding step' % c.name)
        # derived structures rebuilt only when missing
        for f in [g for cc in prog.mro(c) for g in cc.functions() if g.name == 'unmangle']:
            for n in ast.walk(f.node):
                if isinstance(n, ast.If):
                    for t in ast.walk(n.test):
                        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Attribute) and isinstance(t.left.value, ast.Name) and t.left.value.id == f.params[0] \
                                and isinstance(t.ops[0], ast.Is) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                            a = t.left.attr
                            r = Interp(prog, Rebuild(ctx))
                            res = r.run(mg, {'self': V('self', NOLAB, TOP, ('inst', c))}, cls=c)
                            ok = all(s.heap.get('self.' + a) is not None and s.heap['self.' + a].const is None for s in res['return'])
                            ctx.ob('mangle-discards-derived', '%s:%s' % (c.name, a), ok, mg.loc(),
                                   'unmangle of %s rebuilds %s only when it is missing, but mangle does not discard it' % (c.name, a))
        # composites: staleness of components
        if any(isinstance(n, ast.Attribute) and n.attr == '_k_models' for n in ast.walk(um.node)):
            comp_rule(ctx, prog, c, um)
    relink_rule(ctx, prog)


def derived_caches(prog, c, reads):
    """slots discarded by marking stale that computations read -> names of methods that renew them"""
    mg = concrete_methods(prog, c).get('mangle')
    out = {}
    chain = [f for cc in prog.mro(c) for f in cc.functions() if f.name == 'mangle']
    none_stores = {t.attr for f in chain for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets
                   if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Constant) and n.value.value is None}
    prep = [f for cc in prog.mro(c) for f in cc.functions() if f.name.endswith('__prepare_for_compute')]
    used = {n.attr for f in prep for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    for a in none_stores & used:
        makers = set()
        for cc in prog.mro(c):
            for f in cc.functions():
                if f.kind == 'method' and f.name not in ('mangle', '__init__', '__setstate__') and any(
                        isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                    makers.add(f.name)
        makers.discard('set_dataframes')
        out[a] = makers
    if not out and any(f.name == '_refresh_derived_arrays' for cc in prog.mro(c) for f in cc.functions()):
        out['links to the data'] = {'_refresh_derived_arrays', '_link_to_model_structure'}
    return out


def desc_rule(ctx, prog, d, f):
    class Desc(Domain):
        cap = 24
        max_depth = 4

        def inline(self, g, ip):
            return g.module is d.module and g.name not in ('__init__', '__fresh', 'copy') and (g.name.startswith('_try') or g.name in ('touch', '__set__'))

        def on_stmt(self, ip, s, st):
            if isinstance(s, ast.Try):
                for b in s.body:
                    if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'mangle':
                        recv = b.value.func.value
                        st.facts['m'] = True

        def on_call(self, ip, node, fv, args, kw, st):
            nm = fv.expr.rsplit('.', 1)[-1]
            if nm in ('mangle', '_try_mangle', '_try_mangle_h', 'touch'):
                st.facts['m'] = True
                return V('None', NOLAB, None)

        def join_fact(self, k, a, b):
            return bool(a and b)
    ip = Interp(prog, Desc())
    st = State()
    st.facts['m'] = False
    res = ip.run(f, {'self': V('self', NOLAB, TOP, ('inst', d))}, cls=d, st=st)
    ctx.seen(f)
    for s in res['return']:
        ctx.ob('descriptor-marks-stale', '%s.%s' % (d.name, f.name), s.facts.get('m') is True, f.loc(),
               '%s changes the specification container of a model on a path that does not mark the model stale' % f.qual)


def comp_rule(ctx, prog, c, um):
    """on every path of unmangle that leaves the shared state alone, the staleness of every component was tested."""
    share = {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(um.node) if isinstance(n, ast.Call)}
    shares_frames = 'sync_frames' in share

    class Comp(Slots):
        cap = 32
        max_depth = 5

        def inline(self, g, ip):
            return g.name in ('mangle', 'unmangle') or (g.cls is c and g.name.startswith('_') and not g.name.startswith('__'))

        def on_call(self, ip, node, fv, args, kw, st):
            nm = fv.expr.rsplit('.', 1)[-1]
            if nm in ('_is_mangled',) and not fv.expr.startswith('self._is_mangled'):
                return V(fv.expr + '()', frozenset(['stale:' + ('member' if 'membership' in fv.expr else 'classes')]))
            if nm.endswith('sync_frames'):
                st.facts['sync'] = True
            if nm == 'unmangle' and not (isinstance(fv.obj, tuple) and fv.obj[0] == 'method'):
                st.facts['mu'] = True
            return None

        def assume(self, ip, test, truth, st):
            v = ip.ev(test, st)
            t = {l for l in v.labels if l.startswith('stale:')}
            if t:
                st.facts['tested'] = st.facts.get('tested', frozenset()) | t
            return st

        def join_fact(self, k, a, b):
            if k in ('sync', 'mu'):
                return bool(a and b)
            if k == 'tested':
                return (a or frozenset()) & (b or frozenset())
            return Domain.join_fact(self, k, a, b)
    ip = Interp(prog, Comp())
    res = ip.run(um, {'self': V('self', NOLAB, TOP, ('inst', c)), 'force': V('False', NOLAB, False)}, cls=c)
    for s in res['return']:
        if shares_frames:
            ok = bool(s.facts.get('sync')) or {'stale:member', 'stale:classes'} <= s.facts.get('tested', frozenset())
            ctx.ob('component-staleness-noticed', c.name, ok, um.loc(),
                   'unmangle of %s can leave the shared parameter frames alone without having tested whether a component model was edited' % c.name)


def relink_rule(ctx, prog):
    """data are linked to one model at a time: computing must make sure it is this one."""
    mod = prog.need_module('larch.model.controller')
    c = prog.cls('larch.model.controller', 'Model5c')
    f = next((g for g in c.functions() if g.name.endswith('__prepare_for_compute')), None)
    if f is None:
        raise AnalysisBroken('__prepare_for_compute of Model5c not found')

    class Link(Domain):
        cap = 32
        max_depth = 3

        def inline(self, g, ip):
            return g.cls is c and g.name.startswith('_') and g.name not in ('_refresh_derived_arrays',)

        def on_call(self, ip, node, fv, args, kw, st):
            nm = fv.expr.rsplit('.', 1)[-1]
            if nm in ('_refresh_derived_arrays', '_link_to_model_structure'):
                st.facts['linked'] = True
            return None

        def join_fact(self, k, a, b):
            if k == 'linked':
                return bool(a and b)
            return Domain.join_fact(self, k, a, b)
    ip = Interp(prog, Link())
    res = ip.run(f, {'self': V('self', NOLAB, TOP, ('inst', c))}, cls=c)
    ctx.seen(f)
    for s in res['return']:
        same = any(v and k in ('(self._dataframes._model is self)', '(self is self._dataframes._model)') for k, v in s.conds.items())
        ctx.ob('shared-data-relinked', 'Model5c.__prepare_for_compute', bool(s.facts.get('linked')) or same, f.loc(),
               'a computation uses the links held by the data without making sure that they were made for this model')
