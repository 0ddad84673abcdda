"""P17: data sets derived from another keep all of its components."""
import ast
import re

from ..absint import Domain, V, NOLAB, TOP
from ..program import AnalysisBroken, Func
from .p18 import Ip

TECHNIQUE = ('provenance analysis by abstract interpretation: every expression is labelled with the components of the source it comes from; at each construction of model data from model data the labels of every argument, '
             'and of the attributes set on the result before it is handed out, are compared with the components of the source on every path')
NOTE = ('a derivation is a construction that takes at least two component tables from one existing object; whether the selected rows are the right ones is decided only as "the same selection for every table", '
        'and saved files are not derivations in the sense of this property')
EXPLAIN = ('Obligations: at every derivation and for every path, case data, alternative data, availability, choice, weights, alternative codes and names come from the source (or are absent there, or were not asked for by the request); '
           'the weight normalisation follows exactly when the weights do; all tables are restricted by the same selection of cases.')
ASSUME = ['the constructor stores what it is given (checked by P18)', 'reformatting methods of the source (…_as_ce, make_idca and the like) return the component they are named after']

COMP = ('co', 'alt', 'av', 'ch', 'wt')
PARAMS = {'co': 'co', 'data_co': 'co', 'ca': 'alt', 'data_ca': 'alt', 'ce': 'alt', 'data_ce': 'alt', 'av': 'av', 'data_av': 'av', 'av_as_ce': 'av', 'ch': 'ch', 'data_ch': 'ch', 'ch_as_ce': 'ch',
          'wt': 'wt', 'data_wt': 'wt', 'alt_codes': 'codes', 'alt_names': 'names'}
NAME = re.compile(r'^_?(?:data|array)_(co|ca|ce|av|ch|wt)(_|$)')
SAME = {'ca': 'alt', 'ce': 'alt'}
TEXT = {'co': 'case data', 'alt': 'alternative data', 'av': 'availability', 'ch': 'choices', 'wt': 'weights', 'codes': 'alternative codes', 'names': 'alternative names', 'wn': 'weight normalisation'}


def component(attr):
    m = NAME.match(attr)
    if m and not attr.endswith('_name'):
        return SAME.get(m.group(1), m.group(1))
    return {'_alternative_codes': 'codes', 'alternative_codes': 'codes', '_alternative_names': 'names', 'alternative_names': 'names', '_weight_normalization': 'wn', 'weight_normalization': 'wn',
            'make_idca': 'alt', 'make_idco': 'co', 'sys_alts': 'sys', '_systematic_alternatives': 'sys'}.get(attr)


ALT = {'data_ca': ('ca',), '_data_ca': ('ca',), 'array_ca': ('ca',), 'data_ce': ('ce',), '_data_ce': ('ce',), 'array_ce': ('ce',)}


def slice_for(f, params, ctor):
    """the statements of f that decide the given arguments of the constructions in it"""
    body = f.node.body
    want = set()

    def names(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}

    def writes(n):
        w = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        w |= {x.value.id for x in ast.walk(n) if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        w |= {x.func.value.id for x in ast.walk(n) if isinstance(x, ast.Expr) for x in [x.value] if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
        w |= {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef)}
        return w
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and ctor(n):
            for k in n.keywords:
                if k.arg is None or k.arg in params:
                    want |= names(k.value)
                    if k.arg is None and isinstance(k.value, ast.Dict) and 'ca' not in params:
                        want -= names(k.value)
    want |= {x.id for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and component(n.attr) == 'wn' for x in ast.walk(n.value) if isinstance(x, ast.Name)}
    keepers = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and ctor(n) or isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and component(n.attr) == 'wn']

    def has(n, xs):
        return any(x in xs for x in ast.walk(n))
    if 'wt' in params:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and component(t.attr) == 'wn' for t in n.targets):
                want |= names(n.value)
    kset = set(keepers)

    def needed(stmt):
        return bool(writes(stmt) & want) or any(x in kset for x in ast.walk(stmt))
    while True:
        n0 = len(want)
        for st in ast.walk(f.node):
            if isinstance(st, ast.stmt) and st is not f.node and needed(st):
                if isinstance(st, (ast.If, ast.While)):
                    want |= names(st.test)
                elif isinstance(st, ast.For):
                    want |= names(st.iter)
                elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and st.value is not None and not any(x in kset for x in ast.walk(st)):
                    want |= names(st)
                elif isinstance(st, ast.Expr) and not any(x in kset for x in ast.walk(st)):
                    want |= names(st)
                elif isinstance(st, ast.FunctionDef):
                    want |= names(st)
        if len(want) == n0:
            break

    def cut(stmts):
        out = []
        for st in stmts:
            if isinstance(st, (ast.Return, ast.Break, ast.Continue, ast.Import, ast.ImportFrom)):
                out.append(st)
                continue
            if isinstance(st, ast.Raise):
                out.append(st)
                continue
            if not needed(st):
                continue
            st2 = ast.copy_location(type(st)(**{k: getattr(st, k, None) for k in st._fields}), st)
            for k in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(st, k, None), list) and not isinstance(st, ast.FunctionDef):
                    setattr(st2, k, cut(getattr(st, k)) or ([ast.copy_location(ast.Pass(), st)] if k == 'body' else []))
            if isinstance(st, ast.Try):
                hs = []
                for h in st.handlers:
                    h2 = ast.copy_location(ast.ExceptHandler(type=h.type, name=h.name, body=cut(h.body) or [ast.copy_location(ast.Pass(), h)]), h)
                    hs.append(h2)
                st2.handlers = hs
            out.append(st2)
        return out
    node = ast.copy_location(type(f.node)(**{k: getattr(f.node, k, None) for k in f.node._fields}), f.node)
    node.body = cut(body) or [ast.Pass()]
    return node


class Dom(Domain):
    cap = 100
    max_depth = 4
    inline_init = False

    def __init__(self, prog, cls, root, focus=None):
        self.prog, self.cls, self.root, self.focus = prog, cls, root, focus
        self.sites = {}

    def inline(self, f, ip):
        if f.cls is self.cls and (component(f.name) is not None or f.name.startswith('__')):
            return False
        if f.cls is None and f.module is self.root.module and f.module.funcs.get(f.name) is not f:
            return True                        # a function defined inside the method
        return f.cls is not None and f.cls is self.root.cls and f.name.startswith('_')

    def join_fact(self, k, a, b):
        if k.startswith('wn:'):
            return (a if a is not None else frozenset(['?'])) | (b if b is not None else frozenset(['?']))
        if a is None or b is None:
            return a if b is None else b
        return a | b

    def on_load_attr(self, ip, node, base, attr, st):
        m = re.match(r'^(\w+)\.(data_\w+)$', base.expr)
        if m and 'src:alt' in base.labels:
            st.conds.setdefault('(%s is None)' % base.expr, False)      # it is used, so it is there
        c = component(attr)
        if c is None or base.expr.startswith('new:') or isinstance(base.obj, tuple) and base.obj[0] == 'made':
            return None
        k = base.expr + '.' + attr
        if k in st.heap:
            return None
        norm = {'co': 'data_co', 'av': 'data_av', 'ch': 'data_ch', 'wt': 'data_wt'}.get(c) if NAME.match(attr) and not attr.startswith(('array', '_array')) else None
        e = base.expr + '.' + (norm if norm and re.match(r'^_?data_(co|av|ch|wt)$', attr) else attr.lstrip('_') if c == 'alt' else attr)
        f = self.prog.lookup(self.cls, attr)
        obj = ('bound', base, attr)
        return V(e, frozenset(['src:%s' % c, 'of:' + base.expr] + ['alt:' + x for x in (ALT.get(attr, ('ca', 'ce')) if c == 'alt' else ())]), TOP, obj)

    def on_sub(self, ip, node, base, idx, st):
        if any(x.startswith('src:') for x in base.labels):
            e = idx
            if isinstance(idx.obj, tuple) and idx.obj[0] == 'tuple' and idx.obj[1]:
                e = idx.obj[1][0]
            return V('%s[%s]' % (base.expr, idx.expr), frozenset(x for x in base.labels) | {'sel:' + e.expr})
        return None

    def is_ctor(self, fv, node):
        o = fv.obj
        if isinstance(o, tuple) and o[0] == 'class' and o[1].name == self.cls.name:
            return True
        if self.root.cls is self.cls:
            if fv.expr in ('type(self)', 'self.__class__', 'cls'):
                return True
        return isinstance(o, tuple) and o[0] == 'ext' and str(o[1]).split('.')[-1] == self.cls.name

    def on_call(self, ip, node, fv, args, kw, st):
        if self.is_ctor(fv, node):
            return self.construct(ip, node, args, kw, st)
        o = fv.obj
        if isinstance(o, tuple) and o[0] == 'bound' and component(o[2]) is not None and fv.labels:
            return V('%s()' % fv.expr, fv.labels)
        if fv.expr == 'dict' and not args and '**' not in kw:
            return V('{%s}' % ', '.join('%s: %s' % (k, v.expr) for k, v in sorted(kw.items())), frozenset().union(*[v.labels for v in kw.values()]) if kw else NOLAB, TOP, ('dict', dict(kw)))
        return None

    def construct(self, ip, node, args, kw, st):
        loc = ip.frame.func.loc(node)
        new = V('new:%s@%d' % (self.cls.name, getattr(node, 'lineno', 0)), NOLAB, TOP, ('made', loc))
        have, texts = {}, {}
        for k, v in kw.items():
            c = PARAMS.get(k)
            if c is None:
                if k.startswith('?') or not k.isidentifier():
                    c = 'alt' if any(x == 'src:alt' for x in v.labels) or 'ca_or_ce' in k else None
                if c is None:
                    continue
            have.setdefault(c, []).append(v)
        src = {x[4:] for vs in have.values() for v in vs for x in v.labels if x.startswith('src:')}
        bases = {x[3:] for vs in have.values() for v in vs for x in v.labels if x.startswith('of:')}
        tables = {c for c in COMP if any('src:' + c in v.labels for v in have.get(c, ()))}
        rec = self.sites.setdefault(loc, {'node': node, 'tables': set(), 'bad': {}, 'paths': 0, 'good': set(), 'f': ip.frame.func})
        rec['tables'] |= tables
        rec['paths'] += 1
        conds = st.conds
        for c in COMP + ('codes', 'names'):
            if self.focus != c:
                continue
            vs = have.get(c, [])
            if c == 'alt' and any('src:alt' in v.labels for v in vs):
                got = {x[4:] for v in vs for x in v.labels if x.startswith('alt:')}
                for b in bases:
                    for x, y in (('ca', 'ce'), ('ce', 'ca')):
                        if conds.get('(%s.data_%s is None)' % (b, x)) is True or conds.get('(%s.data_%s is None)' % (b, y)) is False:
                            got.add(x)
                if got >= {'ca', 'ce'}:
                    rec['good'].add(c)
                    continue
                rec['bad'].setdefault(c, got)
                continue
            if any('src:' + c in v.labels for v in vs):
                rec['good'].add(c)
                continue
            if c in ('codes', 'names') and any('src:' in x for v in vs for x in v.labels):
                continue
            if c in ('codes', 'names') and vs and not all(v.const is None for v in vs):
                # the derived data have alternatives of their own
                continue
            if any(any(x.startswith('src:') for x in v.labels) for v in vs):
                continue                       # computed from other components of the source, on request
            if self.absent(c, bases, conds):
                continue
            if c in ('co', 'alt') and self.not_asked(conds):
                continue
            if self.explicit(conds):
                continue
            rec['bad'].setdefault(c, ([k for k, v in list(conds.items())[:0]]))
        # the same selection everywhere
        sels = {}
        for c in COMP if self.focus is None else ():
            for v in have.get(c, []):
                s = frozenset(x[4:] for x in v.labels if x.startswith('sel:'))
                if 'src:' + c in v.labels:
                    sels[c] = s
        co = {c: s for c, s in sels.items() if c != 'alt'}
        plain = [s for s in co.values() if not any('?' in x or 'phi' in x for x in s)]
        if plain and len(plain) == len(co):
            ref = max(set(plain), key=lambda s: (plain.count(s), len(s)))
            for c, s in co.items():
                if s != ref and not (self.absent(c, bases, conds)):
                    rec['bad'].setdefault('sel:' + c, s)
            if 'alt' in sels and ref and not any(all(r in x for r in ref) or '?' in x or 'phi' in x for x in sels['alt'] or ['']):
                rec['bad'].setdefault('sel:alt', sels['alt'])
        wt = any('src:wt' in v.labels for v in have.get('wt', []))
        wtn = self.absent('wt', bases, conds) or all(v.const is None for v in have.get('wt', [])) and have.get('wt')
        st.facts['wt:' + loc] = frozenset(['src' if wt else 'none' if wtn or not have.get('wt') else 'other'])
        st.facts['wn:' + loc] = frozenset(['unset'])
        return new

    def absent(self, c, bases, conds):
        names = {'alt': ('data_ca', 'data_ce', 'data_ca_or_ce')}.get(c, ('data_' + c,) if c in COMP else ('alternative_' + c, 'alternative_%s()' % c, '_alternative_' + c))
        for b in bases | {'self'}:
            hits = [conds.get('(%s.%s is None)' % (b, n)) for n in names]
            if c == 'alt':
                if hits[2] is True or hits[0] is True and hits[1] is True:
                    return True
            elif True in hits:
                return True
        return False

    def not_asked(self, conds):
        return any(w is False and re.match(r"^\('(ca|co|idca|idco|idce|ce)' in .+\)$", k) for k, w in conds.items())

    def explicit(self, conds):
        return any(w is True and k in self.root.all_params for k, w in conds.items())

    def on_store_attr(self, ip, node, base, attr, v, st):
        if component(attr) == 'wn' and isinstance(base.obj, tuple) and base.obj[0] == 'made':
            st.facts['wn:' + base.obj[1]] = frozenset(['src' if 'src:wn' in v.labels else 'one' if v.const in (1, 1.0) else 'other'])


def roots(prog, cls):
    for m in prog.all_modules():
        if '.examples' in m.name or '.activitysim' in m.name:
            continue
        for f in m.all_funcs():
            own = f.cls is cls
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and n.keywords:
                    t = n.func
                    if isinstance(t, ast.Name) and t.id == cls.name or own and f.kind != 'classmethod' and (
                            isinstance(t, ast.Attribute) and t.attr == '__class__' or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'type'):
                        yield f
                        break


def check(ctx):
    prog = ctx.prog
    cls = prog.cls('larch.dataframes', 'DataFrames')
    ctx.rule('component-kept', 'at every derivation each component of the source is passed on, on every path', 20)
    ctx.rule('normalisation', 'the weight normalisation goes with the weights it belongs to', 3)
    ctx.rule('selection', 'all tables of a derivation are restricted by the same selection of cases', 3)
    nd = 0
    seenf = set()
    for f in roots(prog, cls):
        # a private helper of the class is judged in the methods that call it
        users = [g for g in (f.cls.functions() if f.cls is not None else []) if g is not f and f.name.startswith('_') and not f.name.startswith('__') and
                 any(isinstance(n, ast.Attribute) and n.attr == f.name for n in ast.walk(g.node))]
        for r in (users or [f]):
            if r in seenf:
                continue
            seenf.add(r)
            nd += one(ctx, prog, cls, r)
    if nd < 4:
        raise AnalysisBroken('only %d derivations of model data were found' % nd)
    ctx.info['derivations'] = nd


def one(ctx, prog, cls, f):
    def run(focus):
        dom = Dom(prog, cls, f, focus)
        if focus is not None:
            dom.cap = 400
        ip = Ip(prog, dom)
        args = {}
        for p in f.all_params:
            args[p] = V(p, frozenset(['arg:' + p]), TOP, ('inst', f.cls) if f.cls is not None and p == f.params[0] and f.kind not in ('staticmethod', 'classmethod') else None)
        g = f
        if focus is not None:
            params = {k for k, c in PARAMS.items() if c == focus}

            def ctor(n):
                t = n.func
                return isinstance(t, ast.Name) and t.id == cls.name or isinstance(t, ast.Attribute) and t.attr == '__class__' or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'type'
            helper = any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and f.cls is not None and n.attr.startswith('_') and n.attr in f.cls.methods for n in ast.walk(f.node))
            if any(isinstance(n, ast.Call) and ctor(n) for n in ast.walk(f.node)) and not helper:
                g = Func(f.module, f.cls, f.name, slice_for(f, params, ctor), f.kind)
        return dom, ip.run(g, args, cls=f.cls)
    whole, res0 = run(None)
    order = {loc: i + 1 for i, (loc, rec) in enumerate(sorted(((l, r) for l, r in whole.sites.items() if len(r['tables']) >= 2), key=lambda t: t[0]))} if whole.sites else {}
    if not order:
        return 0
    parts = {c: run(c) for c in COMP + ('codes', 'names')}
    for loc, n in order.items():
        rec = whole.sites[loc]
        ctx.seen(rec['f'])
        ctx.seen(f)
        tag = '%s#%d' % (f.qual, n)
        for c in COMP + ('codes', 'names'):
            r = parts[c][0].sites.get(loc)
            if r is None:
                raise AnalysisBroken('%s: the construction at %s was lost' % (f.qual, loc))
            ctx.ob('component-kept', '%s:%s' % (tag, c), c not in r['bad'], loc, '%s makes model data from other model data and leaves the %s behind' % (f.qual, TEXT[c]))
        sb = sorted(k[4:] for k in rec['bad'] if k.startswith('sel:'))
        ctx.ob('selection', tag, not sb, loc, '%s restricts the %s to other cases than the remaining tables' % (f.qual, ', '.join(TEXT[c] for c in sb)))
        wb = None
        for st in parts['wt'][1]['return']:
            wt, wn = st.facts.get('wt:' + loc), st.facts.get('wn:' + loc)
            if wt is None:
                continue
            for a in wt:
                for b in wn or ():
                    if a == 'src' and b != 'src':
                        wb = 'carries the weights over but not their normalisation factor'
                    if a == 'other' and b == 'src':
                        wb = 'attaches the normalisation factor to weights it does not belong to'
        ctx.ob('normalisation', tag, wb is None, loc, '%s %s' % (f.qual, wb))
    return len(order)
