"""P16  Every declared data requirement is understood by every data provider."""
import ast

from ..absint import Interp, Domain, V, State, TOP, NOLAB
from ..report import AnalysisBroken

TECHNIQUE = 'abstract interpretation of the request dictionaries: partial evaluation per requirement key, provenance of every role of the result'
EXPLAIN = ('The keys a model writes into its request are read off Model.required_data by abstract interpretation with one or two of the declaring attributes set. '
           'Each provider (DataFrames.make_dataframes, DataService.make_dataframes, numba prepare_data) is then interpreted abstractly once per key, with a request that has '
           'only that key: every normal return must carry, in the role the key stands for (ca, co, choice, weight, availability), data that stems from the value requested, '
           'and no other role may carry it; raising counts as reporting. Composite models are interpreted with parts that declare one key each.')
NOTE = ('The loops over alternatives and member models are taken to run at least once. The meaning of the expressions inside a request (column names, flows) is not analysed, '
        'nor the data types and the values of the arrays. Data already held by the provider may stand in for a requested column where the code handles a failed lookup (NameError, '
        'MissingDataError) or compares the name requested.')
ASSUME = ['addict-like dictionaries (Dict, dictx) behave as dictionaries', 'xarray merge/assign return the data set with the array added']

SPEC = [('utility_ca', 'ca'), ('quantity_ca', 'ca'), ('utility_co', 'co'), ('choice_ca_var', 'ch'), ('choice_co_vars', 'ch'), ('choice_co_code', 'ch'),
        ('choice_any', 'ch'), ('weight_co_var', 'wt'), ('availability_var', 'av'), ('availability_co_vars', 'av'), ('availability_any', 'av')]
ROLE = dict(SPEC)
LINEAR = {'utility_ca', 'quantity_ca', 'utility_co'}
DICTS = {'Dict', 'dictx', 'dict', 'OrderedDict', 'defaultdict', 'Mapping', 'MappingProxyType'}
DSMETH = {'merge', 'assign', 'assign_coords', 'drop_vars', 'drop', 'copy', 'rename', 'transpose', 'set_coords', 'reset_coords', 'squeeze', 'update'}
SLOT = {'ca': 'ca', 'ce': 'ca', 'ce_data': 'ca', 'co': 'co', 'ch': 'ch', 'wt': 'wt', 'av': 'av',
        '_data_ca': 'ca', '_data_ce': 'ca', '_data_co': 'co', '_data_ch': 'ch', '_data_wt': 'wt', '_data_av': 'av'}


def slot(name):
    if not isinstance(name, str):
        return None
    if name.startswith('data_'):
        name = '_' + name
    if name.startswith('?') and ('ca_or_ce' in name):
        return 'ca'
    return SLOT.get(name, name)


def handlers_of(tree, cache={}):
    k = id(tree)
    if k not in cache:
        out = set()
        for h in ast.walk(tree):
            if isinstance(h, ast.ExceptHandler):
                for s in h.body:
                    for n in ast.walk(s):
                        out.add(id(n))
        cache[k] = (tree, out)
    return cache[k][1]


class Req(Domain):
    cap = 60
    max_depth = 6

    def __init__(self, mode, key=None):
        self.mode, self.key = mode, key
        self.lab = 'R:%s' % key
        self.calls, self.asked, self.bad, self.cur = {}, set(), [], ([], {})
        self.enter = {}
        self.parts = None

    # ---- request dictionaries live in the heap -----------------------------------
    def alloc(self, node, st, entries=()):
        e = 'D%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        for k in [k for k in st.heap if k.startswith(e + '[')]:
            del st.heap[k]
        for k, v in entries:
            st.heap['%s[%r]' % (e, k)] = v
        return V(e, NOLAB, TOP, ('rd', e))

    @staticmethod
    def isrd(v):
        return isinstance(v.obj, tuple) and v.obj[0] == 'rd'

    @staticmethod
    def entries(v, st):
        p = v.obj[1] + '['
        return [(ast.literal_eval(k[len(p):-1]), x) for k, x in sorted(st.heap.items()) if k.startswith(p)]

    def get(self, v, k, st):
        return st.heap.get('%s[%r]' % (v.obj[1], k))

    def put(self, v, k, x, st):
        st.heap['%s[%r]' % (v.obj[1], k)] = x

    def on_dict(self, ip, node, v, st):
        d = v.obj[1]
        if any(isinstance(k, str) and k.startswith('?') for k in d):
            return None
        if any(k is None for k in node.keys):
            ents = dict(d)
            for k, x in zip(node.keys, node.values):
                if k is None:
                    r = ip.ev(x, st)
                    if self.isrd(r):
                        ents.update(dict(self.entries(r, st)))
            d = ents
        return self.alloc(node, st, d.items())

    def mapping(self, ip, v, st):
        return dict(self.entries(v, st)) if self.isrd(v) else None

    def assume(self, ip, test, truth, st):
        if not truth and isinstance(test, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
            v = ip.ev(test, st)
            if v.expr.startswith('REQ[') or self.mode == 'composite' and any(l.startswith('R:') for l in v.labels):
                return None          # a requirement that was declared is not empty
        return st

    def on_compare(self, ip, node, l, op, r, st):
        if isinstance(op, (ast.Is, ast.IsNot)) and r.const is None and l.expr.startswith('REQ['):
            return V('?is', NOLAB, isinstance(op, ast.IsNot))
        if isinstance(op, (ast.In, ast.NotIn)) and self.isrd(r) and l.const is not TOP:
            x = self.get(r, l.const, st)
            if x is not None and any(a.startswith('heap:') for a in x.labels):
                return None
            return V('?in', NOLAB, (x is not None) == isinstance(op, ast.In))
        return None

    def on_sub(self, ip, node, base, idx, st):
        if self.isrd(base) and idx.const is not TOP:
            return self.get(base, idx.const, st)
        if self.isds(base):
            if isinstance(idx.const, str):
                p = idx.const + '<-'
                return V('%s[%s]' % (base.expr, idx.expr), frozenset(l[len(p):] for l in base.labels if l.startswith(p) and l != p + '*'))
            return V('%s[%s]' % (base.expr, idx.expr))
        return None

    @staticmethod
    def isds(v):
        return isinstance(v.obj, tuple) and v.obj[0] == 'dset'

    def on_load_attr(self, ip, node, base, attr, st):
        if self.isrd(base):
            x = self.get(base, attr, st)
            return x if x is not None else V('%s.%s' % (base.expr, attr), NOLAB, TOP, ('bound', base, attr))
        if self.isds(base):
            return V('%s.%s' % (base.expr, attr), NOLAB, TOP, ('bound', base, attr))
        if base.expr == 'self':
            if self.mode == 'emit':
                a = attr.lstrip('_')
                if a in ROLE:
                    on = a in self.key
                    return V('self.' + a, frozenset(['A:' + a]), TOP if not on else TOP, None) if on else V('self.' + a, NOLAB, None)
            s = {'_data_ch': 'ch', 'data_ch': 'ch', '_data_wt': 'wt', 'data_wt': 'wt', '_data_av': 'av', 'data_av': 'av', '_data_ch_as_ce': 'ch'}.get(attr)
            if s:
                f = ip.frame.func
                inh = f is not None and id(node) in handlers_of(f.node)
                return V('self.' + attr, frozenset(['S:' + s, 'E:' + s]) if inh else frozenset(['S:' + s]))
            if self.mode == 'composite' and attr == '_k_models' and self.parts.get('members'):
                return V('self._k_models', NOLAB, TOP, ('rd', 'KM'))
        if self.mode == 'emit' and attr in ('data', 'param', 'scale') and any(l.startswith('A:') for l in base.labels):
            return V('%s.%s' % (base.expr, attr), base.labels | {'F:' + attr})
        return None

    def on_store_sub(self, ip, node, base, idx, val, aug, st):
        if self.isrd(base) and idx.const is not TOP:
            if aug:
                old = self.get(base, idx.const, st)
                val = val.with_(labels=val.labels | (old.labels if old is not None else NOLAB))
            self.put(base, idx.const, val, st)
            return
        root = node
        while isinstance(root, (ast.Subscript, ast.Attribute)):
            root = root.value
        if not isinstance(root, ast.Name) or root.id not in st.env:
            return
        v = st.env[root.id]
        if self.isds(v):
            if self.isds(base) and isinstance(idx.const, str):
                st.env[root.id] = self.add(v, idx.const, val)
            return
        if self.isrd(v):
            return
        if val.labels - v.labels:
            st.env[root.id] = v.with_(labels=v.labels | val.labels)

    def on_store_attr(self, ip, node, base, attr, val, st):
        if self.isrd(base):
            self.put(base, attr, val, st)
        elif self.isds(base) and slot(attr) in ('ca', 'co', 'ch', 'wt', 'av') and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            st.env[node.value.id] = self.add(base, slot(attr), val)

    # ---- data sets and DataFrames: labels 'role<-source' ---------------------------
    def add(self, ds, name, val):
        labs = {l for l in ds.labels if not l.startswith(name + '<-')}
        if val.const is not None:
            labs.add(name + '<-*')
            labs |= {'%s<-%s' % (name, l) for l in val.labels if l[:2] in ('R:', 'S:', 'E:')}
        return V('DS', frozenset(labs), TOP, ('dset',))

    def loop_once(self, ip, node, itv, st):
        return True

    def on_loop(self, ip, node, itv, st):
        if self.isrd(itv):
            es = self.entries(itv, st)
            if len(es) == 1:
                return V(repr(es[0][0]), NOLAB, es[0][0])
        if isinstance(itv.obj, tuple) and itv.obj[0] == 'pairs' and len(itv.obj[1]) == 1:
            return itv.obj[1][0]
        return None

    def on_stmt(self, ip, s, st):
        f = ip.frame.func
        if f is not None and id(s) in handlers_of(f.node):
            st.facts['exc'] = True

    def join_fact(self, k, a, b):
        return a or b

    def inline(self, f, ip):
        args, kw = self.cur
        root = ip.frames[0].func
        if f.kind == 'getter':
            return False
        near = f.module is root.module or (f.cls is not None and root.cls is not None and f.cls in ip.prog.mro(root.cls))
        if any(self.isrd(v) or self.isds(v) for v in list(args) + list(kw.values())):
            return near or f.module.name.startswith('larch')
        if not near or f.name == '__init__':
            return False
        if self.mode == 'emit':
            return not (f.name.startswith('__') and f.name.endswith('__'))
        if f.kind == 'func' and f.cls is None and self.mode == 'composite':
            return True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in ('DataFrames', 'hasattr') or isinstance(n, ast.Attribute) and n.attr == 'required_data':
                return f.name not in ('__init__', root.name)
        return False

    def on_enter(self, ip, f, st):
        vals = list(st.env.values())
        dss = [v.labels for v in vals if self.isds(v)]
        self.enter[len(ip.frames)] = frozenset().union(*dss) | {'in'} if dss and any(self.lab in v.labels for v in vals) else None

    def justified(self, st):
        # the code compared the name requested with what it has
        return any(v and "REQ[" in c and 'isinstance' not in c for c, v in st.conds.items())

    def on_return(self, ip, f, node, st):
        n = len(ip.frames)
        if n > 1 and self.enter.get(n) and st.ret is not None and self.mode == 'provide':
            r = st.ret
            if isinstance(r.obj, tuple) and r.obj[0] == 'tuple' and r.obj[1]:
                ds = [x for x in r.obj[1] if self.isds(x)]
                r = ds[0] if ds else r
            if self.isds(r) and not any(l.endswith('<-' + self.lab) for l in r.labels) and not (self.justified(st) and r.labels - self.enter[n]):
                self.bad.append((f, node))

    def on_call(self, ip, node, fv, args, kw, st):
        self.cur = (args, kw)
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else (node.func.id if isinstance(node.func, ast.Name) else '')
        o = fv.obj
        if nm == 'isinstance' and args and (self.isrd(args[0]) or self.isds(args[0])):
            t = ast.unparse(node.args[1])
            if self.isrd(args[0]):
                return V('?isinst', NOLAB, any(w in t.lower() for w in ('dict', 'mapping')))
            return None
        if nm == 'hasattr' and len(args) == 2 and isinstance(args[1].const, str):
            self.asked.add(args[1].const)
            return V('hasattr(%s, %s)' % (args[0].expr, args[1].expr))
        if nm in DICTS and not (isinstance(o, tuple) and o[0] in ('method', 'bound')):
            ents = {}
            for a in args:
                if self.isrd(a):
                    ents.update(dict(self.entries(a, st)))
                elif a.labels:
                    return None
            ents.update({k: v for k, v in kw.items() if k != '**'})
            return self.alloc(node, st, ents.items())
        if nm == 'DataFrames' and isinstance(o, tuple) and o[0] == 'class' or nm == 'DataFrames' and self.mode == 'provide':
            ds = V('DS', NOLAB, TOP, ('dset',))
            for k, v in kw.items():
                if k == '**':
                    continue
                if slot(k) in ('ca', 'co', 'ch', 'wt', 'av'):
                    ds = self.add(ds, slot(k), v)
            return ds
        if nm == 'Dataset' and self.mode == 'provide':
            return V('DS', NOLAB, TOP, ('dset',))
        if nm == 'DataArray' and self.mode == 'provide':
            labs = frozenset().union(*[v.labels for v in list(args) + list(kw.values())]) if (args or kw) else NOLAB
            return V('DataArray@%d' % node.lineno, labs, TOP, ('arr', kw['name'].const if 'name' in kw else None))
        if isinstance(o, tuple) and o[0] == 'bound':
            b, attr = o[1], o[2]
            if self.isrd(b):
                return self.dict_call(ip, node, b, attr, args, kw, st)
            if self.isds(b):
                if attr not in DSMETH:
                    return V('%s.%s()' % (b.expr, attr))
                ds = b
                for a in args:
                    nmv = a.obj[1] if isinstance(a.obj, tuple) and a.obj[0] == 'arr' else None
                    if attr in ('merge', 'update') and isinstance(nmv, str):
                        ds = self.add(ds, nmv, a)
                    elif attr in ('merge', 'assign', 'update') and self.isrd(a):
                        for k, x in self.entries(a, st):
                            ds = self.add(ds, k, x)
                if attr == 'assign':
                    for k, x in kw.items():
                        ds = self.add(ds, k, x)
                if attr == 'update' and isinstance(node.func.value, ast.Name):
                    st.env[node.func.value.id] = ds
                return ds
            if attr == 'rename' and len(args) == 1:
                return V('%s.rename()' % b.expr, b.labels, TOP, ('arr', args[0].const))
            if isinstance(b.obj, tuple) and b.obj[0] == 'arr':
                return V('%s.%s()' % (b.expr, attr), b.labels, TOP, b.obj)
            if attr in ('add', 'append', 'update', 'extend', 'insert') and args:
                labs = frozenset().union(*[a.labels for a in args])
                self.grow(ip, node.func.value, labs, st)
                return V('None', NOLAB, None)
        if nm == 'required_data' and self.mode == 'composite':
            which = 'top' if 'membership' in fv.expr else 'class'
            if which == 'class' and fv.expr.startswith('MEMBER'):
                which = 'class' + fv.expr[6]
            self.calls.setdefault(which, set()).add(node)
            ents = [(k, V("REQ[%r]" % k, frozenset(['R:%s@%s' % (k, which)]))) for k in self.parts.get(which, ())]
            return self.alloc(node, st, ents)
        if self.mode == 'provide' and isinstance(o, tuple) and o[0] == 'method' and any(self.lab in a.labels for a in list(args) + list(kw.values())):
            if fv.expr.startswith('self.'):
                self.calls.setdefault('self', set()).add(nm)
        return None

    def grow(self, ip, lv, labs, st):
        if isinstance(lv, ast.Name) and lv.id in st.env:
            v = st.env[lv.id]
            st.env[lv.id] = v.with_(labels=v.labels | labs)
        elif isinstance(lv, ast.Attribute):
            b = ip.ev(lv.value, st)
            if self.isrd(b):
                v = self.get(b, lv.attr, st)
                if v is not None:
                    self.put(b, lv.attr, v.with_(labels=v.labels | labs), st)
        elif isinstance(lv, ast.Subscript):
            b, i = ip.ev(lv.value, st), ip.ev(lv.slice, st)
            if self.isrd(b) and i.const is not TOP:
                v = self.get(b, i.const, st)
                if v is not None:
                    self.put(b, i.const, v.with_(labels=v.labels | labs), st)
        elif isinstance(lv, ast.Call) and isinstance(lv.func, ast.Attribute) and lv.func.attr == 'setdefault' and lv.args:
            b, i = ip.ev(lv.func.value, st), ip.ev(lv.args[0], st)
            if self.isrd(b) and i.const is not TOP:
                v = self.get(b, i.const, st) or V('[]')
                self.put(b, i.const, v.with_(labels=v.labels | labs), st)

    def dict_call(self, ip, node, b, attr, args, kw, st):
        if attr in ('get', 'pop', 'setdefault') and args and args[0].const is not TOP:
            v = self.get(b, args[0].const, st)
            d = args[1] if len(args) > 1 else V('None', NOLAB, None)
            if v is None:
                if attr == 'setdefault':
                    self.put(b, args[0].const, d, st)
                return d
            if attr == 'pop':
                st.heap.pop('%s[%r]' % (b.obj[1], args[0].const), None)
            return v
        if attr == 'update':
            for a in args:
                if self.isrd(a):
                    for k, x in self.entries(a, st):
                        self.put(b, k, x, st)
            for k, x in kw.items():
                self.put(b, k, x, st)
            return V('None', NOLAB, None)
        if attr in ('copy', '__copy__'):
            return self.alloc(node, st, self.entries(b, st))
        if attr == 'items':
            ps = [V('(%r, %s)' % (k, x.expr), x.labels, TOP, ('tuple', [V(repr(k), NOLAB, k), x])) for k, x in self.entries(b, st)]
            return V('%s.items()' % b.expr, NOLAB, TOP, ('list', ps))
        if attr == 'keys':
            return V('%s.keys()' % b.expr, NOLAB, TOP, ('list', [V(repr(k), NOLAB, k) for k, _ in self.entries(b, st)]))
        if attr == 'values':
            return V('%s.values()' % b.expr, NOLAB, TOP, ('list', [x for _, x in self.entries(b, st)]))
        return None


def emission(ctx, f, attrs):
    """keys written when exactly `attrs` are set: list of (state, {key: V})"""
    dom = Req('emit', frozenset(attrs))
    ip = Interp(ctx.prog, dom)
    st = State()
    for a in attrs:
        e = 'self.' + a
        st.conds.update({e: True, '(%s is None)' % e: False, 'len(%s)' % e: True, '(0 < len(%s))' % e: True, '(0 == len(%s))' % e: False, 'bool(%s)' % e: True})
    c = ctx.prog.cls('larch.model.model', 'Model')
    res = ip.run(f, {'self': V('self', NOLAB, TOP, ('inst', c))}, cls=c, st=st)
    out = []
    for s in res['return']:
        if s.facts.get('exc'):
            continue
        if s.ret is None or not dom.isrd(s.ret):
            return None
        out.append((s, dict(dom.entries(s.ret, s))))
    return out


def emits(ctx):
    prog = ctx.prog
    c = prog.cls('larch.model.model', 'Model')
    f = prog.lookup(c, 'required_data')
    if f is None:
        raise AnalysisBroken('Model.required_data not found')
    ctx.seen(f)
    keyof = {}
    for a, role in SPEC:
        outs = emission(ctx, f, [a])
        if not outs:
            raise AnalysisBroken('the request built by %s was not understood' % f.qual)
        keys = set()
        for s, d in outs:
            keys |= {k for k, v in d.items() if a in {'choice_any', 'availability_any'} or 'A:' + a in v.labels}
        ok = len(keys) == 1 and all(next(iter(keys)) in d for s, d in outs)
        ctx.ob('declared', '%s:%s' % (f.qual, a), ok, f.loc(f.node), '%s of a model is not written into the request it makes of its data' % a)
        if keys:
            keyof[a] = sorted(keys)[0]
        if a in LINEAR and keys:
            labs = set().union(*[d[keyof[a]].labels for s, d in outs if keyof[a] in d])
            ctx.ob('declared', '%s:%s:data' % (f.qual, a), 'F:data' in labs and 'F:param' not in labs, f.loc(f.node), 'the request made for %s does not name the data of its terms' % a)
        extra = {k for s, d in outs for k in d} - keys
        ctx.ob('declared', '%s:%s:only' % (f.qual, a), not extra, f.loc(f.node), 'a model that declares only %s also requests %s' % (a, sorted(extra)))
    for i, (a, ra) in enumerate(SPEC):
        for b, rb in SPEC[i + 1:]:
            if a not in keyof or b not in keyof:
                continue
            outs = emission(ctx, f, [a, b]) or []
            ok = bool(outs)
            for s, d in outs:
                if ra == rb and ra in ('ch', 'av'):
                    ok = ok and len({keyof[a], keyof[b]} & set(d)) == 1
                elif keyof[a] == keyof[b]:
                    ok = ok and keyof[a] in d
                else:
                    ok = ok and keyof[a] in d and keyof[b] in d
            if keyof[a] == keyof[b]:
                labs = set().union(*[d[keyof[a]].labels for s, d in outs if keyof[a] in d]) if outs else set()
                ok = ok and {'A:' + a, 'A:' + b} <= labs
            ctx.ob('declared-together', '%s:%s+%s' % (f.qual, a, b), ok, f.loc(f.node), 'a model that declares both %s and %s loses one of them in its request' % (a, b))
    both = {k: r for a, r in SPEC if a in keyof for k in [keyof[a]]}
    roles = {}
    for a, r in SPEC:
        if a in keyof:
            if keyof[a] in roles and (roles[keyof[a]] != r or r in ('ch', 'av')):
                ctx.ob('declared', '%s:%s:own-key' % (f.qual, a), False, f.loc(f.node), 'the key %r stands for two kinds of data' % keyof[a])
            roles[keyof[a]] = r
    stored = {keyof[a] for a in ('choice_any', 'availability_any') if a in keyof}
    return roles, stored


def provide(ctx, f, reqname, key, cls, also=()):
    dom = Req('provide', key)
    dom.cap = 24 if also else 60
    ip = Interp(ctx.prog, dom)
    st = State()
    for k in (key,) + tuple(also):
        st.heap["REQ[%r]" % k] = V("REQ[%r]" % k, frozenset(['R:' + k]))
    args = {reqname: V('REQ', NOLAB, TOP, ('rd', 'REQ'))}
    if cls is not None:
        args[f.params[0]] = V('self', NOLAB, TOP, ('inst', cls))
    res = ip.run(f, args, cls=cls, st=st)
    for g in ip.inlined:
        ctx.info.setdefault('inlined', set()).add(g)
    return dom, res


def check_provider(ctx, f, reqname, key, role, stored, cls):
    dom, res = provide(ctx, f, reqname, key, cls)
    q = '%s:%s' % (f.qual, key)
    lab = 'R:' + key
    ok, some, why = True, False, ''
    cross = set()
    for s in res['return']:
        r = s.ret
        if r is not None and isinstance(r.obj, tuple) and r.obj[0] == 'tuple':
            ds = [x for x in r.obj[1] if dom.isds(x)]
            r = ds[0] if ds else r
        if r is None or not dom.isds(r):
            raise AnalysisBroken('the result of %s was not understood' % f.qual)
        by = {}
        for l in r.labels:
            n, src = l.split('<-', 1)
            by.setdefault(slot(n), set()).add(src)
        have = by.get(role, set())
        if stored:
            if 'S:' + role in have:
                some = True
            else:
                ok, why = False, 'may return without the %s it holds, though the request asks for it' % {'ch': 'choices', 'av': 'availability'}.get(role, role)
            continue
        if lab in have:
            some = True
        elif '*' in have and ('E:' + role in have or dom.justified(s)):
            pass
        else:
            ok, why = False, 'may return without the data requested by %r' % key
        cross |= {n for n, src in by.items() if n != role and lab in src and n in ('ca', 'co', 'ch', 'wt', 'av')}
    if res['return'] and not some:
        ok, why = False, why or 'never delivers the data requested by %r' % key
    ctx.ob('delivers', q, ok, f.loc(f.node), '%s %s' % (f.qual, why))
    ctx.ob('right-role', q, not cross, f.loc(f.node), '%s delivers the data requested by %r as %s' % (f.qual, key, sorted(cross)))
    seen = set()
    for g, n in dom.bad:
        k = (g.qual, getattr(n, 'lineno', 0))
        if k not in seen:
            seen.add(k)
            ctx.ob('delivers', '%s@%s' % (q, g.name), False, g.loc(n), '%s may return the data set without the data requested by %r' % (g.qual, key))
    return dom, res


def together(ctx, f, rq, k1, k2, roles, stored, cls):
    dom, res = provide(ctx, f, rq, k1, cls, (k2,))
    lost = set()
    for s in res['return']:
        r = s.ret
        if r is not None and isinstance(r.obj, tuple) and r.obj[0] == 'tuple':
            ds = [x for x in r.obj[1] if dom.isds(x)]
            r = ds[0] if ds else r
        by = {}
        for l in r.labels:
            n, src = l.split('<-', 1)
            by.setdefault(slot(n), set()).add(src)
        for k in (k1, k2):
            have = by.get(roles[k], set())
            if not (('S:' + roles[k] in have) if k in stored else ('R:' + k in have or '*' in have and ('E:' + roles[k] in have or dom.justified(s)))):
                lost.add(k)
    ctx.ob('delivers-together', '%s:%s+%s' % (f.qual, k1, k2), not lost, f.loc(f.node), '%s does not deliver %s when %r and %r are both requested' % (f.qual, sorted(lost), k1, k2))


def check(ctx):
    prog = ctx.prog
    ctx.rule('delivers-together', 'requesting two kinds of data loses neither', 50)
    ctx.rule('declared', 'each kind of data a model declares is written into its request, under one key', 20)
    ctx.rule('declared-together', 'declaring two kinds of data loses neither', 30)
    ctx.rule('delivers', 'a provider returns the data requested in its role, or raises', 20)
    ctx.rule('right-role', 'data requested for one role is not delivered as another', 20)
    ctx.rule('validated', 'validation asks for every loader the provider needs', 8)
    ctx.rule('composite', 'a composite model requests what its parts request', 11)
    roles, stored = emits(ctx)
    ctx.info['keys'] = {k: roles[k] for k in sorted(roles)}
    providers = []
    for m, c in (('larch.dataframes', 'DataFrames'), ('larch.data_services.service', 'DataService')):
        cls = prog.cls(m, c)
        f = prog.lookup(cls, 'make_dataframes')
        if f is None:
            raise AnalysisBroken('%s.make_dataframes not found' % c)
        providers.append((f, f.params[1], cls))
    f = prog.need_module('larch.numba.data_arrays').funcs.get('prepare_data')
    if f is None:
        raise AnalysisBroken('prepare_data not found')
    providers.append((f, 'request' if 'request' in f.params else f.params[1], None))
    for f, rq, cls in providers:
        ctx.seen(f)
        for i, (k1, r1) in enumerate(sorted(roles.items())):
            for k2, r2 in sorted(roles.items())[i + 1:]:
                if r1 == r2:
                    continue
                together(ctx, f, rq, k1, k2, roles, stored, cls)
        val = prog.lookup(cls, 'validate_dataservice') if cls is not None else None
        for key, role in sorted(roles.items()):
            dom, res = check_provider(ctx, f, rq, key, role, key in stored, cls)
            if val is None or not any(isinstance(n, ast.If) for n in ast.walk(val.node)):
                continue
            ctx.seen(val)
            vd, vr = provide(ctx, val, val.params[1], key, cls)
            need = {m for m in dom.calls.get('self', ())}
            miss = need - vd.asked if vr['return'] else set()
            ctx.ob('validated', '%s:%s' % (val.qual, key), not miss, val.loc(val.node), '%s does not ask for %s, which a request for %r needs' % (val.qual, sorted(miss), key))
    # ---- composites: classes whose required_data asks other models
    base = prog.cls('larch.model.model', 'Model')
    comps = []
    for m in prog.all_modules():
        for c in m.classes.values():
            g = c.methods.get('required_data')
            if g is not None and c is not base and any(isinstance(n, ast.Attribute) and n.attr == 'required_data' for n in ast.walk(g.node)):
                comps.append((c, g))
    if not comps:
        raise AnalysisBroken('no composite model found')
    for c, g in comps:
        ctx.seen(g)
        plans = [({'class': [k]}, k, 'class') for k in sorted(roles)] + [({'members': 1, w: [k]}, k, w) for k in sorted(roles) for w in ('class1', 'class2')] \
            + [({'members': 1, 'class1': [k], 'class2': [k]}, k, w) for k in sorted(roles) if roles[k] in ('ca', 'co') for w in ('class1', 'class2')] + [({'top': [k]}, k, 'top') for k in sorted(roles) if roles[k] == 'co'] \
            + [({'class': [k], 'top': [k]}, k, w) for k in sorted(roles) if roles[k] == 'co' for w in ('class', 'top')]
        for parts, k, w in plans:
            dom = Req('composite', k)
            dom.parts = parts
            ip = Interp(prog, dom)
            st = State()
            if parts.get('members'):
                for j in '12':
                    st.heap["KM['%s']" % j] = V('MEMBER' + j, NOLAB, TOP, ('inst', base))
            res = ip.run(g, {'self': V('self', NOLAB, TOP, ('inst', c))}, cls=c, st=st)
            if parts.get('members') and 'class' in dom.calls:
                continue            # the members are reached in another way: covered by the joined plan
            if not dom.calls:
                raise AnalysisBroken('%s: the requests of the parts were not found' % g.qual)
            outs = res['return']
            ok = bool(outs)
            for s in outs:
                if s.ret is None or not dom.isrd(s.ret):
                    raise AnalysisBroken('%s: the request returned was not understood' % g.qual)
                d = dict(dom.entries(s.ret, s))
                ok = ok and k in d and 'R:%s@%s' % (k, w) in d[k].labels
            ctx.ob('composite', '%s:%s:%s:%s' % (g.qual, '+'.join(sorted(parts)), k, w), ok, g.loc(g.node),
                   '%s loses the requirement %r of its %s' % (g.qual, k, 'member models' if w != 'top' else 'membership model'))
    ctx.info['inlined'] = sorted(ctx.info.get('inlined', ()))
