"""P18: assigned data tables stay aligned with the arrays the engines use."""
import ast

from ..absint import Domain, Interp, V, NOLAB, TOP
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of every method that stores a component table of the model data, with a table-version label on each value and a row-order typestate; at every normal exit the engine array of each stored table '
             'must carry the label of the table now stored, and the stored table must be in case order')
NOTE = ('row order is the typestate "sorted by index or brought to the case index", so tables whose index holds other cases than the case data are not told apart; writes into a table through pandas by the caller are out of reach; '
        'NaN and dtype conversions are not judged')
EXPLAIN = ('Obligations: for every method and every path through it, each stored table has its engine array stored after it, from it (or emptied, if the table is empty or the data are not in computational form); each stored table '
           'is in case order; the index maps of the idce table are rebuilt with it; switching to computational form rebuilds the arrays; idca and idce tables never coexist; nothing outside the class replaces a table.')
ASSUME = ['sort_index and reindex order the rows as pandas documents', 'conversion helpers keep the row order of the table they are given']

TABLES = ('co', 'ca', 'ce', 'av', 'ch', 'wt')
LAZY = ('co', 'ca', 'ce')          # arrays that exist only in computational form
MAPS = ('_array_ce_caseindexes', '_array_ce_altindexes', '_array_ce_reversemap')


class Dom(Domain):
    cap = 80
    max_depth = 7

    def __init__(self, cls, judged=()):
        self.cls = cls
        self.judged = judged         # judged on their own: storing through them keeps table and array together

    def inline(self, f, ip):
        if f in self.judged:
            return False
        return f.cls is self.cls and not f.name.startswith('__') or f.cls is None and f.module is self.cls.module

    def mine(self, b):
        return isinstance(b.obj, tuple) and b.obj[:1] == ('inst',) and b.obj[1] is self.cls and b.expr == 'self'

    def join_fact(self, k, a, b):
        if k.startswith('ok:'):
            return a if a == b else None
        return (a or frozenset()) | (b or frozenset())

    # ------------------------------------------------------------ tables
    def on_load_attr(self, ip, node, base, attr, st):
        if self.mine(base) and attr[:5] == 'data_' and attr[5:] in TABLES:
            attr = '_' + attr
        if self.mine(base) and attr[:6] == '_data_' and attr[6:] in TABLES:
            k = attr[6:]
            v = st.heap.get('self.' + attr)
            if v is None:
                return V('self.' + attr, frozenset(['T:%s:0' % k]))
            return v.with_(labels=v.labels | st.facts.get('ver:' + k, frozenset()))
        if self.mine(base) and attr[:7] == '_array_' and ('self.' + attr) not in st.heap:
            return V('self.' + attr, frozenset(['A:' + attr]))
        return None

    def on_store_attr(self, ip, node, base, attr, v, st):
        if not self.mine(base):
            return
        if attr[:5] == 'data_' and attr[5:] in TABLES and self.cls is not None:
            k = attr[5:]
            if ip.prog.lookup(self.cls, attr, 'setter') in self.judged:
                for x in ('ver:', 'set:', 'arr:', 'raw:', 'arrlab:'):
                    st.facts.pop(x + k, None)
                st.facts['ver:' + k] = frozenset(['T:%s:%d.%d' % (k, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))])
                st.facts['pend'] = st.facts.get('pend', frozenset()) - {k}
                st.heap['self._data_' + k] = V('tab:%s:%d.%d' % (k, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), frozenset(['T:%s:%d.%d' % (k, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))]), None if v.const is None else TOP)
            return
        if attr[:6] == '_data_' and attr[6:] in TABLES:
            k = attr[6:]
            tag = 'T:%s:%d.%d' % (k, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
            raw = 'raw' in v.labels and v.const is not None
            lab = st.facts.get('arrlab:' + k, frozenset())
            src = frozenset(x for x in v.labels if x.startswith('arg:'))
            v.labels = v.labels | {tag}
            st.facts['ver:' + k] = frozenset([tag])
            arr = st.heap.get('self._array_' + k)
            early = bool(lab and src and src <= lab and ('raw' in lab) == raw)
            if arr is not None and arr.const is None and (v.const is None or k in LAZY and st.conds.get('self._computational') is False):
                early = True
            st.facts['arr:' + k] = frozenset() if early else frozenset(['stale'])
            st.facts['arrlab:' + k] = frozenset()
            st.facts['set:' + k] = frozenset([('none' if v.const is None else 'table')])
            st.facts['raw:' + k] = frozenset(['raw']) if raw else frozenset()
            if k == 'ce':
                for m in MAPS:
                    st.facts['map:' + m] = frozenset(['stale'])
            st.facts['at:' + k] = frozenset([ip.frame.func.loc(node)])
            p = st.facts.get('pend', frozenset())
            st.facts['pend'] = p - {k}
        elif attr[:7] == '_array_' and attr[7:] in TABLES:
            k = attr[7:]
            ver = st.facts.get('ver:' + k)
            if ver is None:
                ver = frozenset(['T:%s:0' % k])
            cur = st.heap.get('self._data_' + k)
            isnone = (cur is not None and cur.const is None) or st.conds.get('(self._data_%s is None)' % k) is True
            lazy = k in LAZY and st.conds.get('self._computational') is False
            if v.const is None:
                tok = frozenset() if isnone or lazy else frozenset(['emptied'])
            elif ver <= v.labels:
                tok = frozenset()
            elif cur is not None and cur.const is None:
                tok = frozenset()
            else:
                tok = frozenset(['foreign'])
            st.facts['arr:' + k] = tok
            st.facts['arrlab:' + k] = frozenset(x for x in v.labels if x.startswith('arg:') or x == 'raw')
        elif attr in MAPS:
            ver = st.facts.get('ver:ce', frozenset(['T:ce:0']))
            cur = st.heap.get('self._data_ce')
            isnone = cur is not None and cur.const is None
            maps = frozenset('M:' + m for m in MAPS)
            ok = (v.const is None and isnone) or (v.const is not None and (ver <= v.labels))
            st.facts['map:' + attr] = frozenset() if ok else frozenset(['foreign'])
        elif attr == '_computational':
            if v.const is False or v.expr == 'self._computational' and 'self._computational' not in st.heap or 'was' in v.labels:
                st.facts['pend'] = frozenset()
            elif st.conds.get('self._computational') is not True:
                st.facts['pend'] = frozenset(LAZY)
            self_const = v.const
            if isinstance(self_const, bool) or v.const is TOP and st.conds.get(v.expr) is True:
                st.conds['self._computational'] = True if self_const is not False else False
            else:
                st.conds.pop('self._computational', None)

    # ------------------------------------------------------------ order
    def on_call(self, ip, node, fv, args, kw, st):
        if isinstance(node.func, ast.Attribute):
            a = node.func.attr
            b = fv.obj[1] if isinstance(fv.obj, tuple) and fv.obj[0] == 'bound' else None
            if b is not None and a == 'sort_index' and not args and set(kw) <= {'inplace', 'ascending', 'level', 'axis', 'kind', 'copy'}:
                good = all(v.const in (True, 0, 'index', 'quicksort', 'mergesort', 'stable') for k, v in kw.items() if k in ('ascending', 'axis', 'kind')) or not kw
                good = good and (kw.get('axis') is None or kw['axis'].const in (0, 'index')) and (kw.get('ascending') is None or kw['ascending'].const is True) and 'level' not in kw
                inplace = 'inplace' in kw and kw['inplace'].const is not False
                lab = b.labels - {'raw'} if good else b.labels
                if inplace:
                    self.relabel(st, b.expr, lab)
                    return V('None', NOLAB, None)
                return V('%s.sort_index()' % b.expr, lab)
            if b is not None and a in ('reindex', 'reindex_like') and (args or 'index' in kw):
                x = kw.get('index') or args[0]
                if 'raw' not in x.labels:
                    return V('%s.reindex(%s)' % (b.expr, x.expr), (b.labels | x.labels) - {'raw'})
            if b is not None and b.labels:
                labs = set(b.labels)
                if a not in ('reshape', 'astype', 'copy', 'to_numpy', 'view'):
                    for v in list(args) + list(kw.values()):
                        labs |= v.labels - {'raw'}
                return V('%s(%s)' % (fv.expr, ', '.join([v.expr for v in args] + ['%s=%s' % (k, v.expr) for k, v in sorted(kw.items())])), frozenset(labs))
        if 'index' in kw and not (isinstance(fv.obj, tuple) and fv.obj[0] in ('func', 'method', 'closure', 'unbound', 'class')):
            # a new table: its rows are as its data come, and its labels as the index says
            labs = set()
            for v in list(args) + list(kw.values()):
                labs |= v.labels
            return V('%s(%s)' % (fv.expr, ', '.join([v.expr for v in args] + ['%s=%s' % (k, v.expr) for k, v in sorted(kw.items())])), frozenset(labs))
        return None

    def relabel(self, st, expr, labels):
        for k, v in list(st.env.items()):
            if v.expr == expr:
                st.env[k] = v.with_(labels=labels)

    def assume(self, ip, test, truth, st):
        if truth and isinstance(test, ast.Attribute) and test.attr in ('is_monotonic_increasing', 'is_monotonic') and isinstance(test.value, ast.Attribute) and test.value.attr == 'index':
            b = ip.ev(test.value.value, st)
            self.relabel(st, b.expr, b.labels - {'raw'})
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and truth == isinstance(test.ops[0], ast.Is):
            v = ip.ev(test.left, st)
            self.relabel(st, v.expr, v.labels - {'raw'})
            for k in LAZY:
                if st.facts.get('set:' + k) == {'table'} and v.labels & st.facts.get('ver:' + k, frozenset()):
                    return None
        return st

    def on_store_name(self, ip, node, name, v, st):
        if v.expr == 'self._computational' and 'self._computational' not in st.heap:
            v.labels = v.labels | {'was'}


class Ip(Interp):
    """conditions joined with and/or are split so that each path knows which part held"""
    def split(self, test, truth, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.split(test.operand, not truth, st)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == truth:
                cur = [st]
                for x in test.values:
                    cur = [y for s in cur for y in self.split(x, truth, s)]
                return cur
            out, cur = [], [st]
            for x in test.values:
                nxt = []
                for s in cur:
                    out += self.split(x, truth, s.copy())
                    nxt += self.split(x, not truth, s)
                cur = nxt
            return out
        r = self.assume(test, truth, st)
        return [r] if r is not None else []

    def s_If(self, s, st):
        out = {}
        a = st.copy()
        self.ev(s.test, a)
        for truth, body in ((True, s.body), (False, s.orelse)):
            for sub in self.split(s.test, truth, a.copy()):
                r = self.block(body, [sub]) if body else {'next': [sub]}
                for k, v in r.items():
                    out.setdefault(k, []).extend(v)
        return out


def writers(cls):
    """methods of the class that store a table or switch its form"""
    names = {'_data_' + k for k in TABLES} | {'data_' + k for k in TABLES} | {'_computational', 'computational'} | {'_array_' + k for k in TABLES} | set(MAPS)
    direct = []
    for f in cls.functions():
        if any(isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0] for n in ast.walk(f.node)):
            direct.append(f)
    return direct


def callers(cls, funcs):
    priv = {f.name for f in funcs if f.name.startswith('_') and not f.name.startswith('__')}
    more = list(funcs)
    while True:
        add = [f for f in cls.functions() if f not in more and any(isinstance(n, ast.Attribute) and n.attr in priv and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0] for n in ast.walk(f.node))]
        if not add:
            return more
        more += add
        priv |= {f.name for f in add if f.name.startswith('_') and not f.name.startswith('__')}


def check(ctx):
    prog = ctx.prog
    cls = prog.cls('larch.dataframes', 'DataFrames')
    ctx.rule('array-follows-table', 'when a method returns, the engine array of every table it stored was stored after it and made from it', 7)
    ctx.rule('case-order', 'every stored table is in case order', 6)
    ctx.rule('index-maps', 'the index maps of the idce table are rebuilt with the table', 3)
    ctx.rule('activation', 'switching to computational form rebuilds the engine arrays', 2)
    ctx.rule('one-layout', 'after an idca or idce table is stored, the other layout is empty', 2)
    ctx.rule('outside', 'nothing outside the class replaces a table or its engine array', 0)
    direct = writers(cls)
    roots = callers(cls, direct)
    # a private helper that only its callers complete is judged in its callers
    called = {n.attr for f in roots for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self',)}
    done = 0
    judged = [f for f in roots if not (f.kind in ('staticmethod', 'classmethod') or f.name.startswith('_') and not f.name.startswith('__') and f.kind == 'method' and f.name in called
              and not any(isinstance(n, ast.Attribute) and n.attr == '_computational' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)))]
    for f in judged:
        dom = Dom(cls, [g for g in judged if g is not f])
        if f.kind != 'setter':
            dom.cap = 8
        ip = Ip(prog, dom)
        args = {f.params[0]: V('self', NOLAB, TOP, ('inst', cls))}
        for p in f.all_params[1:]:
            args[p] = V(p, frozenset(['arg:' + p, 'raw']))
        res = ip.run(f, args, cls=cls)
        ctx.seen(f)
        if not res['return']:
            raise AnalysisBroken('%s never returns' % f.qual)
        done += 1
        bad = {}
        seen = set()
        acts = False
        for st in res['return']:
            for k in TABLES:
                if 'set:' + k not in st.facts:
                    if 'arr:' + k in st.facts:
                        seen.add(('array-follows-table', k))
                        t = st.facts['arr:' + k]
                        if t:
                            bad[('array-follows-table', k)] = 'the array the engines read for the %s table is replaced by one not made from that table' % k
                    continue
                at = ', '.join(sorted(st.facts.get('at:' + k, ())))
                seen |= {('array-follows-table', k), ('case-order', k)}
                t = st.facts.get('arr:' + k, frozenset(['stale']))
                if t and not (f.name == '__init__' and t == {'stale'} and st.facts['set:' + k] == {'none'} and 'ver:' + k in st.facts and ('self._array_' + k) not in st.heap):
                    what = {'stale': 'is not made again', 'foreign': 'is made from something else', 'emptied': 'is emptied although the table is not'}
                    bad[('array-follows-table', k)] = 'on a path that stores the %s table (%s) the array the engines read %s' % (k, at, ' / '.join(what[x] for x in sorted(t)))
                if st.facts.get('raw:' + k):
                    bad[('case-order', k)] = 'the %s table is stored (%s) in the row order it came in, which need not be the case order' % (k, at)
            if 'set:ce' in st.facts:
                for m in MAPS:
                    seen.add(('index-maps', m))
                    if st.facts.get('map:' + m):
                        bad[('index-maps', m)] = '%s is not rebuilt from the idce table stored at %s' % (m, ', '.join(sorted(st.facts.get('at:ce', ()))))
            if 'pend' in st.facts:
                if st.facts['pend'] and f.name != '__init__':
                    bad[('activation', 'form')] = 'the data become computational while the engine arrays of %s are not made' % ', '.join(sorted(st.facts['pend']))
                acts = True
            for k, o in (('ca', 'ce'), ('ce', 'ca')):
                if st.facts.get('set:' + k) == {'table'} and f.kind == 'setter' and f.name.split('.')[0] == 'data_' + k:
                    seen.add(('one-layout', k))
                    other = st.heap.get('self._data_' + o)
                    if not ((other is not None and other.const is None) or (other is None and st.conds.get('(self._data_%s is None)' % o) is True)
                            or st.conds.get('(self._data_%s is None)' % k) is True):
                        bad[('one-layout', k)] = 'a %s table can be stored while an earlier %s table stays in use' % (k, o)
        if acts and any(isinstance(n, ast.Attribute) and n.attr == '_computational' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) and f.name != '__init__':
            seen.add(('activation', 'form'))
        for r, k in sorted(seen | set(bad)):
            msg = bad.get((r, k))
            ctx.ob(r, '%s:%s' % (f.qual, k), msg is None, f.loc(f.node), '%s: %s' % (f.qual, msg))
    if done < 10:
        raise AnalysisBroken('the methods that store tables were not found')
    # ---- outside the class
    names = {'_data_' + k for k in TABLES} | {'_array_' + k for k in TABLES}
    n = 0
    for m in prog.all_modules():
        if not m.rel.endswith('.pyx'):
            continue
        for f in m.all_funcs():
            if f.cls is cls:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in names:
                    own = isinstance(x.value, ast.Name) and x.value.id == 'self'
                    n += 1
                    ctx.ob('outside', '%s:%s' % (f.qual, x.attr), own, f.loc(x), '%s replaces %s of a data object behind its back' % (f.qual, x.attr))
    ctx.info['methods analysed'] = done
    ctx.info['stores outside'] = n
