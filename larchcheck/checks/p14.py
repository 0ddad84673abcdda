"""P14: compiled kernel signatures agree with the data passed to them."""
import ast
import re

from ..gufunc import kernels, used, split_signature
from ..kern import Exec, KDomain, K, St, isslice
from ..program import AnalysisBroken, Func

TECHNIQUE = ('type-level analysis of the array kernels: letters, shapes and parameters are matched one by one; abstract interpretation of the kernel body with symbolic dimensions finds, for each integer array, '
             'which dimension its entries index; a provenance analysis of the code that builds the argument tuples finds which dimension they were looked up in, and the two must be the same at every position')
NOTE = ('the values stored in slot arrays are compared by the kind of position they hold (parameter, alternative, data column, edge), not by value; positions whose provenance the analysis cannot see carry no '
        'obligation; a native helper call is checked for interchanged arguments only, its array types are checked by the compiler')
EXPLAIN = ('Every guvectorize kernel that is used: one type letter, one shape and one parameter per argument, ranks equal, subscripts within rank; entries of an index array used for one dimension only; the namedtuples '
           'that hold the arguments listed in the order of the kernel parameters with matching dimension and content; work arrays allocated with one case dimension followed by the declared output dimensions; '
           'the case slice applied to exactly the arrays that have a case dimension; flags in the order in which the kernel reads them.')
ASSUME = ['case-alternative data in the sparse form has the same columns as in the dense form', 'alternatives are the first nodes of the nesting tree, so a position among alternatives is also a position among nodes']

RANK = {'f': 1, 'F': 2, 'r': 0, 'i': 1, 'j': 1, 'I': 2, 'b': 1, 'S': 0, 'B': 0}
# positions of the first are positions of the second; the two forms of alternative data share their columns
SUB = {('alts', 'nodes'), ('vca', 'vce'), ('vce', 'vca')}


def dims(s):
    return [x.strip() for x in s.split(',') if x.strip()]


class DimDom(KDomain):
    cap = 12

    def __init__(self, k):
        self.k = k
        self.dims = {p: dims(s) for p, s in zip(k.func.params, k.ins + k.outs)}
        self.syms = {x for v in self.dims.values() for x in v}
        self.content = {}        # parameter [column] -> {dimension: (loc, func)}
        self.direct = []         # (root, dim, symbol used, symbol of the array, loc, fname)
        self.guarded = {}        # index text used in (x - n) -> {guarded?}
        self.over = []
        self.flagpos = {}

    def shape_of(self, ex, b, st):
        d = self.left(b.view)
        return d

    def left(self, view):
        if view is None or view[0] not in self.dims:
            a = self.alloc.get(view[0]) if view else None
            if a is None:
                return None
            base = a
        else:
            base = self.dims[view[0]]
        out = []
        for i, d in enumerate(base):
            if i < len(view[1]):
                t = view[1][i]
                if not isslice(t):
                    continue
                out.append(d if t == ':' else (t[1:] if re.match(r'^:\w+$', t) and t[1:] in self.syms else '?%s' % t))
            else:
                out.append(d)
        return out

    alloc = None

    def on_alloc(self, ex, k, shape, fill, node, st):
        if self.alloc is None:
            self.alloc = {}
        if shape and len(shape) == 1 and shape[0].startswith('like:') and shape[0][5:] in self.dims:
            self.alloc[k.text] = self.dims[shape[0][5:]]
        elif shape and len(shape) == 1 and shape[0].startswith('like:') and shape[0][5:] in self.alloc:
            self.alloc[k.text] = self.alloc[shape[0][5:]]
        elif shape and all(s in self.syms for s in shape):
            self.alloc[k.text] = list(shape)

    def dimsof(self, root):
        return self.dims.get(root) or (self.alloc or {}).get(root)

    def access(self, ex, root, idxs, node, st):
        dm = self.dimsof(root)
        if dm is None:
            return
        if len(idxs) > max(len(dm), 1):
            self.over.append((root, len(idxs), len(dm), ex.func.loc(node), ex.func.name))
            return
        for d, t in enumerate(idxs):
            if d >= len(dm) or isslice(t):
                continue
            t = re.sub(r'@[^\[\]{}]*$', '', t)        # position within a leading slice
            self.index(ex, root, d, dm[d], t, node, st)

    def index(self, ex, root, d, sym, t, node, st):
        loc = ex.func.loc(node)
        m = re.match(r'^idx\{(.*):(\w+)(?::[-\d]+)?\}$', t)
        if m and m.group(2) in self.syms:
            self.direct.append((root, d, m.group(2), sym, loc, ex.func.name))
            return
        m = re.match(r'^idx\{\((\w+) - 1\):-1:', t)
        if m and m.group(1) in self.syms:
            self.direct.append((root, d, m.group(1), sym, loc, ex.func.name))
            return
        c = self.cell(t)
        if c is not None:
            self.content.setdefault(c, {}).setdefault(sym, (loc, ex.func.name, root))
            return
        m = re.match(r'^\((.*) - (\w+)\)$', t)
        if m and m.group(2) in self.syms:
            c = self.cell(m.group(1))
            if c is not None:
                g = any(v and x.startswith('(%s <= ' % m.group(2)) and m.group(1) in x for x, v in st.conds.items())
                self.guarded.setdefault(c, set()).add(g)
            return
        m = re.match(r'^\((.*) \+ (.*)\)$', t)
        if m:
            for x in m.groups():
                c = self.cell(x)
                if c is not None:
                    self.content.setdefault(c, {}).setdefault(sym, (loc, ex.func.name, root))

    def cell(self, t):
        """the integer array an index value was read from"""
        m = re.match(r'^(\w+)\[(.*)\]$', t)
        if not m or m.group(1) not in self.dims:
            return None
        parts = split_top(m.group(2))
        cols = [x for x in parts if re.match(r'^\d+$', x)] if len(self.dims[m.group(1)]) > 1 else []
        return m.group(1) + (':%s' % cols[0] if cols else '')

    def on_load(self, ex, root, idxs, node, st): self.access(ex, root, idxs, node, st)

    def on_store(self, ex, root, idxs, val, aug, node, st): self.access(ex, root, idxs, node, st)

    def on_name(self, ex, name, val, aug, node, st):
        if val.view is not None and len(val.view[1]) == 1 and re.match(r'^\d+$', val.view[1][0]):
            self.flagpos.setdefault(val.view[0], {}).setdefault(int(val.view[1][0]), set()).add(name)


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '([{'
        d -= ch in ')]}'
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def fits(a, b):
    return a == b or (a, b) in SUB


# ---------------------------------------------------------------- provenance of what callers pass
MARK = [('alternative_codes', 'alts'), ("'var_co'", 'vco'), ('data_co', 'vco'), ("'var_ca'", 'vca'), ('data_ca_or_ce', 'vca'), ('_frame', 'params'), ('get_slot_x', 'params'),
        ('utility_co', 'uco'), ('utility_ca', 'uca'), ('quantity_ca', 'qca'), ('graph', 'nodes'), ('n_cases', 'case')]


class Prov:
    """where the values of local names of one function come from"""
    def __init__(self, f):
        self.f = f
        self.defs = {}
        self.fills = {}
        inner = {}
        for n in ast.walk(f.node):              # outer loops come first
            if isinstance(n, ast.For):
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign):
                        inner.setdefault(x, []).append(n)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                v = n.value
                for l in reversed(inner.get(n, [])):      # a loop variable means the loop it belongs to
                    if isinstance(v, ast.Name) and any(isinstance(x, ast.Name) and x.id == v.id for x in ast.walk(l.target)) and isinstance(n.targets[0], ast.Subscript):
                        v = ast.copy_location(ast.Subscript(l.iter, ast.Constant(0), ast.Load()), v)
                        break
                for t in n.targets:
                    self.bind(t, v)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name):
                    self.fills.setdefault(n.target.value.id, []).append(('aug', n.value))
            elif isinstance(n, ast.For):
                self.bind(n.target, n.iter)
            elif isinstance(n, ast.FunctionDef) and n is not f.node:
                for r in ast.walk(n):
                    if isinstance(r, ast.Return) and r.value is not None:
                        self.defs.setdefault(n.name, []).append(r.value)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    self.bind(x, v.elts[i])
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'enumerate' and len(t.elts) == 2:
                    if i == 1:
                        self.bind(x, v.args[0])
                    else:
                        self.defs.setdefault(x.id, []).append(v)
                else:
                    self.bind(x, ast.copy_location(ast.Subscript(v, ast.Constant(i), ast.Load()), v))
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            self.fills.setdefault(t.value.id, []).append(('set', v))

    def roles(self, n, seen=()):
        """dimension markers reachable from the object a value is looked up in"""
        txt = ast.unparse(n)
        out = set()
        if isinstance(n, ast.Constant):
            return out
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id not in seen:
                for d in self.defs.get(x.id, []):
                    out |= self.roles(d, seen + (x.id,))
                for _, d in self.fills.get(x.id, []):
                    out |= self.roles(d, seen + (x.id,))
        if not out or True:
            for k, v in MARK:
                if re.search(r'(?<![A-Za-z])%s(?![a-z])' % re.escape(k), txt):
                    out.add(v)
        return out

    def content(self, n, seen=()):
        """what kinds of number an expression may be: dimensions it is a position in, 'scale'; empty when unknown or constant"""
        if isinstance(n, ast.Constant) or isinstance(n, ast.UnaryOp) and isinstance(n.operand, ast.Constant):
            return set()
        if isinstance(n, ast.Attribute):
            return {'scale'} if n.attr == 'scale' else set()
        if isinstance(n, ast.Name):
            if n.id in seen:
                return set()
            return set().union(*[self.content(d, seen + (n.id,)) for d in self.defs.get(n.id, [])])
        if isinstance(n, ast.Lambda):
            return self.content(n.body, seen)
        if isinstance(n, ast.IfExp):
            return self.content(n.body, seen) | self.content(n.orelse, seen)
        base = None
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('get_loc', 'index', 'get', 'get_slot_x', 'get_indexer'):
                base = n.func
            elif isinstance(n.func, ast.Name) and n.func.id in self.defs and n.func.id not in seen:
                return set().union(*[self.content(d, seen + (n.func.id,)) for d in self.defs[n.func.id]])
            elif isinstance(n.func, ast.Name) and n.func.id in ('int', 'float') and n.args:
                return self.content(n.args[0], seen)
        elif isinstance(n, ast.Subscript):
            base = n.value
        if base is not None:
            return self.roles(base) - {'case'}
        return set()

    def array(self, name):
        """(dimension markers of the allocation, contents stored)"""
        dm, cs = set(), set()
        for d in self.defs.get(name, []):
            if isinstance(d, ast.Call):
                nm = d.func.attr if isinstance(d.func, ast.Attribute) else getattr(d.func, 'id', '')
                if nm in ('zeros', 'ones', 'empty', 'full'):
                    dm |= self.roles(d.args[0])
                    continue
            cs |= self.content(d)
        for k, v in self.fills.get(name, []):
            cs |= self.content(v)
        return dm, cs


def returned(f):
    """names in the tuple a function returns"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            return [x.id if isinstance(x, ast.Name) else None for x in n.value.elts]
    return None


def namedtuple_fields(m, name):
    if name in m.classes:
        return [s.target.id for s in m.classes[name].node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    v = m.consts.get(name)
    if isinstance(v, ast.Call) and len(v.args) == 2 and isinstance(v.args[1], (ast.List, ast.Tuple)):
        return [e.value for e in v.args[1].elts]
    if isinstance(v, ast.Call) and len(v.args) == 2 and isinstance(v.args[1], ast.Constant):
        return v.args[1].value.replace(',', ' ').split()
    raise AnalysisBroken('the fields of %s cannot be read' % name)


def norm(s):
    return re.sub(r'[^a-z]', '', s.lower())


def swapped(names, params):
    """positions where the name given is the name of another parameter, whose own position got a different name"""
    out = []
    np_ = [norm(p) for p in params]
    for i, n in enumerate(names[:len(params)]):
        if n is None or norm(n) == np_[i]:
            continue
        if norm(n) in np_:
            j = np_.index(norm(n))
            if j >= len(names) or names[j] is None or norm(names[j]) != norm(n):
                out.append((i, n, params[i]))
    return out


def termname(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Subscript):
        return termname(n.value)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('astype', 'to_numpy', 'copy', 'reshape'):
        return termname(n.func.value)
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('__addr__', '__cast__') and n.args:
        return termname(n.args[-1])
    if isinstance(n, ast.Call) and len(n.args) == 1:
        return termname(n.args[0])
    return None


def arg_terms(n):
    """all attribute and variable names an argument mentions"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.Name):
            out.add(x.id)
    return out


SYN = [('lower', ('minimum', 'lower', 'lower_bounds')), ('upper', ('maximum', 'upper', 'upper_bounds')), ('intensity', ('constraint_intensity', 'intensity')),
       ('sharpness', ('constraint_sharpness', 'sharpness')), ('param_array', ('pvals', 'value'))]


def check(ctx):
    prog = ctx.prog
    ctx.rule('arity', 'a used kernel declares one type letter and one shape per parameter', 4)
    ctx.rule('rank', 'the rank of the declared array type is the number of declared dimensions', 40)
    ctx.rule('subscript', 'no kernel subscripts an array beyond its declared dimensions, and a loop over one dimension indexes only that dimension', 30)
    ctx.rule('content', 'the entries of an index array are used as positions in one dimension only', 6)
    ctx.rule('argument', 'each argument array was filled with positions in the dimension, and has the length, that the kernel parameter at its place expects', 12)
    ctx.rule('outputs', 'each work array is allocated with a case dimension followed by the dimensions declared for the output at its place', 6)
    ctx.rule('inputs', 'each data array has the declared dimensions, with a leading case dimension exactly where the case slice is applied', 8)
    ctx.rule('flags', 'flags are packed in the order in which the kernel unpacks them', 4)
    ctx.rule('interchanged', 'no call to a compiled helper passes two of its arguments in each other\'s place', 20)

    ks = [k for k in kernels(prog) if used(prog, k)]
    if len(ks) < 2:
        raise AnalysisBroken('only %d used array kernels found' % len(ks))
    info = []
    doms = {}
    for k in ks:
        f = k.func
        ctx.seen(f)
        shapes = k.ins + k.outs
        for t in k.types:
            t = t.replace(' ', '')
            ok = len(t) == len(shapes) == len(f.params)
            ctx.ob('arity', '%s:%s' % (k.name, 'types'), ok, k.loc, '%d type letters, %d shapes and %d parameters' % (len(t), len(shapes), len(f.params)))
            if not ok:
                continue
            for c, s, p in zip(t, shapes, f.params):
                if c not in RANK:
                    raise AnalysisBroken('unknown type letter %r of %s' % (c, k.name))
                r, d = RANK[c], len(dims(s))
                isout = p in k.out_params
                ctx.ob('rank', '%s:%s' % (k.name, p), r == d or (d == 0 and r == 1), k.loc, 'parameter %s has type letter %r of rank %d but shape (%s)' % (p, c, r, s) + (' (output)' if isout else ''))
        ctx.ob('arity', '%s:outputs' % k.name, len(k.out_params) == len(k.outs), k.loc, 'outputs do not match')
        if len(shapes) != len(f.params):
            continue
        dom = DimDom(k)
        dom.alloc = {}
        ex = Exec(prog, dom)
        ex.run(f, {})
        for q in ex.funcs:
            ctx.seen(q)
        doms[k.name] = dom
        for root, got, have, loc, fn in dom.over:
            ctx.ob('subscript', '%s:%s:rank' % (fn, root), False, loc, '%s subscripts "%s" with %d indices, declared with %d dimensions' % (fn, root, got, have))
        for root, d, s, want, loc, fn in dom.direct:
            ctx.ob('subscript', '%s:%s:%d' % (fn, root.split('@')[0] or 'local', d), fits(s, want), loc, '%s indexes dimension (%s) of "%s" with a position running over (%s)' % (fn, want, root, s))
        for c, uses in sorted(dom.content.items()):
            syms = set(uses)
            top = [s for s in syms if all(fits(s, x) for x in syms)]
            loc = list(uses.values())[-1]
            ctx.ob('content', '%s:%s' % (k.name, c), bool(top), loc[0], 'entries of "%s" are used as positions in %s' % (c, ' and '.join('(%s) of "%s" at %s' % (s, u[2], u[0]) for s, u in sorted(uses.items()))))
        info.append(dict(kernel=k.name, signature=k.shapes, content={c: sorted(u) for c, u in dom.content.items()}))
    ctx.info['kernels'] = info
    master = [k for k in ks if k.name in doms and len(k.func.params) > 15]
    if len(master) != 1:
        raise AnalysisBroken('the likelihood kernel was not identified')
    k = master[0]
    callers(ctx, prog, k, doms[k.name])
    penalty(ctx, prog, ks)
    interchanged(ctx, prog)


def top_content(dom, c):
    u = dom.content.get(c)
    if not u:
        return None
    t = [s for s in u if all(fits(s, x) for x in u)]
    return t[0] if t else None


def callers(ctx, prog, k, dom):
    m = k.module
    params = k.func.params
    fixed = namedtuple_fields(m, 'FixedArrays')
    work = namedtuple_fields(m, 'WorkArrays')
    dam = prog.need_module('larch.numba.data_arrays')
    data = namedtuple_fields(dam, 'DataArrays')
    C = prog.cls('larch.numba.model', 'NumbaModel')
    # ---- order of the argument tuple
    order = None
    for f in C.functions():
        for r in ast.walk(f.node):
            if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and any(isinstance(e, ast.Starred) for e in r.value.elts) and any('_fixed_arrays' in ast.unparse(e) for e in r.value.elts):
                order, of = r.value.elts, f
    if order is None:
        raise AnalysisBroken('the argument tuple of the likelihood kernel was not found')
    pos = {}
    i = 0
    pv = Prov(of)

    def origin(e):
        while isinstance(e, ast.Name) and len(pv.defs.get(e.id, [])) == 1:
            e = pv.defs[e.id][0]
        return e
    for e in order:
        t = ast.unparse(origin(e.value if isinstance(e, ast.Starred) else e))
        if isinstance(e, ast.Starred):
            which = fixed if '_fixed_arrays' in t else data if '_data_arrays' in t else None
            if which is None:
                raise AnalysisBroken('unrecognised part of the argument tuple: %s' % t)
            for x in which:
                pos[('fixed' if which is fixed else 'data', x)] = i
                i += 1
        else:
            role = 'holdfast' if 'holdfast' in t else 'value' if 'pvals' in t or 'value' in t else t
            pos[('one', role)] = i
            i += 1
    nflag = len(k.ins) - i
    ctx.ob('argument', 'argument tuple:length', nflag == 1, of.loc(order[0]), 'the tuple supplies %d arguments before the flags, the kernel takes %d inputs' % (i, len(k.ins)))
    if nflag != 1:
        return
    # holdfast is the array tested before derivatives, the values are the array slots are looked up in and multiplied
    hold, val = pos.get(('one', 'holdfast')), pos.get(('one', 'value'))
    lp = [i for i, p in enumerate(params[:len(k.ins)]) if dims(k.ins[i]) == ['params']]
    flagonly = {p for p in (params[i] for i in lp) if only_tested(prog, k, p)}
    if hold is None or val is None:
        raise AnalysisBroken('parameter values or held flags not found in the argument tuple')
    ctx.ob('argument', 'argument tuple:holdfast', params[hold] in flagonly, of.loc(order[0]), 'the held flags are passed as "%s", which the kernel uses as numbers' % params[hold])
    ctx.ob('argument', 'argument tuple:values', val in lp and params[val] not in flagonly, of.loc(order[0]), 'the parameter values are passed as "%s"' % params[val])
    # ---- fixed arrays
    made = 0
    for f in C.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'FixedArrays':
                made += 1
                fixed_args(ctx, prog, k, dom, f, n, fixed, pos)
    if not made:
        raise AnalysisBroken('no construction of the fixed arrays found')
    # ---- names of fields and parameters
    names = [None] * len(k.ins)
    for (kind, x), i in pos.items():
        names[i] = x
    for i, x in enumerate(names):
        if x is None:
            continue
        # ends with the name of a field that belongs elsewhere
        mine = norm(params[i]).endswith(norm(x))
        other = [y for y in data if y != x and norm(params[i]).endswith(norm(y)) and len(norm(y)) >= len(norm(x))] if x in data else []
        ctx.ob('inputs', 'position:%s' % x, mine or not other, k.loc, 'data array "%s" is passed as kernel parameter "%s"' % (x, params[i]))
    # ---- data arrays
    ranks = {}
    for mm in prog.all_modules():
        for f in mm.all_funcs():
            if f.module is dam:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'DataArrays':
                    ctx.seen(f)
                    dv = Prov(f)
                    args = dict(zip(data, n.args))
                    args.update({q.arg: q.value for q in n.keywords})
                    ctx.ob('inputs', '%s:fields' % f.name, len(args) == len(data), f.loc(n), 'DataArrays built with %d of %d arrays' % (len(args), len(data)))
                    nm = [termname(a) for a in n.args]
                    for (j, a, p) in swapped(nm, data):
                        ctx.ob('inputs', '%s:%s' % (f.name, p), False, f.loc(n), '"%s" is put in field "%s"' % (a, p))
                    for x, a in args.items():
                        r = alloc_ranks(dv, a)
                        core = len(dims(k.ins[pos[('data', x)]]))
                        for rk, loc in r:
                            ctx.ob('inputs', '%s:%s:rank' % (f.name, x), rk in (core, core + 1), f.loc(loc), 'array "%s" has %d dimensions, the kernel expects %d (plus cases)' % (x, rk, core))
                            ranks.setdefault(x, set()).add(rk - core)
    cs = case_sliced(dam, data)
    for x in data:
        if ranks.get(x) and cs is not None:
            batched = 1 in ranks[x]
            ctx.ob('inputs', 'slice:%s' % x, (x in cs) == batched, dam.rel, 'array "%s" %s a case dimension but is %sselected by case' % (x, 'has' if batched else 'has not', '' if x in cs else 'not '))
    # ---- work arrays
    outs = k.outs
    ctx.ob('outputs', 'number', len(work) == len(outs), k.loc, '%d work arrays for %d outputs' % (len(work), len(outs)))
    for (j, a, p) in swapped(work, k.out_params):
        ctx.ob('outputs', 'order:%s' % a, False, k.loc, 'work array "%s" is passed as output "%s"' % (a, p))
    nw = 0
    for f in C.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'WorkArrays' and not any(isinstance(a, ast.Starred) for a in n.args):
                wv = Prov(f)
                args = dict(zip(work, n.args))
                args.update({q.arg: q.value for q in n.keywords})
                for x, s in zip(work, outs):
                    a = args.get(x)
                    if a is None:
                        continue
                    while isinstance(a, ast.Name) and len(wv.defs.get(a.id, [])) == 1:
                        a = wv.defs[a.id][0]
                    if not (isinstance(a, ast.Call) and a.args):
                        continue
                    sh = a.args[0]
                    while isinstance(sh, ast.Name) and len(wv.defs.get(sh.id, [])) == 1:
                        sh = wv.defs[sh.id][0]
                    if not isinstance(sh, (ast.List, ast.Tuple)):
                        continue
                    nw += 1
                    got = []
                    for e in sh.elts:
                        r = wv.roles(e)
                        got.append(r.pop() if len(r) == 1 else '?' + ast.unparse(e))
                    want = ['case'] + dims(s)
                    ctx.ob('outputs', '%s:%s' % (f.name, x), len(got) == len(want) and all(a == b or a.startswith('?') for a, b in zip(got, want)), f.loc(n),
                           'work array "%s" has dimensions %s, the output declares %s' % (x, got, want))
    if nw < len(outs):
        raise AnalysisBroken('the allocation of the work arrays was not understood')
    # ---- flags
    fp = dom.flagpos.get(params[len(k.ins) - 1], {})
    if not fp:
        raise AnalysisBroken('the kernel flags were not found')
    nflags = 0
    for f in C.functions():
        if not any(isinstance(n, ast.Name) and n.id == k.name for n in ast.walk(f.node)):
            continue
        for a in ast.walk(f.node):
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ('asarray', 'array') and a.args and isinstance(a.args[0], (ast.List, ast.Tuple)) and 'int8' in ast.unparse(a):
                els = a.args[0].elts
                nflags += 1
                ctx.ob('flags', '%s:number' % f.name, len(els) == max(fp) + 1, f.loc(a), '%d flags packed, the kernel reads %d' % (len(els), max(fp) + 1))
                for i, e in enumerate(els):
                    nm = termname(e)
                    if nm is None or i not in fp:
                        continue
                    mine = any(alike(nm, x) for x in fp[i])
                    other = [j for j in fp if j != i and any(alike(nm, x) for x in fp[j])]
                    ctx.ob('flags', '%s:%s' % (f.name, nm), mine or not other, f.loc(a), 'flag "%s" is packed at place %d, which the kernel reads as %s' % (nm, i, sorted(fp[i])))
    if not nflags:
        raise AnalysisBroken('no packing of the kernel flags found')


def alike(a, b):
    a, b = norm(a), norm(b)
    return a == b or a.startswith(b) or b.startswith(a)


def only_tested(prog, k, p):
    """is the array parameter used only in conditions, through the helpers it is handed to"""
    seen = set()

    def go(f, p):
        if (f.qual, p) in seen:
            return True
        seen.add((f.qual, p))
        par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        names = {p}
        used_ = False
        alias = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == p:
                names.add(n.targets[0].id)
                alias[n.value] = True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
                x = n
                if isinstance(par.get(x), ast.Subscript) and par[x].value is x:
                    x = par[x]
                if x in alias:
                    continue
                y = par.get(x)
                if isinstance(y, ast.Call) and x in y.args:
                    g = prog.resolve(f.module, y.func.id) if isinstance(y.func, ast.Name) else None
                    if isinstance(g, Func):
                        if not go(g, g.params[y.args.index(x)]):
                            return False
                        continue
                    return False
                if isinstance(y, (ast.UnaryOp, ast.BoolOp, ast.If, ast.IfExp, ast.While, ast.Compare)):
                    continue
                return False
        return True
    return go(k.func, p)


def fixed_args(ctx, prog, k, dom, f, call, fixed, pos):
    ctx.seen(f)
    pv = Prov(f)
    args = dict(zip(fixed, call.args))
    args.update({q.arg: q.value for q in call.keywords})
    ctx.ob('argument', '%s:number' % f.name, len(args) == len(fixed), f.loc(call), '%d of %d fixed arrays given' % (len(args), len(fixed)))
    known = 0
    for x in fixed:
        a = args.get(x)
        if a is None:
            continue
        i = pos[('fixed', x)]
        p = k.func.params[i]
        want_dim = dims(k.ins[i])
        got = produced(prog, f, pv, a)
        if got is None:
            continue
        dm, cs = got
        known += 1
        want = top_content(dom, p)
        if len(want_dim) == 2:
            columns(ctx, prog, k, dom, f, pv, a, p)
            continue
        if cs:
            if cs == {'scale'} or want is None:
                ctx.ob('argument', '%s:%s' % (f.name, x), (cs == {'scale'}) == (want is None) or cs == {'count'}, f.loc(call),
                       'kernel parameter "%s" %s, but the array given holds %s' % (p, 'is used as a factor' if want is None else 'is used as a position in (%s)' % want, sorted(cs)))
            else:
                ctx.ob('argument', '%s:%s' % (f.name, x), any(fits(c, want) or fits(want, c) for c in cs) and len(cs) == 1, f.loc(call),
                       'kernel parameter "%s" is used as a position in (%s), but the array given holds positions in %s' % (p, want, sorted(cs)))
        if len(dm) == 1 and len(want_dim) == 1 and list(dm)[0] in ('qca', 'uca', 'uco') and want_dim[0] in ('qca', 'uca', 'uco'):
            ctx.ob('argument', '%s:%s:length' % (f.name, x), want_dim[0] in dm, f.loc(call), 'kernel parameter "%s" runs over (%s), the array given over %s' % (p, want_dim[0], sorted(dm)))
    if known < 8:
        raise AnalysisBroken('the provenance of only %d of the fixed arrays was understood' % known)


def produced(prog, f, pv, a, depth=0):
    """(dimensions, contents) of an argument array"""
    if depth > 6:
        return None
    if isinstance(a, ast.Name):
        ds = pv.defs.get(a.id, [])
        if len(ds) == 1:
            return produced(prog, f, pv, ds[0], depth + 1)
        if ds:
            return pv.array(a.id)
        return None
    if isinstance(a, ast.Subscript):
        if isinstance(a.slice, ast.Slice):
            return produced(prog, f, pv, a.value, depth + 1)
        v = a.value
        if isinstance(v, ast.Name) and len(pv.defs.get(v.id, [])) == 1:
            v = pv.defs[v.id][0]
        if isinstance(v, ast.Call) and isinstance(a.slice, ast.Constant):
            g = callee(prog, f, v)
            if g is not None:
                rn = returned(g)
                if rn and a.slice.value < len(rn) and rn[a.slice.value]:
                    gp = Prov(g)
                    nm = rn[a.slice.value]
                    ds = gp.defs.get(nm, [])
                    dm, cs = gp.array(nm)
                    if not cs:
                        cs = counters(gp, g, nm)
                    return dm, cs
        return None
    if isinstance(a, ast.Attribute) and a.attr == 'T':
        return (set(), set())
    if isinstance(a, ast.Call):
        return (set(), set())
    return None


def counters(gp, g, nm):
    """arrays filled with an edge counter, or counting"""
    out = set()
    for kind, v in gp.fills.get(nm, []):
        if kind == 'aug':
            out.add('count')
        elif isinstance(v, ast.Name) and any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v.id for n in ast.walk(g.node)):
            out.add('edges')
    return out


def callee(prog, f, call):
    if isinstance(call.func, ast.Name):
        g = prog.resolve(f.module, call.func.id)
        return g if isinstance(g, Func) else None
    if isinstance(call.func, ast.Attribute):
        c = [g for c in prog.need_module('larch.model.tree').classes.values() for g in c.methods.values() if g.name == call.func.attr]
        return c[0] if len(c) == 1 else None
    return None


def columns(ctx, prog, k, dom, f, pv, a, p):
    """a two dimensional array stacked from a tuple of arrays"""
    call = None
    while isinstance(a, ast.Name) and len(pv.defs.get(a.id, [])) == 1:
        a = pv.defs[a.id][0]
    for x in ast.walk(a):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and callee(prog, f, x) is not None:
            call = x
    if call is None:
        return
    g = callee(prog, f, call)
    ctx.seen(g)
    rn = returned(g)
    if not rn:
        return
    gp = Prov(g)
    up = [i for i, nm in enumerate(rn) if nm and any('slot_map' in ast.unparse(d) for kind, v in gp.fills.get(nm, []) for d in ([v] + (gp.defs.get(v.id, []) if isinstance(v, ast.Name) else [])))]
    dn = [i for i, nm in enumerate(rn) if nm and any('successor_slots' in ast.unparse(d) for kind, v in gp.fills.get(nm, []) for d in ([v] + (gp.defs.get(v.id, []) if isinstance(v, ast.Name) else [])))]
    if len(up) != 1 or len(dn) != 1:
        return
    cu = [c for c, g_ in dom.guarded.items() if c.startswith(p + ':') and False in g_]
    ci = [c for c in dom.content if c.startswith(p + ':')]
    ctx.ob('argument', '%s:%s:up' % (f.name, p), cu == ['%s:%d' % (p, up[0])], f.loc(call), 'column %d holds the upper node of each edge, the kernel reads it from %s' % (up[0], cu))
    ctx.ob('argument', '%s:%s:down' % (f.name, p), set(ci) <= {'%s:%d' % (p, up[0]), '%s:%d' % (p, dn[0])} and '%s:%d' % (p, dn[0]) in ci, f.loc(call),
           'column %d holds the lower node of each edge, the kernel uses %s as node positions' % (dn[0], ci))


def alloc_ranks(pv, a, depth=0):
    """ranks of the plain allocations a value may come from"""
    out = []
    if depth > 5:
        return out
    if isinstance(a, ast.Name):
        for d in pv.defs.get(a.id, []):
            out += alloc_ranks(pv, d, depth + 1)
    elif isinstance(a, ast.IfExp):
        out += alloc_ranks(pv, a.body, depth + 1) + alloc_ranks(pv, a.orelse, depth + 1)
    elif isinstance(a, ast.Call):
        nm = a.func.attr if isinstance(a.func, ast.Attribute) else getattr(a.func, 'id', '')
        if nm in ('zeros', 'ones', 'empty', 'full') and a.args:
            sh = a.args[0]
            if isinstance(sh, (ast.List, ast.Tuple)) and not any(isinstance(e, ast.Starred) for e in sh.elts):
                out.append((len(sh.elts), a))
            elif 'n_cases' in ast.unparse(sh) and not ast.unparse(sh).endswith('shape'):
                out.append((1, a))
        elif nm == 'sliding_window_view':
            out.append((2, a))
        elif nm == 'reshape' and len(a.args) == 1 and isinstance(a.args[0], (ast.Constant, ast.UnaryOp)):
            out.append((1, a))
        elif nm == 'astype' and isinstance(a.func, ast.Attribute):
            out += alloc_ranks(pv, a.func.value, depth + 1)
    return out


def case_sliced(dam, data):
    """fields the case slice of DataArrays selects from: the test evaluated for each field name"""
    for c in dam.classes.values():
        g = c.methods.get('__getitem__')
        if g is None:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, (ast.If, ast.IfExp)):
                vs = [x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and x.id not in ('len', 'attribute')]
                loopvars = {t.id for x in ast.walk(g.node) if isinstance(x, (ast.For, ast.comprehension)) for t in ast.walk(x.target) if isinstance(t, ast.Name)}
                lv = [v for v in vs if v in loopvars]
                if not lv:
                    continue
                body = n.body if isinstance(n.body, list) else [n.body]
                hit = any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id in g.params for b in body for x in ast.walk(b))
                out = set()
                for d in data:
                    v = fold(n.test, {lv[0]: d})
                    if v is None:
                        return None
                    if bool(v) == hit:
                        out.add(d)
                return out
    return None


def fold(n, env):
    """a test over a field name, with every test against None taken as 'present'"""
    if isinstance(n, ast.BoolOp):
        vs = [fold(x, env) for x in n.values]
        if None in vs:
            return None
        return all(vs) if isinstance(n.op, ast.And) else any(vs)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        v = fold(n.operand, env)
        return None if v is None else not v
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, r, op = n.left, n.comparators[0], n.ops[0]
        if isinstance(r, ast.Constant) and r.value is None:
            return isinstance(op, ast.IsNot)
        a, b = cval(l, env), cval(r, env)
        if a is NotImplemented or b is NotImplemented:
            return None
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}.get(type(op), lambda: None)()
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('startswith', 'endswith') and n.args:
        a, b = cval(n.func.value, env), cval(n.args[0], env)
        if NotImplemented in (a, b):
            return None
        return getattr(a, n.func.attr)(b)
    return None


def cval(n, env):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        return env.get(n.id, NotImplemented)
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'len' and n.args:
        a = cval(n.args[0], env)
        return NotImplemented if a is NotImplemented else len(a)
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        vs = [cval(e, env) for e in n.elts]
        return NotImplemented if NotImplemented in vs else tuple(vs)
    return NotImplemented


def penalty(ctx, prog, ks):
    """calls of the smaller kernels: arguments recognised by the quantity they are taken from"""
    small = {k.name: k for k in ks}
    n_ = 0
    for m in prog.all_modules():
        for f in m.all_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in small and not any(isinstance(a, ast.Starred) for a in n.args):
                    k = small[n.func.id]
                    n_ += 1
                    ctx.seen(f)
                    ctx.ob('argument', '%s:%s:number' % (f.name, k.name), len(n.args) in (len(k.ins), len(k.func.params)), f.loc(n), '%s takes %d arrays, %d given' % (k.name, len(k.ins), len(n.args)))
                    pv = Prov(f)
                    for i, a in enumerate(n.args[:len(k.ins)]):
                        while isinstance(a, ast.Name) and len(pv.defs.get(a.id, [])) == 1:
                            a = pv.defs[a.id][0]
                        terms = arg_terms(a)
                        got = [r for r, ns in SYN if terms & set(ns)]
                        want = [r for r, ns in SYN if r in k.func.params[i]]
                        if len(got) == 1 and want:
                            ctx.ob('argument', '%s:%s:%s' % (f.name, k.name, k.func.params[i]), got == want, f.loc(n), '%s is given as "%s" of %s' % (ast.unparse(a), k.func.params[i], k.name))
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in small:
                    k = small[s.value.func.id]
                    names = [termname(e) for e in s.targets[0].elts]
                    bad = swapped(names, k.out_params)
                    ctx.ob('argument', '%s:%s:results' % (f.name, k.name), len(names) == len(k.outs) and not bad, f.loc(s), 'results of %s are unpacked as %s but are %s' % (k.name, names, k.out_params))
    if not n_:
        raise AnalysisBroken('no plain call of an array kernel found')


def interchanged(ctx, prog):
    """calls among compiled functions (jitted or native): an argument named like another parameter of the callee"""
    for m in prog.all_modules():
        comp = m.path.endswith('.pyx') or '.numba.' in m.name + '.'
        if not comp:
            continue
        for f in m.all_funcs():
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                g, off = None, 0
                if isinstance(n.func, ast.Name):
                    r = prog.resolve(m, n.func.id)
                    g = r if isinstance(r, Func) else None
                elif isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls is not None:
                        g = prog.lookup(f.cls, n.func.attr)
                        off = 1 if g is not None and g.kind == 'method' else 0
                    elif isinstance(n.func.value, ast.Name):
                        cands = [c.methods[n.func.attr] for mm in prog.all_modules() if mm.path.endswith('.pyx') for c in mm.classes.values() if n.func.attr in c.methods]
                        g = cands[0] if len(cands) == 1 and cands[0].kind == 'method' else None
                        off = 1
                if g is None or any(isinstance(a, ast.Starred) for a in n.args) or len(n.args) < 2:
                    continue
                params = g.params[off:]
                names = [termname(a) for a in n.args]
                bad = swapped(names, params)
                # only complete exchanges are certain
                pairs = [(i, nm, p) for i, nm, p in bad if any(norm(nm2) == norm(p) for _, nm2, _ in bad)]
                ctx.seen(f)
                ctx.ob('interchanged', '%s->%s' % (f.qual, g.name), not pairs, f.loc(n), '%s: %s' % (g.qual, ', '.join('"%s" is passed as "%s"' % (nm, p) for i, nm, p in pairs)))
