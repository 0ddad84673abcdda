"""P08: buffers are sized for the way they are indexed."""
import re

from ..engines import ENGINES, flags, configs, run_engine
from ..program import AnalysisBroken
from .p06 import injective, named_roots, TID

TECHNIQUE = ('abstract interpretation of the multithreaded engines under every enumerated persist-flag configuration, with symbolic allocation shapes: '
             'the first index of every access is matched with the allocated first dimension (case range / thread team), inner indices with inner dimensions, and returned buffers with their indexing')
NOTE = ('persist flags are enumerated (none, each, all but one, all; thorough adds every pair) x gradient x BHHH x probability-only; inner indices whose bound is not one of the known sizes '
        '(alternatives, nodes, edges, parameters) are not decided; the case range is taken to lie inside the data')
EXPLAIN = ('A buffer addressed by the position of the case in the selected range must have ceil((stop-start)/step) rows, one addressed by the case number n_cases rows, one addressed by the '
           'thread number as many rows as the thread team; the size and the index must be chosen by the same persist flag.  A buffer handed to the caller without being summed must be one that is addressed by case.')
ASSUME = ['slot tables of the tree hold node numbers below n_nodes, slot tables of the data frames hold parameter numbers below the number of parameters (P05 covers their construction)']


def strip(t):
    """drop the join marks: phi(x) -> x"""
    while True:
        u = re.sub(r'phi\(([\w.]+(?:\(\))?)\)', r'\1', t)
        if u == t:
            return u
        t = u


def ceil_forms(pr):
    lo, hi, stp = (strip(x) for x in pr)
    span = hi if lo == '0' else '(%s - %s)' % (hi, lo)
    out = set()
    for d in ('//', '/'):
        q, r = '(%s %s %s)' % (span, d, stp), '(%s %% %s)' % (span, stp)
        out |= {'(%s + ite(%s,1,0))' % (q, r), '(ite(%s,1,0) + %s)' % (r, q), '(%s + ite((%s != 0),1,0))' % (q, r), '(%s + ite((%s > 0),1,0))' % (q, r),
                '(%s + ite((0 < %s),1,0))' % (q, r), '(%s + ite((0 == %s),0,1))' % (q, r), '(%s + ite((%s == 0),0,1))' % (q, r)}
        for num in ('((%s + %s) - 1)' % (span, stp), '((%s + %s) - 1)' % (stp, span), '(%s + (%s - 1))' % (span, stp), '((%s - 1) + %s)' % (stp, span), '((%s - 1) + %s)' % (span, stp)):
            out.add('(%s %s %s)' % (num, d, stp))
        out.add('(1 + ((%s - 1) %s %s))' % (span, d, stp))
        out.add('(((%s - 1) %s %s) + 1)' % (span, d, stp))
        out.add('-((-%s) %s %s)' % (span, d, stp))
        out.add('-(-%s %s %s)' % (span, d, stp))
    out.add('len(range(%s, %s, %s))' % (lo, hi, stp))
    return out


# what a number read from a slot table counts
TABLE = {'edge_up': 'nodes', 'edge_dn': 'nodes', 'model_mu_param_slots': 'params', 'model_utility_co_alt': 'alts',
         'model_utility_ca_param': 'params', 'model_utility_co_param': 'params', 'model_quantity_ca_param': 'params', 'model_quantity_scale_param': 'params'}
SIZES = {'n_nodes': 'nodes', 'n_edges': 'edges', '_n_model_params': 'params', '_n_alts()': 'alts', 'n_alts': 'alts', 'n_elementals': 'alts', 'n_params': 'params'}
FITS = {('alts', 'nodes')}


def size_kind(t):
    t = strip(t)
    m = re.match(r'^[\w.]+\.([\w()]+)$', t)
    if m:
        return SIZES.get(m.group(1))
    return SIZES.get(t)


def base_root(t):
    m = re.match(r'^(@?[\w:.@/]+)', t)
    return m.group(1) if m else t


def bound_kind(idx, dom):
    """kind of the size that bounds this index from above, or None"""
    t = strip(idx)
    m = re.match(r'^([\w.()@:/]+?)\[.*\]$', t)
    if m:
        return TABLE.get(m.group(1).rsplit('.', 1)[-1])
    m = re.match(r'^[\w.]+\.(\w+)$', t)
    if m and m.group(1) in TABLE:
        return TABLE[m.group(1)]
    m = re.match(r'^idx\{(.*)\}$', t)
    if m:
        hi = split_top(m.group(1))
        if hi is None:
            return None
        k = size_kind(hi)
        if k:
            return k
        m2 = re.match(r'^\((.*) - \d+\)$', hi)
        if m2:
            return size_kind(m2.group(1))
        m2 = re.match(r'^(@.*?)((?:\[.*\])?)\.shape\[(\d)\]$', hi)
        if m2:
            al = dom.allocs.get(m2.group(1))
            taken = depth_count(m2.group(2))
            k = int(m2.group(3)) + taken
            return size_kind(al[0][k]) if al is not None and k < len(al[0]) else None
        if re.match(r'.*_array_ch\.shape\[1\]$', hi):
            return 'alts'                  # checked by the engine: alternatives, or nodes
        return None
    m = re.match(r'^\(\(([\w.]+) - idx\{0:\1\}\) - 1\)$', t) or re.match(r'^\(\(([\w.]+) - 1\) - idx\{0:\1\}\)$', t) or re.match(r'^\(([\w.]+) - 1\)$', t)
    if m:
        return size_kind(m.group(1))
    return None


def split_top(s):
    d = 0
    for i, ch in enumerate(s):
        d += ch in '([{'
        d -= ch in ')]}'
        if ch == ':' and d == 0 and not (i and s[:i].startswith('@')):
            return s[i + 1:]
    return None


def depth_count(t):
    n, d = 0, 0
    for ch in t:
        if ch == '[':
            n += d == 0
            d += 1
        elif ch == ']':
            d -= 1
        elif ch == ',' and d == 1:
            n += 1
    return n


def first_kind(i, pr):
    t = strip(i)
    if t == 'CASE':
        return 'case number'
    if TID.match(t):
        return 'thread'
    if 'CASE' in t and injective(i, pr):
        return 'case position'
    return None


def check(ctx):
    prog = ctx.prog
    ctx.rule('first-dimension', 'the allocated first dimension matches the first index (case position, case number, thread)', 200)
    ctx.rule('inner-dimension', 'inner indices stay inside the inner dimensions (alternatives, nodes, edges, parameters)', 200)
    ctx.rule('returned-by-case', 'a buffer returned without summation is addressed by case', 20)
    fl = flags(prog)
    for mod, fn in ENGINES:
        for persist in configs(fl, ctx.thorough):
            for dll, bhhh, po in ((True, True, False), (False, False, False), (False, False, True)):
                f, ex, dom, ret = run_engine(prog, mod, fn, fl, persist, dll, bhhh, po, weighted=None)
                for q in ex.funcs:
                    ctx.seen(q)
                judge(ctx, f, dom, ret, 'persist=%#x, gradient=%s, probability_only=%s' % (persist, dll, po))


def judge(ctx, f, dom, ret, label):
    names = named_roots(f, dom)
    pr = list(dom.prange_args.values())[-1]
    ceil = ceil_forms(pr)
    team = strip(dom.team or 'num_threads')
    bycase = {}
    for (kind, root, idxs, val, aug, par, loc), fn in sorted(dom.events.items(), key=repr):
        al = dom.allocs.get(root)
        if al is None or al[3] or not par or not idxs:
            continue
        nm = names.get(root, root)
        shape = al[0]
        k0 = first_kind(idxs[0], pr)
        if k0 and shape:
            s0 = strip(shape[0])
            if k0 == 'thread':
                ok, want = s0 == team, 'the number of threads'
            elif k0 == 'case number':
                ok, want = s0.endswith('_n_cases()') or s0.endswith('n_cases'), 'the number of cases'
            else:
                ok, want = s0 in ceil, 'ceil((stop - start) / step)'
            ctx.ob('first-dimension', '%s:%s' % (f.name, nm), ok, al[2],
                   '%s [%s]: %s is addressed by %s but has %s rows (expected %s)' % (f.name, label, nm, k0, s0, want))
            bycase.setdefault(root, set()).add(k0)
        for d, i in enumerate(idxs[1:], 1):
            if d >= len(shape):
                ctx.ob('inner-dimension', '%s:%s' % (f.name, nm), False, loc, '%s: %s has %d dimensions but is addressed with %d' % (f.name, nm, len(shape), len(idxs)))
                break
            if i == ':':
                continue
            a, b = bound_kind(i, dom), size_kind(shape[d])
            if a is None or b is None:
                continue
            ctx.ob('inner-dimension', '%s:%s#%d' % (f.name, nm, d), a == b or (a, b) in FITS, loc,
                   '%s [%s]: dimension %d of %s has one entry per %s but is addressed by %s' % (f.name, label, d, nm, b, a))
    for st in ret:
        st = st[0] if isinstance(st, tuple) else st
        for k, v in st.heap.items():
            if not k.startswith('rec@'):
                continue
            fld = k.rsplit('.', 1)[-1]
            for root in re.findall(r'@[\w:]+', v.text):
                if root not in dom.allocs or re.search(re.escape(root) + r'(\.base)?\.(sum|mean)\(', v.text):
                    continue
                kinds = bycase.get(root, set())
                ctx.ob('returned-by-case', '%s:%s' % (f.name, fld), not kinds or 'thread' not in kinds, f.loc(f.node),
                       '%s [%s]: the result "%s" hands out %s, which holds one entry per thread in this configuration' % (f.name, label, fld, names.get(root, root)))
