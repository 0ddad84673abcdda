"""P06: iterations of the parallel case loops touch disjoint memory."""
import ast
import re

from ..engines import ENGINES, EngDomain, flags, configs, run_engine, is_prange
from ..kern import Exec, K, St
from ..program import AnalysisBroken

TECHNIQUE = ('abstract interpretation of every parallel loop (Cython engines under every persist-flag configuration, numba loops, dbf reader) with symbolic array regions: '
             'effect analysis of each iteration, index-injectivity and privatisation obligations')
NOTE = ('the engines are interpreted with persist flags enumerated (none, each, all but one, all) x gradient x BHHH x probability-only; the native exp/log library calls are taken to be pure; '
        'guarantees about the OpenMP runtime itself and about two evaluations started concurrently by the caller are outside')
EXPLAIN = ('Every array region stored inside a parallel loop must be reached, by every access in that loop, through one and the same first index, which is injective in the loop variable '
           '(the case, or its position in the selected range) or is the thread number; scalars assigned in the loop must be assigned before they are read in the same iteration; '
           'accumulated scalars may only be reductions; attributes of shared objects may only receive constants.')
ASSUME = ['OpenMP executes each iteration on one thread and joins before the code after the parallel block', 'distinct allocations do not overlap', 'Cython turns in-place scalar updates in prange into reductions (it rejects reading them inside the loop)']

TID = re.compile(r'^(cython\.parallel\.|openmp\.)?(threadid|omp_get_thread_num)\(\)$')


def injective(idx, pr):
    """is the index text injective in CASE over the range pr=(start, stop, step)"""
    if idx == 'CASE':
        return True
    lo, hi, stp = pr
    forms = {'((CASE - %s) // %s)' % (lo, stp), '((CASE - %s) / %s)' % (lo, stp)}
    if lo == '0':
        forms |= {'(CASE // %s)' % stp, '(CASE / %s)' % stp}
    if idx in forms:
        return True
    m = re.match(r'^\((CASE|[^()]+) ([+-]) (CASE|[^()]+)\)$', idx)
    if m and (m.group(1) == 'CASE') != (m.group(3) == 'CASE'):
        other = m.group(3) if m.group(1) == 'CASE' else m.group(1)
        return invariant(other)
    m = re.match(r'^\((.*) ([+-]) ([^()]+)\)$', idx)
    if m and invariant(m.group(3)) and 'CASE' in m.group(1):
        return injective(m.group(1), pr)
    return False


def invariant(t):
    return 'CASE' not in t and 'idx{' not in t and 'phi(' not in t and 'stale:' not in t and 'thread' not in t


def private(idx, pr):
    return bool(TID.match(idx)) or injective(idx, pr)


def judge(ctx, tag, dom, label):
    """obligations for one interpreted run"""
    if not dom.prange_args:
        raise AnalysisBroken('no parallel loop met in %s' % tag)
    prs = list(dom.prange_args.values())
    pr = prs[-1]
    acc, stored = {}, {}
    for (kind, root, idxs, val, aug, par, loc), fn in dom.events.items():
        if not par:
            continue
        acc.setdefault(root, {}).setdefault(idxs[0] if idxs else '', loc)
        if kind == 'store':
            stored.setdefault(root, []).append((idxs, aug, loc, fn))
    n = 0
    for root, ss in sorted(stored.items()):
        al = dom.allocs.get(root)
        if al is not None and al[3]:
            continue                       # allocated inside the iteration
        if root.startswith('stale:'):
            continue                       # reported as a private scalar / pointer
        short = short_root(root, dom)
        firsts = acc[root]
        for i, loc in sorted(firsts.items()):
            ok = private(i, pr)
            n += 1
            ctx.ob('private-index', '%s:%s' % (tag, short), ok, loc,
                   '%s [%s]: a parallel iteration touches %s through index "%s", which another iteration may use too (and the loop writes it)' % (tag, label, short, i or '(whole array)'))
        ctx.ob('one-index', '%s:%s' % (tag, short), len(firsts) == 1, ss[0][2],
               '%s [%s]: iterations address %s through different indices (%s), so one case may read or write the slot of another' % (tag, label, short, ', '.join(sorted(firsts))))
    for (b, a, loc, par), vals in sorted(dom.attr_stores.items()):
        if par:
            n += 1
            ctx.ob('no-shared-attribute', '%s:%s.%s' % (tag, b, a), all(v.const is not None and repr(v.const) != 'NC' or v.const is None for v in vals), loc,
                   '%s [%s]: a parallel iteration stores %s.%s' % (tag, label, b, a))
    for (fn, name), loc in sorted(dom.stale.items()):
        ctx.ob('assigned-before-read', '%s:%s' % (tag, name), False, loc,
               '%s [%s]: %s is assigned in the parallel loop but may be read before the iteration assigns it (the value of another case would be used)' % (tag, label, name))
    ctx.ob('assigned-before-read', tag + ':scalars', not dom.stale, '', 'private scalars of %s read before they are assigned' % tag)
    return n


def short_root(root, dom):
    if root in dom.names:
        return dom.names[root]
    if root.startswith('@'):
        return 'local array of ' + root.split('/')[-1].split(':')[0].lstrip('@')
    return root


def named_roots(f, dom):
    """allocation root -> local variable name (for stable construct names)"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            out['@%s:%d:%d' % (f.name, n.value.lineno, n.value.col_offset)] = n.targets[0].id
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule('private-index', 'every array a parallel loop writes is addressed through an index private to the iteration or the thread', 200)
    ctx.rule('one-index', 'all accesses of a written array in the loop use the same private index', 100)
    ctx.rule('assigned-before-read', 'scalars assigned in the loop are assigned before they are read in every iteration', 10)
    ctx.rule('no-shared-attribute', 'attributes of shared objects receive only constants in the loop', 0)
    ctx.rule('reduction-only', 'scalars shared by the iterations are only accumulated', 0)
    fl = flags(prog)
    done = set()
    for mod, fn in ENGINES:
        for persist in configs(fl, ctx.thorough):
            for dll, bhhh, po in ((True, True, False), (True, False, False), (False, False, False), (False, False, True)):
                f, ex, dom, ret = run_engine(prog, mod, fn, fl, persist, dll, bhhh, po, weighted=None)
                dom.names = named_roots(f, dom)
                judge(ctx, f.name, dom, 'persist=%#x, gradient=%s, bhhh=%s, probability_only=%s' % (persist, dll, bhhh, po))
                for q in ex.funcs:
                    ctx.seen(q)
                done.add((f.module.path, f.name))
        reductions(ctx, f)
    # every other parallel loop of the package
    for m in prog.all_modules():
        for f in [x for x in m.funcs.values()] + [x for c in m.classes.values() for x in c.functions()]:
            if (m.path, f.name) in done or not any(isinstance(n, ast.For) and is_prange(n.iter) for n in ast.walk(f.node)):
                continue
            dom = EngDomain()
            ex = Exec(prog, dom, dict(fl))
            ex.run(f, {f.params[0]: K('self', view=None, obj=('inst', f.cls))} if f.cls is not None and f.params else {}, St())
            dom.names = named_roots(f, dom)
            judge(ctx, f.qual, dom, 'any input')
            reductions(ctx, f)
            ctx.seen(f)


def reductions(ctx, f):
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For) and is_prange(loop.iter):
            augs = EngDomain.augs(loop)
            for nm in sorted(augs):
                ops = {type(n.op).__name__ for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == nm}
                reads = [n for n in ast.walk(loop) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
                ctx.ob('reduction-only', '%s:%s' % (f.name, nm), len(ops) == 1 and ops <= {'Add', 'Sub', 'Mult', 'BitAnd', 'BitOr', 'BitXor'} and not reads, f.loc(loop),
                       '%s: %s is shared by the iterations of the parallel loop but is not a pure reduction' % (f.name, nm))
