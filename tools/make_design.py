"""Developer tool: write DESIGN.md from the text below, the check modules, properties.jsonl and seeded/*/meta.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from not_applicable import NA          # noqa: E402

HEAD = '''# Static analysis of larch: design

This file is written by `tools/make_design.py` from the texts in it, the check modules, `properties.jsonl` and `seeded/*/meta.json`.

## What is decided, and how

Everything here decides from the *source* of /repo as it stands when the check runs.  Nothing of larch is imported or executed, nothing is handed to a solver.
The machine is a Python package, `larchcheck`:

| module | what it does |
|---|---|
| `frontend.py` | reads `*.py` with `ast` and `*.pyx/*.pxd/*.pxi` with the Cython parser that is installed with the build (parse tree only, includes resolved), and turns both into one syntax tree; `prange`, `nogil`, memory views, typed attributes, C-only methods and properties are kept as annotations |
| `program.py` | modules, classes, descriptors, methods, properties, inheritance (C and Python slots kept apart: `__add__` of an extension type has no `__radd__`), imports; `lookup`, `resolve`, `mro`, `subclasses` |
| `absint.py` | the abstract interpreter: path sensitive (states are kept apart while their conditions differ, joined above a cap), interprocedural by in-place analysis, with pluggable domains (labels, constants, objects, facts per state, exceptional exits, loops to a fixpoint) |
| `flatten.py`, `logic.py` | in-place expansion of helper methods into one statement structure; clause logic for path conditions (`and/or/not/is None/==/in`), used to ask "does this path imply that condition" |
| `engines.py`, `kern.py`, `gufunc.py`, `termdom.py` | the symbolic-array domain for the multithreaded Cython engines and the numba kernels: arrays with symbolic shapes, indices classified by the loop they come from (case, position in range, thread, alternative, node, edge, slot value), regions, resets, accumulations |
| `checks/pXX.py` | one module per property: which constructs carry obligations, which domain, which rule |
| `report.py` | obligations, floors (a rule that finds fewer constructs than it must is an error, not a pass), known findings, evidence, exit codes |

A check ends with exit 0 (all obligations discharged, or only recorded findings), exit 1 with `VIOLATION property=... replay=...` (the replay file names file, line, function and, where there is one, the path condition), or exit 2 if the
analysis cannot be carried out (a construct it must find is gone).  A rule has a *floor*: a check cannot pass by finding nothing to check.

`--quick` and `--thorough` differ where the analysis enumerates configurations (engine storage flags: quick takes none/each/all-but-one/all, thorough every pair as well) and in the caps under which states are kept apart; where there is nothing to enumerate both do the same.

Why this reaches what the tests cannot: the tests evaluate a few example models with a few flags; the rules quantify over every path of every method, every flag combination, every thread schedule (index injectivity), every exceptional exit and every pair of operand kinds.

Soundness limits common to all checks: calls through names computed at run time (`getattr` with a computed name, `exec`) are not followed; third-party libraries are taken at their documented behaviour; user code that reaches into private attributes is out of scope.
The arithmetic of the likelihood itself is never judged (P40–P43 are not applicable).

## Rules for alarms

A violation on the tree was first reproduced by running larch in a scratch copy.  If it was real it was repaired in /repo with a `fix:` commit (see `known_findings.txt`, entries `fixed:`), otherwise the rule was corrected.
The narrowings are listed at the end.

## Properties
'''

BOUNDS = {
 'P01': 'entry points: every public evaluation method of Model5c, LatentClassModel, ModelGroup, NumbaModel and the estimation layer (BHHH steps, jump start, line search).  Unbounded in data and values.',
 'P02': 'all stores into `_cached_loglike_best` and the best parameter frame.',
 'P03': 'all setters, descriptors and mutating methods of the model classes; all entry points.',
 'P04': 'LinearFunction_C, DictOfLinearFunction_C, ParametricConstraintList and everything that stores into their content.',
 'P05': 'NestingTree and every mutator of the installed networkx DiGraph (enumerated from its source).',
 'P06': 'all `prange` loops, all `@guvectorize/@njit(parallel)` loops, under the enumerated storage flags.',
 'P07': 'as P06, plus all array kernels.',
 'P08': 'as P06.',
 'P09': 'all engines and the evaluation methods up to what the caller gets.',
 'P10': 'all utility kernels (idco, idca, idce; native and array engine) and the nesting kernels.',
 'P11': 'all derivative kernels and every write of the value column.',
 'P12': 'every function of the model layers.',
 'P13': 'every engine configuration, every result record, every handler.',
 'P14': 'every guvectorize kernel in use and every call of one.',
 'P15': 'every class with `__getstate__`/`__setstate__`.',
 'P17': 'every construction of DataFrames from DataFrames.',
 'P18': 'every method that stores a component table.',
 'P19': 'every operator × every ordered pair of operand kinds × every special case the code distinguishes.',
 'P20': 'every class that defines `__eq__`.',
 'P21': 'both composite classes: every loop over the members, every path of every evaluation.',
 'P16': 'each requirement key alone and every pair of keys of different roles, against each provider; members of a composite in generic pairs; up to 60 (pairs: 24) abstract states kept apart.',
 'P22': 'one generic round for any number of folds; every label -1..n-1 of up to 4 folds x residues x case ranges (the selection depends on them only through comparisons of residues).',
 'P24': 'every method of OMX.',
 'P26': 'each constraint class x {both bounds, either alone} x {linked at construction, later, again to another model} x every path (signs of the denominator, which side is least); no bound on values; terms of unknown shape are listed as undecided in the evidence.',
 'P27': 'every estimation algorithm, every path through it: loops and handlers to a fixed point, for each method that takes bounds and for an unknown one.',
 'P28': 'every parameter of every function of the data layers; every call that could hand on a row selection, mask or data type.',
}

FALSE = '''## Where a rule was narrowed because it would be, or was, a false alarm

* P06: a store of the engine arrays inside the parallel loop was reported after the repair 93cd036, although the driver has made the data ready before the loop: the interpreter now follows the answer of a called predicate back into the caller and keeps what is known about flags.
* P28: an option that is called (`log(...)`) is used; an option that selects the loader's result afterwards, or that decides what happens with it, counts as handed on.
* P01: a fold argument reaching the engine through `functools.partial` and `scipy.optimize` argument tuples is not lost; argument tuples are now followed.
* P03: setters that return early when the new value is the identical immutable value are not violations: such a store changes nothing (stated as an assumption).
* P04: `__delitem__` paths ending in KeyError before the content changed are not violations: exceptional paths carry the typestate at the raise.
* P06/P08: scalars that Cython turns into reductions were reported as races; buffers chosen by a flag together with their index were reported when the two tests were written differently – flags are now constants of the enumerated configuration.
* P07: buffers reset through a slice helper or in a loop over the dimension under another name are not violations: regions are compared by the dimension, not by the text.
* P12: deliberate moves of the parameter values (stepping and estimation) are excluded: moving is their purpose.
* P15: attributes that are re-created on demand (thread counts, prepared structures, data) are not specification and carry no obligation.
* P17: components the request did not name were reported as lost; "not asked for" is now a path condition.  A table computed from another component at the request of the caller is not a lost component.
* P19: products of text operands were reported because the text was not parsed; text is read as the expression it spells.
* P24: the statement says "once the file holds a matrix": the first matrix of an empty file defines its shape, so there is nothing to check it against.
* In all checks: closures defined inside a method, `dict(...)` built for `**`, tests split into nested `if`, and conditional expressions instead of statements are followed, because refactorings that only change these were used to test that the checks stay quiet.
'''


def main():
    out = [HEAD]
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    seeds = {}
    sd = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.setdefault(m['property'], []).append((s, m))
    caught = {}
    cf = os.path.join(HERE, 'tools', 'seed_results.json')
    if os.path.exists(cf):
        caught = json.load(open(cf))
    fixed = {}
    known = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith('fixed:'):
            p = line.split('property=')[1].split()[0]
            fixed.setdefault(p, []).append(line.split('property=' + p)[1].strip())
        elif line.startswith('known:'):
            p = line.split('property=')[1].split()[0]
            known.setdefault(p, []).append(line.split('::')[-1].strip())
    na = []
    for p in props:
        i = p['id']
        try:
            m = importlib.import_module('larchcheck.checks.' + i.lower())
        except ImportError:
            na.append(p)
            continue
        out.append('### %s  %s\n' % (i, p['title']))
        out.append('*Method.* %s.\n' % m.TECHNIQUE.rstrip('.'))
        out.append('*Decided.* %s\n' % m.EXPLAIN)
        out.append('*Scope.* %s\n' % BOUNDS.get(i, 'see the note below.'))
        out.append('*Limits.* %s.\n' % m.NOTE.rstrip('.'))
        out.append('*Assumes.* %s.\n' % '; '.join(a.rstrip('.') for a in m.ASSUME))
        if fixed.get(i):
            out.append('*Genuine defects found and repaired.*\n\n' + '\n'.join('* `%s` %s' % tuple(x.split(' ', 1)) for x in fixed[i]) + '\n')
        if known.get(i):
            out.append('*Genuine defects recorded, not repaired.*\n\n' + '\n'.join('* ' + x for x in known[i]) + '\n')
        if seeds.get(i):
            out.append('*Planted bugs.*\n\n' + '\n'.join('* `%s` (%s): %s  Needs: %s' % (s, caught.get(s, 'caught'), d['what_it_breaks'], d['needs']) for s, d in seeds[i]) + '\n')
    out.append('## Not applicable or not claimed\n')
    for p in na:
        out.append('* **%s** %s: %s' % (p['id'], p['title'], NA.get(p['id'], 'no check has been built for it; nothing is claimed.')))
    out.append('')
    out.append(FALSE)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
