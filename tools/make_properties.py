"""Regenerates /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop('P01', 'Evaluation honours the parameter values and case selection it is given',
 'Every evaluation of a model (log likelihood, derivatives, casewise values, utilities, probabilities, BHHH) computes with the parameter values and the case range or case filters the caller passed in. No evaluation entry point accepts such an argument and then silently computes with other values or over other cases; an argument that cannot be honoured is rejected with an error.',
 ['inputs', 'configurations'], 'for every evaluation entry point, every combination of its parameter-vector and case-selection arguments, and every internal call chain down to the kernels',
 'the tests call the entry points with the defaults or one range; the full cross product of entry point, argument and engine is never evaluated, and a dropped argument still returns a plausible number',
 ['larch/model/abstract_model.pyx', 'larch/model/controller.pyx', 'larch/numba/model.py', 'larch/model/latentclass.py', 'larch/model/model_group.py', 'larch/model/optimization.py'],
 [('forwarding of x/start/stop/step/leave_out/keep_only/subsample', 'controller.pyx loglike*, mnl.pyx/nl.pyx kernels, numba/model.py _loglike_runner'), ('cross validation and optimisation drivers', 'abstract_model.pyx, model/optimization.py')])

prop('P02', 'The recorded best log likelihood only comes from complete evaluations',
 'The best-so-far log likelihood and parameter values that a model remembers are only ever updated from a log likelihood computed over every case in the sample. An evaluation restricted to a range of cases, or with cases left out, kept, or subsampled, never replaces them.',
 ['histories', 'inputs'], 'for every sequence of evaluations with any mix of case-selection arguments',
 'a partial log likelihood is almost always larger than the full one, so any single partial evaluation corrupts the record; tests never mix partial evaluation with use of the record',
 ['larch/model/controller.pyx', 'larch/model/abstract_model.pyx', 'larch/numba/model.py'],
 [('update of the best record', 'abstract_model.pyx _check_if_best and its callers')],
 [('best log likelihood', 'highest full-sample log likelihood seen', 'AbstractChoiceModel._cached_loglike_best')])

prop('P03', 'Changing a model specification never leaves stale prepared structures in use',
 'After any part of a model specification is replaced or deleted (utility, quantity, size scale, nesting tree, availability, choice or weight definition, data source), the next computation uses structures rebuilt from the new specification. Every evaluation entry point rebuilds what has been marked stale before it computes anything.',
 ['histories', 'programs'], 'for every sequence of specification edits and evaluations',
 'tests build a model once and evaluate it; the staleness only shows for an edit made after a first evaluation, and per specification attribute',
 ['larch/model/controller.pyx', 'larch/model/model.py', 'larch/numba/model.py', 'larch/model/latentclass.py'],
 [('mangle/unmangle protocol', 'controller.pyx property setters; numba/model.py mangle, _rebuild_*')],
 [('mangled flag', 'prepared structures no longer match the specification', 'Model5c._mangled')])

prop('P04', 'In-place edits of specification containers reach the model that owns them',
 'Every in-place edit of a utility function, a collection of utility functions, or the list of parameter constraints (adding, replacing, removing or clearing items) notifies the model that owns it, so that the model re-prepares before its next computation. This holds for every mutating operation of the container, on every path that changes the content.',
 ['histories', 'programs'], 'for every mutating operation of every container type and every order of edits and evaluations',
 'there are dozens of mutators across container types; tests edit before the first evaluation, when a missing notification is invisible',
 ['larch/model/linear.pyx', 'larch/model/constraints.py', 'larch/util/touch_notifier.py', 'larch/roles.py'],
 [('notification', 'LinearFunction_C._try_mangle, DictOfLinearFunction_C._try_mangle, ParametricConstraintList, TouchNotify')])

prop('P05', 'Nesting-tree edits never leave stale node orders behind',
 'Every operation that changes the nodes, edges or elemental order of a nesting tree discards all node orderings and slot maps previously derived from it. A query after an edit therefore always reflects the edited tree.',
 ['histories', 'programs'], 'for every interleaving of tree edits and tree queries',
 'tests build a tree fully before the first query; a forgotten invalidation only shows for query-edit-query',
 ['larch/model/tree.py', 'larch/util/lazy.py'],
 [('cached orderings', 'NestingTree @lazy attributes and clear_cache')])

prop('P06', 'Parallel case loops never let two cases or threads write the same memory',
 'In the multithreaded log-likelihood engines, work done for one case never writes memory that the work of another case, running at the same time on another thread, may read or write. Shared totals are accumulated per thread (or per case) and combined only after the parallel section, so results do not depend on the thread schedule.',
 ['schedules', 'configurations'], 'for every thread count, schedule and persistence option, over all parallel loops of the MNL and NL engines',
 'a data race shows up only under particular interleavings; the tests run small samples where threads rarely overlap',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/controller.pyx'],
 [('prange loops', 'mnl.pyx and nl.pyx kernels')],
 [('per-thread accumulators', 'partial sums, one slot per thread', 'mnl.pyx/nl.pyx raw_dll, bhhh_temp arrays')])

prop('P07', 'Compiled array kernels write only their own outputs, fully initialised',
 'The compiled likelihood kernels treat every model, parameter and data array they receive as read-only, and write only to their designated result and work arrays. Every result or work array that a kernel accumulates into is reset before the accumulation, so the result of an evaluation never depends on what an earlier evaluation left behind.',
 ['schedules', 'histories', 'inputs'], 'for every kernel, every argument, every return flag combination and every earlier content of the buffers',
 'uninitialised or clobbered memory often happens to hold zeros in a short test; parallel kernels share their inputs between threads',
 ['larch/numba/model.py', 'larch/numba/cascading.py', 'larch/numba/data_arrays.py'],
 [('guvectorize kernels', 'numba/model.py _numba_master and helpers; cascading.py')])

prop('P08', 'Result buffers are sized for the way they are indexed',
 'Whenever an engine indexes one of its buffers by case, that buffer was allocated with one slot per case; when it allocates only one slot per thread, it indexes the buffer by thread. A casewise result is handed to the caller only in configurations where the buffer really holds one entry per case.',
 ['configurations'], 'for every combination of the persistence options of the evaluation engines',
 'there are 2^11 option combinations; tests use three or four, and an out-of-bounds write in unchecked native code need not crash',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx'],
 [('storage size and store index selection under persist flags', 'mnl.pyx, nl.pyx entry functions')])

prop('P09', 'Case weights enter every likelihood quantity exactly once',
 'The log likelihood, its gradient, its casewise contributions and the BHHH matrix each scale with the case weight (and with the weight normalisation factor) to exactly the first power, in every engine and on every path. No path skips a weight when weights are present, and none applies one twice.',
 ['inputs', 'configurations'], 'for every weighting configuration, engine and returned quantity',
 'most test data are unweighted, where weights of one hide a missing or a doubled factor',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/numba/model.py', 'larch/model/controller.pyx'],
 [('weight multiplication', 'mnl.pyx/nl.pyx kernels; numba/model.py kernels')])

prop('P10', 'Unavailable alternatives are excluded on every path',
 'On every path of every engine, an alternative that is not available to a case gets a utility of minus infinity (or zero exponentiated utility) and so contributes nothing to probabilities, logsums, derivatives or the likelihood. The exclusion depends only on the availability data, never on which other options are switched on.',
 ['inputs', 'configurations'], 'for every availability pattern, data layout and option combination',
 'availability bugs hide unless the unavailable alternative has non-trivial data; tests use few data layouts',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/controller.pyx', 'larch/dataframes.pyx', 'larch/numba/model.py'],
 [('availability guards', 'dataframes.pyx utility computation; numba/model.py _case_compute')])

prop('P11', 'Parameters held fast are never moved and have zero derivatives',
 'A parameter marked as held fast keeps its value through every bulk assignment, optimisation step and derivative evaluation: bulk value assignment skips it, and every derivative array written by the engines is left at zero in its slot.',
 ['inputs', 'configurations', 'histories'], 'for every pattern of held parameters, every engine and every kind of parameter (utility, quantity, logsum)',
 'tests hold one utility parameter at most; each derivative kind has its own guard in each engine',
 ['larch/model/parameter_frame.pyx', 'larch/numba/model.py', 'larch/dataframes.pyx', 'larch/model/controller.pyx', 'larch/model/mnl.pyx', 'larch/model/nl.pyx'],
 [('holdfast guards', 'parameter_frame.pyx set_values; numba/model.py derivative kernels; dataframes.pyx _compute_d_utility_onecase')])

prop('P12', 'Temporary changes to a model are undone on every exit',
 'An operation that temporarily changes a model in order to compute something (parameter values, penalty intensity, logging level) restores the previous state on every way out, including when the computation raises an error.',
 ['fault_sequences', 'histories'], 'for every such operation and every point at which it may raise',
 'tests only take the successful path; the state leak appears when the computation inside fails',
 ['larch/model/abstract_model.pyx', 'larch/model/optimization.py', 'larch/numba/model.py', 'larch/model/controller.pyx'],
 [('save/modify/restore', 'loglike_null, likelihood ratio, maximize_loglike')])

prop('P13', 'An evaluation returns only quantities it has actually computed',
 'Each quantity returned or stored by an evaluation (log likelihood, gradient, probability, casewise values, BHHH) was requested from the engine in that same evaluation, under the options then in force. When the engine fails, the failure is reported to the caller instead of an undefined or outdated result.',
 ['configurations', 'fault_sequences'], 'for every entry point and every combination of return options',
 'buffers that were not requested still exist and hold old or uninitialised numbers, so a mismatch yields plausible output',
 ['larch/numba/model.py', 'larch/model/controller.pyx', 'larch/model/mnl.pyx', 'larch/model/nl.pyx'],
 [('return flags and result fields', 'numba/model.py _loglike_runner and callers')])

prop('P14', 'Compiled kernel signatures agree with the data passed to them',
 'For every compiled kernel, the declared array types, the declared shapes, the parameters of the kernel body, and the arrays and scalars that callers pass agree in number, order and meaning.',
 ['inputs', 'configurations'], 'for every compiled kernel, every positional slot and every call site',
 'two slots of the same type and shape can be swapped without any error; a test notices only when the swapped arrays differ in effect',
 ['larch/numba/model.py', 'larch/numba/data_arrays.py', 'larch/numba/cascading.py'],
 [('kernel signatures', 'numba/model.py type/shape signatures, FixedArrays/WorkArrays/DataArrays tuples')])

prop('P15', 'Copying or pickling a model keeps its whole specification',
 'Everything a model saves when it is pickled or copied is restored from the saved state, each item into the attribute it was taken from, and nothing is read back that was not saved. Saving a model does not change the model being saved.',
 ['histories', 'configurations'], 'for every specification item and every class that defines its own saved state',
 'a forgotten item silently reverts to its default in the copy; tests copy only simple models',
 ['larch/model/controller.pyx', 'larch/model/parameter_frame.pyx', 'larch/model/linear.pyx', 'larch/model/abstract_model.pyx', 'larch/roles.py', 'larch/model/constraints.py', 'larch/numba/model.py'],
 [('__getstate__/__setstate__, __reduce__, copy methods', 'controller.pyx Model5c; parameter_frame.pyx; linear.pyx')])

prop('P16', 'Every declared data requirement is understood by every data provider',
 'Each kind of data requirement that a model can declare is emitted under the same key that the data providers look up, and each provider either delivers the requirement or reports that it cannot. A composite model declares the union of the requirements of its parts, with none lost.',
 ['configurations', 'programs'], 'for every requirement kind, model class and provider',
 'tests use the two or three commonest requirement kinds with one provider each; an unknown key is skipped silently',
 ['larch/model/model.py', 'larch/model/latentclass.py', 'larch/numba/data_arrays.py', 'larch/dataframes.pyx', 'larch/data_services/service.py'],
 [('requirement keys', 'Model.required_data, LatentClassModel.required_data, prepare_data, make_dataframes')])

prop('P17', 'Data sets derived from another keep all of its components',
 'Every operation that derives a new collection of model data from an existing one (selecting cases, splitting, re-shaping for a model, adding systematic alternatives) carries over every component of the source: case data, alternative data, availability, choice, weights, weight normalisation, and alternative codes and names.',
 ['programs', 'inputs'], 'for every deriving operation and every component',
 'a dropped component changes results only when that component is present, e.g. normalised weights in a split sample',
 ['larch/dataframes.pyx'],
 [('derived DataFrames', 'DataFrames.split, selector_co, make_dataframes, new_systematic_alternatives, copies')])

prop('P18', 'Assigned data tables stay aligned with the arrays the engines use',
 'Whenever a component table of the model data is replaced, the array view that the engines read is rebuilt from the new table, and tables whose rows must line up case by case are brought to the same row order. No assignment leaves engine arrays that belong to an earlier table.',
 ['histories', 'inputs'], 'for every component and every assignment order, including unsorted row labels',
 'tests assign already sorted tables once',
 ['larch/dataframes.pyx'],
 [('data_* property setters and computational array caching', 'DataFrames.data_co.setter and siblings, computational flag')])

prop('P19', 'Linear-expression arithmetic loses no term, coefficient or scale',
 'Adding, subtracting, multiplying and copying parameters, data items, components and linear functions yields a new expression that carries the parameter, the data and the scale of every operand. Non-in-place operators never modify their operands.',
 ['programs', 'inputs'], 'for every operator and every combination of operand types',
 'there are some 60 operator and operand-type combinations; tests use the four commonest',
 ['larch/model/linear.pyx'],
 [('operators', 'UnicodeRef_C, ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C')])

prop('P20', 'Objects that compare equal have equal hashes',
 'For every expression and constraint class with its own equality, hashing uses only content on which equality depends, so equal objects always hash equally and behave as one key in dictionaries and sets.',
 ['inputs', 'programs'], 'for every class defining equality and hashing, over all pairs of equal objects',
 'needs quantification over pairs of objects; a hash that also depends on identity or an uncompared field is rarely noticed',
 ['larch/model/linear.pyx', 'larch/roles.py', 'larch/model/constraints.py', 'larch/util/arraytools.py'],
 [('__eq__/__hash__ pairs', 'linear.pyx, roles.py, constraints.py')])

prop('P21', 'Composite models aggregate over every member',
 'A model group passes parameter values to every member before evaluating and sums log likelihood, gradient, BHHH and case counts over all members; a latent class model does so over all its classes. No member or class is skipped, counted twice, or evaluated with outdated parameter values.',
 ['configurations', 'histories'], 'for any number of members and any sequence of parameter updates',
 'tests use two members once',
 ['larch/model/model_group.py', 'larch/model/latentclass.py'],
 [('aggregation loops', 'ModelGroup.loglike, loglike2; LatentClassModel.loglike*')])

prop('P22', 'Cross validation always scores the cases that were left out of the fit',
 'In every round of cross validation the model is fitted without exactly one fold and scored on exactly that same fold, with the same number of folds and fold labels for both steps, every fold scored once; case selection by fold assigns each case to exactly one fold.',
 ['inputs', 'configurations'], 'for every number of folds and sample size',
 'a leak of training cases changes the score only slightly',
 ['larch/model/abstract_model.pyx', 'larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/optimization.py'],
 [('fold selection', 'cross_validate; leave_out/keep_only/subsample skip tests in the kernels')])

prop('P23', 'Evaluating a model never modifies the data or the specification',
 'No evaluation (log likelihood, derivatives, probabilities, logsums, reporting) writes to the data arrays, the weights, the choices, the availability or the specification of the model: repeating an evaluation gives the same answer.',
 ['histories', 'schedules'], 'for every evaluation entry point and everything reachable from it',
 'each evaluation alone gives the right answer; only repetition, or another model sharing the data, shows the damage',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/model/controller.pyx', 'larch/dataframes.pyx'],
 [('native kernels reading DataFrames arrays', 'mnl.pyx, nl.pyx, dataframes.pyx *_onecase functions')])

prop('P24', 'Matrix files are never overwritten or mis-shaped without being asked',
 'A matrix or lookup already stored in an open-matrix file is removed or replaced only when the caller asked for overwriting, and once a file holds a matrix every further array is checked against the shape of the file before it is stored, unless the caller asked to ignore shapes. A rejected request leaves the stored content as it was.',
 ['inputs', 'histories', 'fault_sequences'], 'for every way of adding content to a matrix file',
 'tests do not exercise the rejecting paths in combination with existing content',
 ['larch/omx.py'],
 [('overwrite and shape guards', 'OMX.add_matrix, add_lookup, add_blank_matrix, add_blank_lookup, shape')])

prop('P25', 'Native memory and handles are released on every exit',
 'Every block of native memory, prepared database statement or opened file that an operation acquires for its own use is released exactly once on every way out of the operation, including errors, and is not used afterwards.',
 ['fault_sequences', 'inputs'], 'for every acquire site and every exit path',
 'leaks and double frees on error paths do not fail a test',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/data_services/sqlite/sqlite_arrays.pyx', 'larch/data_services/dbf/dbf_reader.pyx', 'larch/util'],
 [('malloc/free, sqlite3_prepare/finalize, open/close', 'mnl.pyx, nl.pyx, sqlite_arrays.pyx, dbf_reader.pyx')])

prop('P26', 'A parameter constraint means the same bound in every form it takes',
 'For every kind of parameter constraint (ratio, ordering, fixed bound), with one or two bounds and either sign of a ratio denominator, the reported slack is a positive multiple of the distance to the bound that is closest to being violated, its gradient is the derivative of that slack, the note, the linear form and the inequality dictionary state the same bound and direction, the soft penalty is never positive and penalises the violation of that bound, and the gradients of the penalty are its derivative. A constraint given as text is read as the bound it states, bounds of parameters keep their side, and a constraint always acts on the parameters it names, also after parameters are added or the list of constraints changes.',
 ['inputs', 'configurations', 'histories'], 'for all parameter values, all constraint kinds, one- or two-sided bounds, signs of the denominator, and orders of adding constraints and parameters',
 'sign errors on one side of a two-sided constraint appear only when that side binds; stale positions appear only when parameters are added after the constraint',
 ['larch/model/constraints.py', 'larch/numba/model.py', 'larch/model/model.py'],
 [('fun/jac/penalty/linear form', 'constraints.py RatioBound, OrderingBound, FixedBound'), ('text forms', 'constraints.py interpret_contraint'), ('positions', 'Model.unmangle, ParametricConstraintList'), ('bounds', 'numba/model.py bounds_penalty, constraint_penalty; model.py _get_bounds_constraints')])

prop('P27', 'Estimation leaves the model at the values it reports',
 'When estimation finishes, the parameter values reported in the result, the values stored in the model and the reported log likelihood belong together, for every algorithm. Estimation algorithms change parameter values only through the assignment of the model itself, so held parameters are respected; a step given up is undone before the failure is reported; minimisers that accept bounds are given those of the parameters.',
 ['histories', 'configurations'], 'for every optimisation method and stopping condition',
 'tests check the final value of a converged run, not early stops or fall-backs between algorithms',
 ['larch/model/optimization.py', 'larch/model/abstract_model.pyx', 'larch/numba/optimization.py'],
 [('final value assignment', 'maximize_loglike, simple_fit_bhhh, fit_bhhh')])

prop('P28', 'Options of the data interfaces are never silently ignored',
 'Every named option accepted by the public data-handling interfaces (data sets, data trees, data services, matrix files, model data) influences what the operation does or is explicitly rejected; none is accepted and then disregarded.',
 ['inputs', 'programs'], 'for every public operation and every named option',
 'tests pass each option rarely, and never all of them',
 ['larch/dataset/__init__.py', 'larch/dataset/flow.py', 'larch/dataset/construct.py', 'larch/data_services/service.py', 'larch/data_services/podlist.py', 'larch/omx.py', 'larch/dataframes.pyx'],
 [('option use', 'all public functions and methods of the listed files')])

prop('P29', 'Building model data never modifies the tables the caller passed in',
 'Constructing data sets, data trees or model data from tables owned by the caller leaves those tables, including their row and column labels, exactly as they were.',
 ['inputs', 'histories'], 'for every constructor and every caller-supplied table',
 'tests throw their input tables away after construction',
 ['larch/dataset/construct.py', 'larch/dataset/__init__.py', 'larch/dataframes.pyx', 'larch/dataset/flow.py'],
 [('construction from tables', 'Dataset.construct.*, DataFrames.__init__, DataTree')])

prop('P30', 'What is written under a name is read back under the same name',
 'Every auxiliary item the library stores inside its own files or data sets (alternative codes and names, index labels, component markers, saved metadata) is read back under exactly the key it was written with, and every key that is read has a writer.',
 ['configurations', 'histories'], 'for every stored key, writer and reader',
 'a mistyped key falls back to a default that is right for the simple cases tested',
 ['larch/dataset/__init__.py', 'larch/dataset/construct.py', 'larch/dataset/dim_names.py', 'larch/dataframes.pyx', 'larch/numba/data_arrays.py'],
 [('attribute and coordinate names', 'dataset accessors, DataFrames feather/dump/load')])

# ---- numerical truths, declined
prop('P40', 'Analytic gradients equal the derivatives of the log likelihood',
 'For every model and parameter vector in the interior of the domain, each analytic gradient returned equals the true derivative of the returned log likelihood.',
 ['inputs'], 'for all models, data and parameter values', 'finite differences at a few points settle only those points',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/numba/model.py'], [('derivative kernels', 'mnl.pyx, nl.pyx, numba/model.py')])
prop('P41', 'Choice probabilities are in the unit interval and sum to one',
 'For every case with at least one available alternative, the choice probabilities returned are between zero and one and sum to one up to rounding.',
 ['inputs'], 'for all models, data and parameter values', 'tests sample a few data sets',
 ['larch/model/mnl.pyx', 'larch/model/nl.pyx', 'larch/numba/model.py'], [('probability kernels', 'mnl.pyx, nl.pyx, numba/model.py')])
prop('P42', 'Estimation reaches a local maximum of the log likelihood',
 'When estimation reports convergence, the values are a local maximum of the (penalised) log likelihood subject to the bounds and constraints.',
 ['inputs', 'histories'], 'for all models and data', 'tests check a few known optima',
 ['larch/model/optimization.py', 'larch/model/abstract_model.pyx'], [('optimisation drivers', 'model/optimization.py')])
prop('P43', 'The array engine and the native engine give the same numbers',
 'For every model both engines can evaluate, the log likelihood, gradient and probabilities of the two agree up to rounding.',
 ['inputs', 'configurations'], 'for all models, data and parameter values', 'tests compare the engines on a few models',
 ['larch/model/controller.pyx', 'larch/numba/model.py'], [('both engines', 'controller.pyx, numba/model.py')])
prop('P44', 'Saved tables and model data read back with equal values',
 'Saving model data or a table to any supported file format and loading it again yields equal values in every cell.',
 ['inputs'], 'for all tables and formats', 'tests round-trip one table per format',
 ['larch/dataframes.pyx', 'larch/data_services/dbf/dbf_reader.pyx', 'larch/omx.py'], [('readers and writers', 'DataFrames feather, OMX, DBF')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
