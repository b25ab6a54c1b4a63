#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))
CORE = 'paramz/core/'
p('C01', 'The hierarchy stays an ordered forest and rejected edits change nothing',
  "After any sequence of linking (appending, inserting at any list index, moving within a parent, taking over from another hierarchy) and unlinking, every object has at most one parent, stands exactly once and at the list-insert position in its parent's children, never below itself, and every node's size is the sum of its leaves' sizes. "
  "An edit that is not allowed (linking twice, linking to another place of the same hierarchy, linking an object to itself or below one of its descendants, unlinking a non-child) raises the hierarchy error and leaves structure, values, constraints and all later behaviour as if it had not been tried. "
  "A traversal downwards visits an object and everything below it once in pre-order, one upwards everything else in the hierarchy that is not below it, also after a visitor has failed.",
  ['histories', 'inputs'], 'all sequences of link/insert/move/unlink over any set of nodes and leaves of any shape, and any list index (negative and past the end)',
  'Tests link and unlink a few fixed trees; they cannot cover all edit histories, indices, depths and rejected edits followed by further work.',
  ['paramz/parameterized.py', CORE + 'parameter_core.py', CORE + 'parentable.py', CORE + 'indexable.py', CORE + 'lists_and_dicts.py'],
  [('link_parameter / unlink_parameter', 'paramz/parameterized.py'), ('traverse, traverse_parents', CORE + 'parameter_core.py'), ('_disconnect_parent', CORE + 'indexable.py')],
  ['parameters', 'size', 'has_parent', 'raised exception types'],
  [('children lists', 'ordered children and parent pointers', 'paramz/parameterized.py')])
p('C02', 'All handles share one copy of every value',
  "A value written through any handle (leaf, slice, mask, in-place arithmetic, attribute assignment, a whole node, a regular expression, a flat array, the optimizer array) is at once what every other handle covering it reads: the leaf in its own shape and the flat array of every ancestor in child order and row-major order, and no other value changes. "
  "Linking, inserting, moving, unlinking, renaming and constraining an unconnected part never change any value, and after unlinking the two parts no longer influence each other.",
  ['histories', 'inputs'], 'all histories of structural edits interleaved with writes through all kinds of handles, for leaves of any shape at any depth',
  'Tests compare a few arrays after a few edits; the shared memory has to survive every history of re-linking and every handle.',
  ['paramz/parameterized.py', CORE + 'parameter_core.py', 'paramz/param.py', CORE + 'observable_array.py'],
  [('_connect_parameters', 'paramz/parameterized.py'), ('_propagate_param_grad', CORE + 'parameter_core.py'), ('__setitem__/__setattr__', 'paramz/parameterized.py')],
  ['param_array of every node', 'values of every leaf'])
p('C03', 'Constraints stay on their values through every restructuring',
  "Linking, inserting, moving, unlinking and initializing never change which constraints, fixes and user defined index operations hold for which individual value, whatever was constrained before or after and through whichever handle. "
  "Every node and leaf reports for each constraint exactly the positions, in its own flat numbering, of the values below it that carry it.",
  ['histories'], 'all histories of restructuring interleaved with constraining, at all depths, with leaves linked before, between and after',
  'Tests look at a few index shifts; the shift logic must be right for every tree shape, position and constraint set.',
  [CORE + 'index_operations.py', CORE + 'indexable.py', 'paramz/parameterized.py'],
  [('shift_right/shift_left/update', CORE + 'index_operations.py'), ('_parent_changed/_disconnect_parent/_offset_for', CORE + 'indexable.py'), ('link_parameter/unlink_parameter', 'paramz/parameterized.py')],
  ['constraints of every node and leaf', 'user defined index operations'])
p('C04', 'Constraining, fixing and releasing act on exactly the addressed elements',
  "A constrain, unconstrain, fix or unfix through a leaf, a slice, mask or index selection of it, a node or a regular expression changes exactly the addressed elements: constraining replaces what held for them and moves their values into the domain as the constraint's initialization says, unconstraining removes exactly the named (or all) constraints, fixing keeps the value (or sets the given one) and the constraint beneath so that unfixing brings it back. "
  "Is-fixed tells whether all elements are fixed, an empty selection changes nothing, and refused constraints raise and change nothing.",
  ['histories', 'inputs'], 'all sequences of these operations over all numpy selections (slices with any step, integer arrays, boolean masks, mixed indices, empty ones) of leaves of any shape, nodes and regular expressions',
  'Tests fix and constrain a few slices; numpy selections and the order of operations are an unbounded space.',
  [CORE + 'constrainable.py', CORE + 'indexable.py', 'paramz/param.py', CORE + 'index_operations.py'],
  [('constrain/unconstrain/constrain_fixed/unconstrain_fixed', CORE + 'constrainable.py'), ('_raveled_index/_indices', 'paramz/param.py'), ('_add_to/_remove_from_index_operations', CORE + 'indexable.py')],
  ['constraints', 'values', 'is_fixed'])
p('C05', 'The optimizer sees exactly the free parameters, in order and transformed',
  "Reading the optimizer array of any node or leaf gives one entry per value that is not fixed, in flat order, mapped by the inverse of exactly that value's constraint, and always reflects the current values and constraints. "
  "Writing it (or randomizing) sets exactly these values through their constraint's map and never changes a fixed value; writing back what was read changes nothing, and the flat parameter names and the unfixed part of the flat array correspond entry by entry.",
  ['histories', 'inputs'], 'all histories of value writes (updates on or off), constraining, fixing and restructuring, followed by reads and writes of the optimizer array of any node',
  'Tests read it for a few models right after a notification; staleness and wrong masks appear only after particular histories.',
  [CORE + 'parameter_core.py', CORE + 'constrainable.py', CORE + 'indexable.py'],
  [('optimizer_array getter/setter, randomize, parameter_names_flat', CORE + 'parameter_core.py'), ('_ensure_fixes/_set_fixed/_set_unfixed/_connect_fixes', CORE + 'constrainable.py')],
  ['optimizer_array', 'parameter_names_flat', 'param_array'])
p('C06', 'Derived state is never stale: updates reach every affected node bottom-up',
  "While updates are on, after every completed value change or trigger each node that contains a changed value has had its parameters-changed callback run with the new values, children before their parents; an assignment to a leaf runs it exactly once on each ancestor and on nothing else. "
  "While updates are off no callback runs, and switching them on again, from any part of the model, brings every node up to date. "
  "Each leaf whose values changed has told its own observers the final values (after an assignment to a leaf exactly once), and nobody is told about a part that is switched off or about another hierarchy.",
  ['histories'], 'all histories of writes through all handles, structure edits, switching updates on and off anywhere in the hierarchy',
  'Tests count callbacks for a few writes on small trees; freshness must hold for all trees, handles and on/off histories.',
  [CORE + 'updateable.py', CORE + 'observable.py', CORE + 'parameter_core.py', CORE + 'observable_array.py'],
  [('update_model/trigger_update', CORE + 'updateable.py'), ('_trigger_params_changed/_pass_through_notify_observers', CORE + 'parameter_core.py'), ('notify_observers', CORE + 'observable.py')],
  ['order and contents of the parameters_changed callbacks'])
p('C07', 'Observers are called by priority, exactly once, until removed',
  "A notification calls every callback of a living observer that is registered when it starts and not removed meanwhile exactly once, in descending priority and for equal priorities in the order of registration, and, given a minimum priority, only those with a strictly larger one; each gets the notifying object and the originating object (by default the notifying object). "
  "Removing an observer removes all its callbacks, removing one callback only that one, changing a priority moves it; while updates of an object are off it notifies nobody, and observers that ceased to exist are skipped.",
  ['histories'], 'all histories of adding, removing, re-prioritising, deleting observers and notifying, over any priorities including infinities and equal ones',
  'Tests use a handful of observers; ordering and removal must hold for every history.',
  [CORE + 'observable.py', CORE + 'lists_and_dicts.py'],
  [('add/remove_observer, notify_observers, change_priority', CORE + 'observable.py'), ('ObserverList', CORE + 'lists_and_dicts.py')],
  ['sequence of callback invocations and their arguments'])
p('C08', 'A cached function returns what the uncached function would return',
  "Whatever the history of calls, in-place changes of the arguments, errors raised by the function, resets, evictions and switching caching off and on, a cached call returns the value (or raises the error) that calling the function directly on the same arguments at that moment would give, up to arguments declared to be ignored. "
  "This holds for positional and keyword arguments in any order, for cachable and not cachable arguments, for several arguments sharing one object, and for methods cached per instance.",
  ['histories', 'inputs'], 'all histories of calls, argument mutations, failures, resets and enable/disable over any argument tuples and limits',
  'Tests call a few cached functions in a few orders; staleness needs particular interleavings of calls, changes and evictions.',
  ['paramz/caching.py', CORE + 'observable.py', CORE + 'observable_array.py'],
  [('Cacher.__call__/on_cache_changed/add_to_cache/ensure_cache_length', 'paramz/caching.py'), ('Cache_this, FunctionCache', 'paramz/caching.py')],
  ['returned values and raised errors'])
p('C09', 'The cache recomputes only when it has to and stays within its limit',
  "An unchanged argument combination among the last `limit` distinct ones cached is answered without calling the function again, a changed one is recomputed once in place, and a new one displaces the oldest. "
  "Forced keywords and not cachable arguments always call the function and leave the cache as it is, an error or a reset empties it, while caching is disabled every call computes, and cachers leave no observers behind on arguments they no longer hold.",
  ['histories'], 'all histories of calls, argument changes, errors, resets and enable/disable for any limit',
  'Tests check hits and misses for a few sequences at one limit.',
  ['paramz/caching.py'],
  [('Cacher.__call__, ensure_cache_length, add_to_cache, reset', 'paramz/caching.py'), ('FunctionCache.enable/disable_caching, Cache_this', 'paramz/caching.py')],
  ['number of calls of the function', 'registered observers of the arguments'])
p('C10', 'Copies and pickles are faithful and independent',
  "A copy of any model, node or leaf, and a pickled and reloaded model, has the same structure, names, values, constraints, fixes, user defined index operations and update behaviour as the original below it, has no parent, and answers every later operation as the original would have. "
  "Afterwards the two share nothing: no later operation on one changes values, constraints, structure or names of, or runs callbacks or observers on, the other.",
  ['histories'], 'all states reachable by any history of operations, followed by copy or pickle and any further history on either side',
  'Tests compare a copy right after it is made, for a few models; later independence and sub-node copies are not covered.',
  [CORE + 'pickleable.py', 'paramz/parameterized.py', 'paramz/param.py', CORE + 'observable_array.py', CORE + 'index_operations.py', CORE + 'parameter_core.py'],
  [('copy/__deepcopy__/__getstate__/__setstate__', CORE + 'pickleable.py'), ('Parameterized.copy/__setstate__', 'paramz/parameterized.py'), ('Param.__deepcopy__', 'paramz/param.py')],
  ['full projected state of both hierarchies after every operation'])
p('C11', 'Sibling names are unique and resolve to their parameter',
  "After any history of linking, unlinking and renaming in an initialized hierarchy no two children of a node have the same name, every child can be reached as an attribute under its (printable) name unless that name is an attribute of the class itself, names that are no longer used stop resolving, and only names involved in a clash are changed, by appending a number. "
  "The listed parameter names, flat names and hierarchy names follow the structure and the current names in order.",
  ['histories', 'inputs'], 'all histories of link/unlink/rename with any, also clashing, special-character and reserved names at any depth',
  'Tests use a few names; clash resolution is recursive and depends on the history.',
  [CORE + 'parameter_core.py', CORE + 'nameable.py', 'paramz/parameterized.py'],
  [('_add_parameter_name/_remove_parameter_name/_name_changed/parameter_names', CORE + 'parameter_core.py'), ('adjust_name_for_printing/hierarchy_name', CORE + 'nameable.py')],
  ['names', 'attribute access', 'parameter_names', 'parameter_names_flat', 'hierarchy_name'])
p('C12', 'A regular expression handle acts as the concatenation of what it matches',
  "Selecting by a regular expression gives exactly the objects below whose dotted name matches from its start, in hierarchy order: the object itself for one match, an error for none, otherwise a handle for the concatenated elements of the matched leaves, each leaf once. "
  "Reading, assigning (also parts, broadcast), in-place arithmetic, comparing, constraining, fixing, releasing and gradient checking through this handle, provided it has at least one element and each time it is used, have exactly the effect of doing so on the flat concatenation, and update the model.",
  ['histories', 'inputs'], 'all expressions over all hierarchies, all index selections of the handle, repeated use of the same handle',
  'Tests print handles and set a few whole ones.',
  ['paramz/parameterized.py', 'paramz/param.py'],
  [('grep_param_names/__getitem__/__setitem__', 'paramz/parameterized.py'), ('ParamConcatenation', 'paramz/param.py')],
  ['matched objects', 'values', 'constraints', 'callbacks'])
p('C13', 'Optimizing ends at the result of the best run and touches free parameters only',
  "After optimizing, the model holds exactly the parameters the optimizer reported, the run is recorded with the objective at these parameters, and fixed parameters have kept their values; a model without free parameters is left alone. "
  "Random restarts leave the model at the successful run with the lowest (not-nan) objective among the restarts of this call, tolerate failing restarts only if asked to be robust, and restore the initial parameters if all of them fail.",
  ['histories', 'fault_sequences', 'inputs'], 'all sequences of run outcomes (objective values incl. ties, inf and nan; exceptions at any run), earlier runs, constraints and fixes, optimizers',
  'Tests run real optimizers on a few convex problems; failing, tied and nan runs in any order are not covered.',
  ['paramz/model.py', 'paramz/optimization/optimization.py'],
  [('optimize/optimize_restarts', 'paramz/model.py'), ('Optimizer.run, opt_*', 'paramz/optimization/optimization.py')],
  ['param_array after the call', 'optimization_runs', 'raised exceptions'])
p('C14', 'Numerical failures are tolerated up to the limit and then raised',
  "While evaluating objective or gradients for an optimizer, up to ten consecutive numerical failures (linear algebra, zero division or value errors) yield an infinite objective or gradients clipped to a large finite range, the next one raises the original error, and any success, also one with an infinite or undefined objective, starts the count anew. "
  "All other errors are raised at once, and a success returns the true objective and transformed gradients at the requested point.",
  ['fault_sequences'], 'all sequences of successes and failures of each kind over the three evaluation functions and all limits',
  'Tests never make an evaluation fail more than once.',
  ['paramz/model.py'],
  [('_objective/_grads/_objective_grads', 'paramz/model.py')],
  ['returned objective and gradients', 'raised exceptions'],
  [('_fail_count', 'consecutive failures so far', 'paramz/model.py')])
p('C15', 'Gradient checking judges exactly the chosen parameters and alters nothing',
  "A gradient check of any handle (model, node, leaf, selection, regular expression) passes if and only if the supplied gradient of its free elements agrees with the objective, is unaffected by gradients outside the handle, and passes trivially without free elements. "
  "It never changes values, constraints or fixes, neither when it passes nor when it fails.",
  ['inputs', 'histories'], 'all subsets of wrong gradient entries, all handles, fixes and constraints, in both verbosity modes',
  'Tests check gradients that are right on whole models.',
  ['paramz/model.py', CORE + 'gradcheckable.py', CORE + 'indexable.py'],
  [('_checkgrad', 'paramz/model.py'), ('checkgrad', CORE + 'gradcheckable.py'), ('_raveled_index_for_transformed', CORE + 'indexable.py')],
  ['returned verdict', 'param_array and constraints before and after'])
p('C16', 'Index operations behave as sets of indices per property, and views as windows',
  "Adding, removing, shifting, deleting, updating, copying and clearing properties on indices behaves like a mapping from properties to sets of indices: removal returns exactly what was there, empty properties vanish from the listing, lookups by index and by property agree. "
  "A view with an offset and size reads and writes exactly its window of the underlying index set and never anything outside it.",
  ['histories', 'inputs'], 'all histories of operations on an index set and several, also nested and overlapping, views over any indices including repeated, unsorted and empty ones',
  'Tests use one fixed small example.',
  [CORE + 'index_operations.py'],
  [('ParameterIndexOperations', CORE + 'index_operations.py'), ('ParameterIndexOperationsView', CORE + 'index_operations.py')],
  ['items', 'properties', 'indices', 'size', 'properties_for', 'properties_dict_for', 'returned removals'])
p('C17', 'Transformations map onto their domain, invert, scale gradients by their slope',
  "For each transformation the map from optimizer space lands in its domain and is strictly increasing or decreasing where it is not saturated, its inverse undoes it (the square: its non-negative half), the gradient factor is its slope at that value times the gradient, a log jacobian, where given, is the logarithm of the slope, and the initialization yields values of the domain and leaves values in it as they are. "
  "Equal transformations are one object: parameterless ones per class, bounded ones per pair of bounds as long as they are in use, also after copying and pickling, and a refused construction changes nothing.",
  ['inputs', 'histories'], 'all values over the representable range (scalars and arrays), all bounds, all orders of creating and dropping bounded transformations',
  'Tests evaluate a few transformations at random points; NegativeExponent and Square were never inverted.',
  ['paramz/transformations.py', 'paramz/domains.py'],
  [('f/finv/gradfactor/initialize of each class', 'paramz/transformations.py'), ('instance pools', 'paramz/transformations.py')],
  ['returned values', 'object identity'])
p('C18', 'Gradients are shared by all handles and reach the optimizer by the chain rule',
  "A gradient entry written at a leaf or at any node is what every other handle covering the same value reads, through every history of restructuring. "
  "The gradient given to the optimizer has one entry per free value in the order of the optimizer array, each the stored gradient times the slope of exactly that value's constraint, and what the optimizer was given is not altered by later evaluations.",
  ['histories', 'inputs'], 'all histories of restructuring, constraining and fixing, gradients written through any handle',
  'Tests check gradients numerically for a few unedited models.',
  [CORE + 'parameter_core.py', 'paramz/param.py', 'paramz/model.py'],
  [('gradient, gradient_full, _propagate_param_grad, _transform_gradients', CORE + 'parameter_core.py'), ('Param.gradient', 'paramz/param.py')],
  ['gradient of every node and leaf', 'gradients handed to the optimizer'])
p('C19', 'Deferred initialization gives the same model as immediate initialization',
  "Creating, linking and renaming the parts of a hierarchy without initialization runs no parameters-changed callback, and its nodes refuse assignments by index until it is initialized; initializing it then gives the same structure, values, constraints, names and derived state as building it with immediate initialization. "
  "Switching updates off, initializing, assigning all loaded parameters and switching updates on reproduces the saved model without running callbacks in between.",
  ['histories', 'programs'], 'all build programs (order of linking, constraining, nested construction inside constructors) with initialization at any point',
  'Tests defer the initialization of one small model.',
  ['paramz/parameterized.py', CORE + 'parameter_core.py', CORE + 'updateable.py'],
  [('ParametersChangedMeta.__call__', 'paramz/parameterized.py'), ('initialize_parameter', CORE + 'parameter_core.py')],
  ['callbacks', 'raised exceptions', 'full projected state'])
p('C20', 'Reporting an optimization does not disturb it and reports what happened',
  "With messages on, an optimization evaluates, ends at and records the same as without, reports on each update the objective that was current then, and removes its observer from the model when it ends, also by an error. "
  "The objective values logged by scaled conjugate gradients never increase, start with the initial objective, end with the objective at the returned parameters, and iterations and evaluations stay within what was allowed and are counted right.",
  ['histories', 'fault_sequences', 'inputs'], 'all objective landscapes, iteration limits, error positions and optimizers',
  'Tests look at the printed text of a few runs.',
  ['paramz/optimization/verbose_optimization.py', 'paramz/optimization/scg.py', 'paramz/model.py'],
  [('VerboseOptimization', 'paramz/optimization/verbose_optimization.py'), ('SCG', 'paramz/optimization/scg.py')],
  ['observers of the model', 'trace and evaluation counts', 'sequence of evaluated points'])
p('C21', 'Printed tables state the current values, constraints and names',
  "The printed summary of a node lists every leaf below it once, in order, with its dotted name, its value if it is a single number and otherwise its shape, and exactly the constraints any of its elements carry, bracketed unless they hold for all elements; the detailed table of a leaf, selection or regular expression lists every selected element with its index, value and exactly its constraints. "
  "A model's header states the name, objective, total and free parameter counts and the update state. Saving a node writes the values of each leaf below it, in its shape and under its dotted name, and the flat array.",
  ['histories', 'inputs'], 'all reachable hierarchies and constraint states, all selections',
  'Tests only call the printing functions.',
  ['paramz/parameterized.py', 'paramz/param.py', 'paramz/model.py', CORE + 'index_operations.py'],
  [('__str__/_repr_html_/get_property_string', 'paramz/parameterized.py'), ('Param.__str__/_repr_html_, ParamConcatenation.__str__', 'paramz/param.py'), ('Model.__str__', 'paramz/model.py')],
  ['str() and html representation'])
p('C22', 'Observable arrays announce every change and results are plain arrays',
  "Assigning to an observable array or a part of it, and every in-place arithmetic operation, changes exactly the addressed elements and then notifies its observers; reading, comparing and computing with it notifies nobody, and the results of operators, elementwise functions and reductions are plain arrays. "
  "A copy has the same contents and type but no observers and independent contents, and a pickled array comes back with the same contents.",
  ['histories', 'inputs'], 'all sequences of assignments, in-place operations, views, copies and pickles on arrays of any shape',
  'Tests notify through a few operations.',
  [CORE + 'observable_array.py', CORE + 'observable.py'],
  [('ObsAr.__setitem__, in-place operators, __array_wrap__, copy, __reduce__', CORE + 'observable_array.py')],
  ['values', 'notifications', 'types of results'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
