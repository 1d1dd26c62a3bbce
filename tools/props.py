NUMBA_M = "larch/numba/model.py"
PROPS.append(P(
    "C01", "Array engine evaluates nested logit with size terms as the theory says",
    "For every well-formed model (utility functions, size terms, tree of nests with shared or own dissimilarity parameters, availability, choice and weight data), the array-based engine's probabilities, log likelihood, casewise values, gradient, BHHH matrix, utilities and logsums equal the values defined by nested logit theory. Probabilities of available alternatives sum to one in every case that has any, an unavailable alternative has probability exactly zero, and parameters held fast have no gradient.",
    ["inputs", "configurations"],
    "every nesting structure (up to 2-3 nests over 2-4 alternatives), availability subset, chosen alternative or split choice, utility form, value regime (including huge utilities), data layout and held-fast subset within the bounds",
    "The tests evaluate a handful of data sets with one tree each at one or two parameter vectors; they cannot cover all trees, availability patterns and degenerate nests.",
    [NUMBA_M, "larch/numba/data_arrays.py", "larch/numba/cascading.py", "larch/model/tree.py"],
    [M("kernel: utilities, probabilities, loglike and derivatives", "larch/numba/model.py _numba_utility_to_loglike and master kernels"),
     M("tree slots and edges", "larch/model/tree.py edge_slot_arrays / node_slot_arrays"),
     M("data preparation", "larch/numba/data_arrays.py prepare_data")],
    [("data arrays", "co, ca/ce, availability, choice and weight arrays read by the kernel"), ("tree slots", "edges from the alternatives to the root")],
    "results of loglike, d_loglike, bhhh, probability, utility, logsums, quantity", None, True,
    "explicit enumeration of model structures x case patterns; every state replayed on the real engine against an executable semantics",
    "Exhaustive within the stated bounds; comparison to a plain-Python semantics with complex-step derivatives to 1e-9. Does not cover larger trees or other utility forms."))

PROPS.append(P(
    "C02", "Compiled engine evaluates nested logit with size terms as the theory says",
    "For every well-formed model and data, the compiled engine's probabilities, log likelihood, casewise values, gradient, BHHH matrix, derivatives of probability, utilities and logsums equal the values of nested logit theory, with or without the request to keep intermediate arrays, for any number of threads, and also when evaluated at parameter values given in the call. Results given as data frames carry the right case and alternative labels.",
    ["inputs", "configurations"],
    "every nesting structure (up to 2-3 nests over 2-4 alternatives), availability subset, chosen alternative or split choice, utility form, value regime, data layout, weight scaling and held-fast subset within the bounds",
    "The tests evaluate a few real data sets with one tree each; unusual trees, empty nests, shared parameters, split choices and the intermediate results are not compared to the theory.",
    ["larch/model/nl.pyx", "larch/model/mnl.pyx", "larch/model/controller.pyx", "larch/dataframes.pyx", "larch/model/tree_struct.pyx"],
    [M("nested kernel", "larch/model/nl.pyx nl_d_log_likelihood_from_dataframes_all_rows"), M("MNL kernel", "larch/model/mnl.pyx mnl_d_log_likelihood_from_dataframes_all_rows"),
     M("utility computation", "larch/dataframes.pyx _compute_d_utility_onecase")],
    [("computational arrays", "contiguous co/ca/ce/av/ch/wt arrays held by the data container")],
    "results of loglike, loglike2, loglike2_bhhh, probability, d_probability, utility, exputility, logsums", None, True,
    "explicit enumeration of model structures x case patterns; every state replayed on the real engine against an executable semantics",
    "Exhaustive within the stated bounds; comparison to a plain-Python semantics with complex-step derivatives to 1e-9. Utilities beyond exp() range are excluded for this engine."))

PROPS.append(P(
    "C03", "Results depend on the data content only, not on its layout or the engine",
    "A model gives the same log likelihood, derivatives and probabilities (matched by case id and alternative id) however the same data are laid out: as a wide table per case, a dense or sparse long table, in any row order, with any numbering of cases and alternatives, through either data container and with either engine. Giving a case an integer weight is the same as repeating that case.",
    ["inputs", "configurations"],
    "every permutation of the rows of small long and wide tables, every relabelling of cases and alternatives in a small code set, every pair of layouts, containers and engines, every small integer weight vector",
    "Tests use sorted data files in one layout each; a misalignment only shows when rows arrive in another order or when ids are not consecutive.",
    ["larch/dataframes.pyx", "larch/dataset/construct.py", "larch/dataset/__init__.py", "larch/numba/data_arrays.py", "larch/numba/fast_mapping.py", "larch/numba/model.py"],
    [M("sorting and unstacking of tables", "larch/dataframes.pyx data_ca/data_ce/data_ch/data_av/data_wt setters"), M("dataset construction", "larch/dataset construct from_idco/from_idca/from_idce")],
    [("case and alternative indexes", "which row of each array belongs to which case and alternative")],
    "loglike, gradient and probability by case id and alternative id", None, False,
    "exhaustive enumeration of row permutations, relabellings and layout/engine pairs", ""))

PROPS.append(P(
    "C04", "Evaluating parts of the cases adds up to evaluating all of them",
    "For any start, stop and step of a case range, either engine evaluates exactly the cases that the same slice of the case list selects, and the results of any partition of the cases (log likelihood, gradient, BHHH) add up to the full results, with casewise values and probabilities being the concatenated parts. Evaluating a part never changes what later evaluations return, nor what is remembered as the best result.",
    ["inputs", "histories"],
    "every slice (start, stop, step incl. omitted, negative and beyond the end) of up to 6 cases, every cross validation subset, every ordered pair of evaluations of different parts",
    "Tests use one or two slices of a big file; off-by-one errors at the ends and buffers left over from a smaller evaluation depend on the exact slice and order of calls.",
    ["larch/numba/model.py", "larch/model/mnl.pyx", "larch/model/nl.pyx", "larch/model/controller.pyx"],
    [M("case slicing", "larch/numba/model.py _loglike_runner and WorkArrays"), M("case iteration", "larch/model/nl.pyx, mnl.pyx prange over start/stop/step, leave_out/keep_only")],
    [("work arrays", "buffers reused by successive evaluations")],
    "loglike(start_case, stop_case, step_case), casewise results", None, False,
    "exhaustive enumeration of slices and evaluation sequences on the real engines", ""))

PROPS.append(P(
    "C05", "Results do not depend on thread count or schedule",
    "For any number of threads and any assignment and ordering of cases to threads, either engine computes the same casewise results bit for bit and the same totals up to floating point summation order. Work on one case never reads or writes memory that belongs to another case or to another thread.",
    ["schedules", "configurations"],
    "every distribution of up to 5 cases over up to 4 threads, every order of the threads, and every single switch (pairs in part) between threads at every scheduling point, for nested and non-nested models with and without derivatives and each choice of kept results",
    "The tests run one fixed thread count and whatever schedule the operating system picks; a shared buffer is rarely hit and shows as a tiny numeric difference.",
    ["larch/model/mnl.pyx", "larch/model/nl.pyx", "larch/numba/model.py"],
    [M("per-thread buffers", "larch/model/nl.pyx thread_number-indexed arrays"), M("per-case kernel", "larch/numba/model.py guvectorized kernels")],
    [("thread buffers", "utility, probability and derivative buffers indexed by thread")],
    "loglike2_bhhh and casewise results for each schedule", None, False,
    "stateless exploration of thread schedules of the real parallel region under a controlled scheduler", ""))

PROPS.append(P(
    "C06", "A model always evaluates its current definition and parameter values",
    "After any history of edits (utility, size and nesting terms, parameter values, fixed flags and bounds, choice, availability and weight declarations, data) and evaluations in any order, a model returns exactly what a fresh model with the same final definition, data and parameter values returns. No evaluation changes the definition or the parameter values, except that values given in the call become the current ones.",
    ["histories"],
    "every history evaluation - edit - evaluation - edit - evaluation out of about 60 edits and 11 evaluations, for both engines",
    "Tests build a model, load it and estimate once; stale caches only show after an edit that follows a particular evaluation.",
    ["larch/model/controller.pyx", "larch/model/abstract_model.pyx", "larch/numba/model.py", "larch/model/linear.pyx", "larch/model/tree.py"],
    [M("invalidation on edit", "larch/model/controller.pyx mangle / unmangle; larch/numba/model.py mangle"), M("edit notification", "larch/model/linear.pyx, larch/util/touch_notifier.py")],
    [("prepared arrays", "work arrays, data arrays and compiled slots derived from the definition")],
    "results of every evaluation method after the history", None, False,
    "explicit-state exploration of operation histories on the real object against a rebuilt fresh object", ""))

PROPS.append(P(
    "C07", "Nesting tree stays consistent under any sequence of edits",
    "After any sequence of adding and removing nodes, nests and edges and of queries in between, a nesting tree reports node order, ancestors, descendants, elemental alternatives and nest arrays that describe exactly the current graph: every node is reachable from the root, children precede parents in the standard order, and elementals come first. Copies, subgraphs and pickled trees are equivalent and independent of the original.",
    ["histories"],
    "every sequence of up to 4-5 edit and query operations over up to 3 alternatives and 3 nests",
    "Tests build a few trees once; cached orders only go stale when queries and edits alternate.",
    ["larch/model/tree.py", "larch/model/tree_struct.pyx", "larch/util/touch_notifier.py"],
    [M("lazy caches cleared on edit", "larch/model/tree.py NestingTree._clear_caches")],
    [("cached orders", "standard sort, slots and edge arrays")],
    "public queries of the tree", None, False,
    "explicit-state exploration of operation sequences on the real tree against a reference graph", ""))

PROPS.append(P(
    "C08", "Parameter table keeps values, bounds and flags of every parameter",
    "After any sequence of setting, locking, unlocking, bounding and removing parameters and of edits that add or drop them from the model, the parameter table holds for each parameter exactly what was last set, new parameters start at their documented defaults, and other parameters are untouched. Rejected or unknown names leave the table as it was.",
    ["histories"],
    "every sequence of up to 3-4 operations out of about 20 over 3 parameters",
    "Tests set a few parameters once; interactions such as setting values by array or mapping after adding and locking parameters are not sampled.",
    ["larch/model/parameter_frame.pyx", "larch/model/abstract_model.pyx", "larch/model/controller.pyx", "larch/numba/model.py"],
    [M("parameter frame", "larch/model/parameter_frame.pyx set_value / set_values / lock_value / unmangle")],
    [("parameter frame", "value, initvalue, nullvalue, minimum, maximum, holdfast, best")],
    "the parameter frame and get_value", None, False,
    "explicit-state exploration of operation sequences against a reference table", ""))

PROPS.append(P(
    "C09", "Parameter constraints mean the inequality they state",
    "For every declared parameter constraint (ratio bound, order bound, fixed bound), in any combination, and every parameter vector, the constraint's value is non-negative exactly when the stated inequality holds, its gradient is the derivative of its value, it is binding exactly at its stated limit, its forms for the optimizers describe the same feasible set, and its soft penalty is never a reward, vanishes for feasible vectors within log(2)/sharpness, and grows with the violation. A constraint written as text means what it says. Constraints keep referring to their parameters after any sequence of edits of the constraint list and of the model.",
    ["inputs", "configurations"],
    "every constraint type, direction and scale over a full grid of parameter vectors including the boundary, and every subset of constraints",
    "Tests check two constraints in one estimation each.",
    ["larch/model/constraints.py", "larch/numba/model.py", "larch/model/model.py"],
    [M("constraint classes", "larch/model/constraints.py RatioBound / OrderingBound / FixedBound")],
    [], "fun, jac, get_linear_constraints, penalties", None, False,
    "exhaustive enumeration of constraint configurations and grid points", ""))

PROPS.append(P(
    "C10", "Estimation reports what it really reached, whatever the optimizer does",
    "Whatever steps, stops or failures the numerical optimizer goes through, when an estimation returns the model's parameters are those of the reported solution, and the reported log likelihood and slopes are the model's at those values (over the cases the estimation used). Parameters held fast have not moved, neither in the model nor in the reported solution; bounds are respected by the methods that honour them. BHHH never steps to a worse (or undefined) log likelihood, so it ends no worse than it began, its message and tolerance are truthful, and when it cannot improve, the next method starts from the best values it reached. The remembered best log likelihood is the greatest seen over all the data and belongs to the best values stored with it. Constraint intensity and sharpness are what they were before. When the optimizer raises or is interrupted, the error propagates and the model is left with a valid, evaluated parameter vector, and evaluates correctly afterwards.",
    ["fault_sequences", "histories"],
    "every script of up to 3-4 optimizer actions (value, slopes, callback at grid points) ended by success or failure at any evaluated point or by an exception, every sequence of up to 4-6 outcomes of the likelihoods BHHH asks for, and 12 real methods stopped after 1-5 iterations, on both engines and each held-fast subset",
    "Tests run real optimizers to convergence on good problems; they never stop midway or fail.",
    ["larch/model/optimization.py", "larch/numba/optimization.py", "larch/model/abstract_model.pyx", "larch/numba/model.py"],
    [M("estimation driver", "larch/model/abstract_model.pyx maximize_loglike, larch/numba/model.py maximize_loglike"), M("best-so-far memory", "larch/model/abstract_model.pyx _check_if_best")],
    [("best values", "parameter vector with the highest log likelihood seen")],
    "parameters, reported log likelihood and result object", None, False,
    "exhaustive enumeration of optimizer scripts (stub optimizer under control) on the real estimation driver", ""))

PROPS.append(P(
    "C11", "Utility expressions mean the algebra they are written in",
    "Any expression built from parameters, data terms, numbers and the supported operators evaluates to the value ordinary arithmetic gives (combinations that are not supported are refused with an error), its text form evaluates back to an equal expression, and equality and hashing agree. In-place edits of an expression that belongs to a model take effect in that model, and in no other place the expression was taken from or copied to.",
    ["programs", "histories"],
    "every expression of up to two operators (three over fewer atoms) from 22 atoms and 12 operators, every sequence of up to 2-3 of 25 in-place edits of free functions and of functions of a model, every way of sharing a function between two places",
    "Tests check selected expressions; precedence and sign errors depend on the particular combination.",
    ["larch/model/linear.pyx", "larch/model/linear_math.py", "larch/roles.py"],
    [M("operator overloads", "larch/model/linear.pyx ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C"), M("parameter arithmetic", "larch/model/linear_math.py")],
    [], "value(), repr/eval, equality", None, False,
    "exhaustive enumeration of expression programs with an independent evaluator as oracle", ""))

PROPS.append(P(
    "C12", "Saved models and data come back equivalent, or not at all",
    "A model that is pickled and read back, copied, given to Model(model=...), or saved in a file or workbook and loaded from there has the same utility functions, nests, parameter values, bounds, holdfasts, constraints, choice, availability and weight definitions, and evaluates identically on the same data; a copy shares nothing with its original. Data saved as a feather collection or a (compressed) dump, whole or in part, comes back with the same values, case ids, alternatives, names and weight normalization, as do arrays saved as zarr. Saving leaves the source unchanged. If a save is interrupted at any point, over nothing or over an older save, or a file is cut short, loading reports an error or gives one complete saved version, never a mixture or other content.",
    ["crash_points", "inputs", "configurations"],
    "every subset of data components and every pair of model features for each format; every file operation of a save as a crash point, with torn writes; every prefix of every file",
    "Tests save one model once, without optional parts and without interruption.",
    ["larch/dataframes.pyx", "larch/model/controller.pyx", "larch/numba/model.py", "larch/model/linear.pyx", "larch/model/model.py", "larch/model/tree.py", "larch/util/excel.py", "larch/dataset/__init__.py"],
    [M("pickling and cloning", "larch/model/controller.pyx __getstate__/__setstate__, Model.copy"), M("table files", "larch/dataframes.pyx to_feathers/from_feathers, dump/load")],
    [("files on disk", "feather, pickle, joblib, xlsx and zarr parts of a saved object")],
    "the reloaded object's evaluation", None, False,
    "exhaustive enumeration of component subsets and crash points of the real save operations", ""))

PROPS.append(P(
    "C13", "Data container conversions keep every value with its case and alternative",
    "Converting case, alternative, choice, availability and weight data between wide, dense long and sparse long form, splitting, selecting and rescaling them in the data container keeps each value attached to its case id and alternative id, loses nothing that the target form can hold, and leaves the caller's input data unmodified.",
    ["inputs", "histories"],
    "every sparsity pattern of 2-3 cases by 3 alternatives, row orders and id types, every form of giving choices, availability and weights, and histories of up to 3 (4) conversions, selections, splits and rescalings",
    "Tests convert one complete data set; misalignment shows only with particular sparsity patterns or orders.",
    ["larch/dataframes.pyx", "larch/util/dataframe.py", "larch/dataset/__init__.py"],
    [M("conversions", "larch/dataframes.pyx data_ca_as_ce, data_ce_as_ca, data_*_as_ce, split, selector_co, scale_weights")],
    [("index maps", "case index, alternative index and reverse maps of sparse data")],
    "converted frames by case id and alternative id", None, False,
    "exhaustive enumeration of sparsity patterns, row orders and conversion chains", ""))

PROPS.append(P(
    "C14", "Dataset construction and reshaping keep every value at its coordinates",
    "Building a Dataset from dense or sparse long tables (from_idca, from_idce, with any row and column order, level types, index names, alternative names, fill values, and cases or alternatives that lack rows), and reshaping it (sparse to dense, splitting variables constant within cases, querying and selecting cases, dissolving dimensions, merging, alternative names) keeps each value at its case and alternative coordinates; variables are treated as constant within cases exactly when they are; absent rows are reported unavailable and never show another row's values. The same holds for the classic DataFrames container: its views of case and alternative data in idca, idce and combined form, and every split of it by cases, in parts and parts of parts.",
    ["inputs", "histories"],
    "every sparsity pattern of up to 3 cases by 3 alternatives including cases and alternatives without rows, every row order of the smaller ones, every subset of cases queried or selected, every constant or varying pattern of values over a small domain, every pair of join and compatibility options when merging, every split into the given proportions nested twice",
    "Tests construct complete and sorted tables only.",
    ["larch/dataset/__init__.py", "larch/dataset/construct.py", "larch/dataset/flow.py", "larch/numba/data_arrays.py", "larch/dataframes.pyx"],
    [M("construction", "larch/dataset construct.from_idca / from_idce"), M("sparse to dense", "larch/numba/data_arrays.py ce_to_dense and larch/dataset/flow.py kernels"), M("classic container", "larch/dataframes.pyx DataFrames views and split")],
    [("case pointers", "first row of each case in sparse data")],
    "values by coordinates", None, False,
    "exhaustive enumeration of sparsity patterns, row orders and operation chains", ""))

PROPS.append(P(
    "C15", "Data repair finds exactly the bad rows and repairs them as documented",
    "For data containers, models and groups of models, the doctor and each of its checks report a problem exactly when the data have one (chosen but unavailable alternatives, chosen alternatives of zero size, cases without a choice but with weight, missing weights, missing case data, case data of low variance), give exactly the counts and the first example rows asked for, and the requested repair removes the problem as documented, changes nothing else in the tables, arrays and later log likelihoods, and does nothing when applied again. Absent components are no problem.",
    ["inputs", "histories"],
    "every availability, choice and weight pattern over 2 cases by 2 alternatives under every check and repair mode, every ordered pair of checks and repairs, and every combination of repairs of the complete doctor over patterns of 3 cases by 3 alternatives",
    "Tests repair one or two sample anomalies.",
    ["larch/troubleshooting.py", "larch/model/model.py", "larch/model/model_group.py", "larch/dataframes.pyx"],
    [M("doctor", "larch/troubleshooting.py doctor, chosen_but_not_available and the other checks"), M("weights", "larch/dataframes.pyx autoscale_weights, get_zero_quantity_ca")],
    [], "problem tables and repaired data", None, False,
    "exhaustive enumeration of anomaly patterns and repair sequences", ""))

PROPS.append(P(
    "C16", "A group of models evaluates to the sum of its members",
    "For any group of models sharing some parameters, the group's log likelihood, null log likelihood, gradient, number of cases and weight are the sums of the members' at the group's parameter values, matched by parameter name, after any sequence of parameter changes through the group or a member and of adding, replacing, changing and removing members; parameters the group holds fast have no gradient.",
    ["histories", "configurations"],
    "every list of up to 3 of 6 kinds of members and engines, every sharing pattern of 3 names over 2-3 members, every sequence of up to 2-3 of 21 operations",
    "Tests group two models once.",
    ["larch/model/model_group.py"],
    [M("group evaluation", "larch/model/model_group.py loglike / d_loglike / bhhh / set_values")],
    [], "group results vs members", None, False,
    "explicit-state exploration of operation histories against independently evaluated members", ""))

PROPS.append(P(
    "C17", "Latent class models are the mixture of their classes",
    "A latent class model's probabilities are the class-membership-probability weighted average of the class models' probabilities, its log likelihood is the weighted sum of their logs, and its gradient and BHHH matrix follow from the derivatives of that, for every availability, choice and parameter sharing pattern, after any sequence of parameter changes through the model or its constituents.",
    ["inputs", "configurations"],
    "every sharing pattern of parameters across 2-3 classes, availability subset, choice and weight pattern within bounds",
    "Tests evaluate one two-class model.",
    ["larch/model/latentclass.py"],
    [M("mixture", "larch/model/latentclass.py LatentClassModel.loglike2_bhhh / probability")],
    [], "probability, loglike, gradient", None, False,
    "explicit enumeration against an executable semantics", ""))

PROPS.append(P(
    "C18", "Reported statistics describe the current model and do not disturb it",
    "Null, nil and constants-only log likelihoods, rho-squares, standard errors, covariance matrices, t statistics and summary tables equal their definitions applied to the current data and parameter values, in whatever order they are requested, and requesting them leaves parameter values, best values and later results unchanged.",
    ["histories"],
    "every ordered sequence of up to 3 reports and edits out of about 15, for both engines",
    "Tests request one report after one estimation.",
    ["larch/model/abstract_model.pyx", "larch/model/controller.pyx", "larch/model/model.py", "larch/numba/model.py"],
    [M("cached statistics", "larch/model/abstract_model.pyx loglike_null / loglike_nil / calculate_parameter_covariance")],
    [("cached log likelihoods", "null, nil, constants-only and best values")],
    "reports and later evaluations", None, False,
    "explicit-state exploration of report/edit histories against definitions", ""))
