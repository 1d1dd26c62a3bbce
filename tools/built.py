# properties whose check is built: level note of each
BUILT = {
 "C01": "Exhaustive within the stated bounds; comparison to a plain-Python semantics with complex-step derivatives to 1e-9. Does not cover larger trees or other utility forms.",
 "C02": "Exhaustive within the stated bounds; comparison to a plain-Python semantics with complex-step derivatives to 1e-9. Utilities beyond exp() range are excluded for this engine.",
 "C03": "Every row order, part order, relabelling and integer weight vector within the bounds is run on the real containers and engines. The legacy container requires long tables to number alternatives in code order (it raises otherwise), so those orders are not explored there.",
 "C04": "Every slice, fold and ordered pair (triple in the thorough tier) of evaluations within the bounds is run on the real engines and compared by case to the independent semantics. Steps below one are not explored; the legacy bhhh() takes no case range.",
 "C06": "Every history of one edit after any of 11 evaluations, and every ordered pair of edits with an evaluation between, is run on real models of both engines and compared with the semantics of the final definition. Edits of raw networkx attribute dictionaries and of tables behind the container are outside the bounds.",
 "C07": "Every sequence of the enumerated edits up to the stated depth, with and without queries between them, is run on the real class and every reached tree compared with an independent graph. Cycles, removal of the root, bulk networkx methods and direct edits of attribute dictionaries are outside.",
 "C08": "Every ordered pair of 60 operations (and triples of a reduced set) is run on real models of both engines, and the whole table, the accessors and the log likelihood are compared with a reference table. Bounds of the values are finite sets; the initvalue left unchanged by set_value follows the code, as its description is ambiguous.",
 "C09": "Every constraint type, direction, sign and scale over the full grid, every text form of the name and number lists, every subset of up to three of eight constraints, and list/model edit histories of length two (three in part) are run on the real classes; soft penalties are differenced numerically. Values between grid points and reversed denominator bounds are outside.",
 "C10": "Every optimizer script and every sequence of likelihood outcomes within the bounds runs through the real estimation driver of both engines, and twelve real methods are stopped at every listed iteration count; the outcome is compared with an independent log likelihood. Feasibility under trust-constr is judged at convergence only, and penalised runs only for an honest report and restored settings.",
 "C11": "Every expression of up to two operators over 22 atoms (three and four over fewer) is built through the real operator overloads and compared with ordinary arithmetic at three points, then re-read from its text; every sequence of up to two (thorough three) in-place edits is replayed on free functions and on functions of a model. Long functions, shown over several lines, are re-read from __code__(); complex results and overflow are outside.",
 "C16": "Every list of members, engine assignment, sharing pattern and history within the bounds is run on the real ModelGroup and compared with sums over an independent reference of each member. Groups refuse BHHH matrices and case ranges, which are outside, as are members that disagree on which parameters are held fast.",
 "C17": "Every pair (and many triples) of class structures, membership models, sharing patterns, weights and case patterns within the bounds is run on the real LatentClassModel and compared with an independent mixture whose derivatives are taken by complex steps; parameter histories of length two (thorough three) go through the model and its constituents. Classes over Datasets (numba engine), which the class does not support in this version, are outside.",
 "C18": "Every covariance, reference-likelihood, cross-validation and report/edit history within the bounds is run on the real models of both engines and compared with definitions evaluated by an independent semantics (numerical second derivatives, bordered systems for active constraints). Nil and constants-only references are refused over Datasets and are checked on the other engines only.",
 "C14": "Every sparsity pattern, row order and operation within the bounds is run on the real constructors and containers and compared by coordinates with a dictionary of values. Missing values inside present rows, integers beyond 2**53 in sparse data, and parts left without cases are outside.",
 "C15": "Every data pattern, check, repair and pair of repairs within the bounds is run on the real doctor and compared with a plain table of the anomalies; models and groups are also evaluated afterwards against an independent log likelihood. Choice tables with columns for nests, negative weights and infinite values are outside.",
 "C12": "Every component subset, feature pair, format and crash point within the bounds is run on the real save and load code; crashes are injected below the C library's file calls, so a save made in other steps is explored just the same. Reordering of writes by the file system, directory zarr stores cut short (absent parts are fill values by that format), inject_feathers from an incomplete collection, and HDF5 and OMX files written by other libraries are outside.",
 "C13": "Every sparsity pattern, row order, form of input, and history of conversions and rescalings within the bounds is run on the real container and compared with plain dictionaries by case and alternative; the frames handed in and the containers a part was taken from are compared before and after. Alternatives that appear nowhere in any table, tables with repeated rows and the combination of containers by concatenation are outside.",
 "C05": "The real parallel regions of both engines run under a scheduler of our own in place of the OpenMP and numba runtimes; every single switch at every scheduling point, and every pair in part, is executed and compared bit by bit with one thread. For the Cython engine every memory access is also reported (the same C code, compiled with -fsanitize=thread and linked to our own recorder) and no conflicting access may occur, which makes other interleavings equivalent; for numba only the explored schedules count. Weak memory effects and dynamic schedules of numba are outside.",
}

NA = {}
