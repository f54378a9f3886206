A = "src/gbdt_algo/"; D = "src/data_store/"; L = "src/loss_func/"; U = "src/utils/"; Y = "src/python/"

prop("C01", "Concurrent tasks never race on memory",
 "While training, scoring or loading data with several worker threads, no two tasks that may run at the same time access the same piece of memory with at least one of them writing it, unless every such access is made while holding one common lock. This covers per-sample scores, gradients and partial sums, shared random number state, column storage and the column table.",
 ["schedules", "configurations"], "every interleaving of the worker threads, every thread count, every data size and grouping",
 "the tests run a handful of schedules on tiny data and cannot observe a race that happens not to bite; they never run with a race detector",
 [A+"tree_algo.cc", A+"compute_tree_scores.cc", A+"utils.cc", L+"loss_func_pointwise.cc", L+"loss_func_pairwise.cc", D+"tsv_data_store.cc", D+"flatfiles_data_store.cc", U+"subsampling.cc"],
 [("per-task slots and disjoint slices handed to every enqueued task", A+"tree_algo.cc"), ("mutex around the column table", D+"flatfiles_data_store.cc")])
prop("C02", "Training is reproducible for a given seed and thread count",
 "Training twice on the same data with the same configuration, seed and number of threads produces the same model (apart from the recorded time), however the worker threads are scheduled and whatever was trained earlier in the process. Every random draw comes from the one generator that is seeded with the user's seed before each training starts, or from a generator seeded from it, draws happen in a fixed order, and no floating-point total or best-split choice depends on task completion order, clocks or memory addresses.",
 ["schedules", "histories", "configurations"], "every schedule, every earlier history of the process, every configuration",
 "a test compares at most one pair of runs; nondeterminism that depends on timing shows up rarely and only with several groups or threads",
 [U+"subsampling.cc", A+"tree_algo.cc", L+"loss_func_pairwise.cc", "src/main.cc", Y+"train_gbdt_py.cc"],
 [("seeding of the shared generator", U+"subsampling.cc"), ("ordered reduction of per-slice totals", A+"tree_algo.cc")])
prop("C03", "Every task handed to the thread pool runs exactly once",
 "Each task handed to the thread pool is executed exactly once by some worker, and destroying the pool returns only after all of them have finished and all workers have exited. No schedule loses a wake-up, runs a task twice, drops a queued task at shutdown, touches the queue or the shutdown flag without the pool's lock, runs tasks while holding that lock, or deadlocks.",
 ["schedules"], "every interleaving of producers, workers and the destructor",
 "no unit test of the pool exists; users of the pool sample a few schedules and a lost wake-up or dropped task is rare",
 [U+"threadpool.cc", U+"threadpool.h"],
 [("worker loop, enqueue and shutdown under one mutex and condition variable", U+"threadpool.cc")],
 [("task queue and shutdown flag", "pending work; set once when the pool is being destroyed", U+"threadpool.h")])
prop("C04", "Task results are used only after the tasks finished; captures outlive them",
 "A thread that hands work to a pool reads or modifies what that work produces only after the pool has been joined (or the specific result has been awaited). Everything a task refers to stays alive until the task has finished, and no callback that outlives a call refers to that call's local variables.",
 ["schedules"], "every schedule in which tasks are still running when the submitting code continues",
 "on tiny inputs tasks finish before anyone looks; use of unfinished or dead data is a schedule-dependent failure",
 [A+"tree_algo.cc", A+"compute_tree_scores.cc", A+"utils.cc", L+"loss_func_pointwise.cc", L+"loss_func_pairwise.cc", D+"tsv_data_store.cc"],
 [("pool scoped inside the lifetime of everything its tasks capture", A+"tree_algo.cc")])
prop("C05", "Lazily loaded columns are safe under concurrent requests",
 "When several threads ask a lazily loading data store for columns at the same time, every look-up and change of the column table happens under the store's lock, and the store never deadlocks on itself. Once a column has been returned to some caller it is never replaced, moved or destroyed for the rest of the store's life, even if several threads load the same column at once.",
 ["schedules", "histories"], "every interleaving of concurrent column requests",
 "the tests load columns one at a time from one thread",
 [D+"flatfiles_data_store.cc", D+"flatfiles_data_store.h"], [("lock-guarded insert-if-absent", D+"flatfiles_data_store.cc")],
 [("column table", "name to loaded column", D+"data_store.h")])
prop("C06", "Invalid training parameters are rejected before any work",
 "Training reports an invalid-argument error, without touching the output model, whenever the number of trees or leaves is not positive or a row or feature sampling rate is not a number in (0, 1]. Parameters in range are accepted.",
 ["configurations"], "every value of every validated parameter, including NaN, infinities and the interval ends",
 "no test calls training with an invalid parameter",
 [A+"utils.cc", A+"gbdt_algo.cc"], [("parameter validation as the first step of training", A+"gbdt_algo.cc")])
prop("C07", "Failures are never swallowed",
 "Whenever a step of loading, parsing, training, scoring or serialising reports a failure, the operation that needed the step reports a failure to its own caller (or terminates with a diagnostic), and never goes on to report success or to use the result of the failed step.",
 ["inputs", "fault_sequences"], "every operation, every step that can fail, every error code",
 "tests exercise success paths and two or three missing-file cases",
 [A+"gbdt_algo.cc", A+"evaluation.cc", A+"utils.cc", D+"tsv_data_store.cc", D+"tsv_block.cc", D+"data_store.cc", U+"json_utils.cc", Y+"train_gbdt_py.cc", Y+"forest_py.cc", Y+"datastore_py.cc", "src/main.cc", L+"loss_func_logloss.cc", L+"loss_func_huberized_hinge.cc"],
 [("status propagation", A+"gbdt_algo.cc"), ("per-column and per-block statuses checked", D+"tsv_data_store.cc")])
prop("C08", "Every library error reaches Python as an exception",
 "For every error code the library can report, the Python bindings raise an exception that carries the error message; only success raises nothing. Invalid-argument and out-of-range errors map to the corresponding Python exception kinds (ValueError, IndexError).",
 ["inputs"], "every status code",
 "no test exercises the bindings",
 [Y+"gbdt_py_base.cc"], [("exhaustive mapping from code to exception", Y+"gbdt_py_base.cc")])
prop("C09", "Success is reported only after output is completely written",
 "When the program reports that a score file, model file or feature-importance file was written, the whole content had been accepted by the output stream, including the final flush. A file that cannot be opened, written or flushed leads to a reported failure (or termination with a diagnostic).",
 ["fault_sequences"], "every point at which opening, writing or flushing can fail",
 "tests never write to a failing device",
 [A+"evaluation.cc", U+"utils.cc", "src/main.cc"], [("stream state checked after the last write", A+"evaluation.cc")])
prop("C10", "Absent objects and bad indices are reported, never dereferenced",
 "A column, loss function, data store or forest that may be absent (unknown name, wrong type, empty store, missing argument) is tested before it is used, and the operation then reports an error. An element index handed in from Python is checked against the column length before the element is read.",
 ["inputs", "histories"], "every name, every order of calls on an empty or populated store, every index",
 "tests only look up columns that exist and never drive the bindings",
 [Y+"column_py.cc", Y+"datastore_py.cc", Y+"train_gbdt_py.cc", Y+"forest_py.cc", A+"utils.cc", A+"compute_tree_scores.cc", "src/main.cc", D+"data_store.cc", D+"flatfiles_data_store.cc"],
 [("null tests before use", Y+"train_gbdt_py.cc")])
prop("C11", "A column is only ever accessed as the kind it really is",
 "A column created as string, bucketized float or raw float carries that type tag for life, and code treats a column as one of these kinds only where its tag is known to be that kind. Typed look-ups return null on a mismatch, and splitting or searching dispatches by the tag.",
 ["inputs", "configurations"], "every column kind reaching every typed access",
 "tests only use matching kinds; a mismatched cast is silent undefined behaviour",
 [D+"column.cc", D+"data_store.cc", A+"split_algo.cc", A+"tree_algo.cc", D+"tsv_data_store.cc"], [("type tag tested before each downcast", D+"data_store.cc")])
prop("C12", "A data store holds uniquely named columns of equal length",
 "Adding a column whose name is already present, or whose length differs from the columns already in the store, is refused with an error and leaves the store unchanged, whatever the lengths (including zero). Every other column is stored under its own name; lazily loaded columns obey the same length rule, and removing a column affects only that column.",
 ["histories", "inputs"], "every sequence of adds, loads and removals",
 "one test adds three matching columns and one mismatch",
 [D+"data_store.cc", D+"flatfiles_data_store.cc"], [("name and row-count checks before insertion", D+"data_store.cc")])
prop("C13", "Column encoding loses nothing and preserves row order",
 "Row i of a string column decodes to exactly the i-th string that was added, whatever the number of distinct strings. Every row of a bucketized column gets exactly one code in input order, codes are never truncated by the 8/16/32-bit storage chosen, the bucket of a row contains its (finite) value, and buckets are numbered in increasing order of value.",
 ["inputs"], "every column content, in particular around 255/256/257 and 65535/65536/65537 distinct values",
 "tests use columns far from the width boundaries",
 [D+"column.cc", D+"column.h"], [("storage width chosen from the number of codes", D+"column.cc")])
prop("C14", "Missing values keep their reserved code everywhere",
 "A missing value (a NaN float, or the reserved missing string) is always encoded as code 0, and no other value ever gets code 0. Every consumer of a column recognises missing rows by this code, and NaN never becomes a bucket boundary for real values.",
 ["inputs"], "every column content and every mix of missing and present values",
 "tests sample a few columns with missing values",
 [D+"column.cc", D+"column.h", A+"split_algo.cc"], [("index 0 reserved at construction and at encoding", D+"column.cc")])
prop("C15", "Samples are routed by the split rule, in training and prediction alike",
 "At a numeric split a sample with a value goes left exactly when its bucketized value (the largest value of its bucket) is below the threshold, and a sample with a missing value goes left exactly when the split does not send missing values right. At a categorical split a sample goes left exactly when its category is listed in the split; categories unknown to the data never match anything.",
 ["inputs"], "every combination of missing flag, missing direction, value/threshold order (equality included) and category set",
 "tests check a few samples per split kind",
 [A+"split_algo.cc"], [("partition predicates", A+"split_algo.cc")])
prop("C16", "Partitioning keeps every sample exactly once",
 "Dividing a node's samples by a split only reorders them: the left and right parts together contain every sample of the node exactly once, left part first, and samples outside the node are untouched. A column that cannot be split sends everything to one side.",
 ["inputs"], "every sample set and split",
 "tests check a few fixed sample vectors",
 [A+"split_algo.cc", U+"vector_slice.h"], [("swap-based in-place partition with complementary slices", A+"split_algo.cc")])
prop("C17", "Split search obeys its guards and reports the true gain",
 "The reported gain of a candidate split is energy(left) + energy(right) - energy(node) for the two sides actually described, including the choice of side for missing values. A split is only ever proposed when its gain exceeds the configured minimum gain (and a small tolerance) and both sides exceed the configured minimum hessian, and no eligible candidate point with a larger gain was passed over.",
 ["inputs", "configurations"], "every histogram, every guard setting",
 "tests pin down a few histograms",
 [A+"split_algo.cc"], [("scan over candidate split points", A+"split_algo.cc")])
prop("C18", "A proposed split describes exactly the side it was scored on",
 "The threshold or category list written into a proposed split separates the same histogram entries that were accumulated on the left and on the right when its gain was computed, with the chosen direction for missing values. Categorical splits are searched over categories ordered by node score under the configured regularisation.",
 ["inputs"], "every feature, histogram and chosen split point",
 "tests compare a few resulting thresholds",
 [A+"split_algo.cc"], [("translation of split point to threshold/categories", A+"split_algo.cc")])
prop("C19", "Histograms and node totals weigh every sample exactly once",
 "The gradient and hessian totals of a node, and of each histogram entry of a feature at the node, are the sums over exactly the node's samples of sample weight times gradient and sample weight times hessian. Any entry with a non-zero gradient or hessian total takes part in the split search.",
 ["inputs"], "every sample set, weighting, feature and thread count",
 "tests use unit weights or single values",
 [A+"split_algo.cc", A+"tree_algo.cc", L+"gradient_data.h"], [("weighted accumulation", A+"tree_algo.cc")])
prop("C20", "Node scores use the regularised Newton formulas",
 "Wherever a tree node gets its score it is G/(H+lambda), and wherever a split is scored the energy is G*G/(H+lambda), with lambda the configured L2 regularisation, G and H the totals of that node's own samples, and 0 when H+lambda is 0.",
 ["inputs", "configurations"], "every totals pair and every lambda, including zero denominators",
 "tests use one or two lambdas and never a zero denominator",
 [L+"gradient_data.h", A+"tree_algo.cc", A+"split_algo.cc"], [("score and energy formulas", L+"gradient_data.h")])
prop("C21", "Trees respect the leaf limit and grow best-first",
 "A trained tree never has more leaves than configured. Growth always expands the pending leaf with the largest split gain, only along a split with positive gain, choosing the sampled feature of largest gain; each child is fitted on exactly its part of the parent's samples, and each node has both children or none.",
 ["inputs", "configurations"], "every data set, leaf limit and feature sampling rate",
 "tests grow two or three tiny trees",
 [A+"tree_algo.cc"], [("priority queue of pending leaves", A+"tree_algo.cc")])
prop("C22", "Boosting bookkeeping matches the forest that is returned",
 "After every iteration the running scores used for the next gradients equal what the forest built so far predicts: each new tree is shrunk by the learning rate exactly once before its scores are added, and the per-iteration constant is added once to the scores and once to the constant tree, unshrunk. The forest returned has one constant tree plus one tree per iteration plus the multi-node trees of the base forest.",
 ["inputs", "configurations"], "every data set, iteration count, shrinkage and base forest",
 "tests compare final predictions with a tolerance on one data set",
 [A+"gbdt_algo.cc", A+"compute_tree_scores.cc"], [("order of fit, shrink, constant and score update", A+"gbdt_algo.cc")])
prop("C23", "A warm start continues exactly from the base forest",
 "When a base forest is given, every one of its trees contributes its scores to the starting point exactly once, its multi-node trees are kept unchanged in the result and its single-node trees are folded into the constant tree. The base forest itself is not modified.",
 ["inputs"], "every base forest, including ones with several constant trees",
 "one test continues one forest",
 [A+"gbdt_algo.cc"], [("initialisation from the base forest", A+"gbdt_algo.cc")])
prop("C24", "A returned model is self-contained",
 "A model returned by successful training refers to categories by name and to features by name only: no node keeps internal category codes, no leaf keeps a split, and every categorical split lists the names of all its categories. Training that diverges (a non-finite constant) reports an error instead of returning a model as success.",
 ["inputs", "configurations"], "every trained model, every base forest",
 "one test inspects one printed model",
 [A+"gbdt_algo.cc", A+"tree_algo.cc"], [("cleanup of internal fields before returning", A+"gbdt_algo.cc")])
prop("C25", "Each loss returns its documented value, gradient and hessian",
 "For every target and score the squared, logistic, huberized-hinge and squared-hinge losses return a non-negative loss, the negative derivative of that loss, and a non-negative curvature equal to the documented formulas. They never return NaN or infinity for the gradient or curvature when target and score are finite.",
 ["inputs"], "all finite targets and scores, including extreme scores and the kinks",
 "tests evaluate each loss at a few moderate points",
 [L+"loss_func_math.cc"], [("closed-form loss formulas", L+"loss_func_math.cc")])
prop("C26", "Each configured loss name selects the loss it names",
 "Each supported loss name creates the loss it names: mse, logloss and huberized_hinge as pointwise losses on (target, score); auc, pairwise_logloss, gbrank and lambdamart as pairwise losses on the (target difference, score difference) of a pair, lambdamart alone re-ranking and weighting pairs by rank discount. Any other name creates nothing and is reported as an error by training.",
 ["configurations"], "every loss name, listed or not",
 "one test checks that the seven names create something",
 [L+"loss_func_factory.cc", L+"loss_func_auc.h", L+"loss_func_gbrank.h", L+"loss_func_pairwise_logloss.h", L+"loss_func_lambdamart.cc", "src/main.cc", Y+"train_gbdt_py.cc"],
 [("name to constructor table", L+"loss_func_factory.cc")])
prop("C27", "Pointwise gradients use each sample's own target, score and weight",
 "For a pointwise loss, the gradient and curvature of every sample are the loss derivatives at that sample's own target and its current score plus the fitted constant, written to that sample's slot for every sample. The constant is accumulated from the weighted totals of all samples by Newton steps, starting from zero, with a bounded number of steps.",
 ["inputs"], "every data set, weighting and thread count",
 "tests use two or three samples",
 [L+"loss_func_pointwise.cc"], [("slice-parallel evaluation and Newton loop", L+"loss_func_pointwise.cc")])
prop("C28", "Pairwise gradients come from true pairs within one group",
 "Every sampled pair consists of two rows of the same group with the first having the strictly larger target, and every such pair can be drawn. A pair adds its weighted gradient to the first row and subtracts the same amount from the second, adds equal curvature to both, and its weight is the product of both sample weights, the pair weight and the group rescaling; no pair is drawn from a group that has none.",
 ["inputs", "configurations"], "every grouping, target assignment and weighting, including groups with equal targets",
 "tests check totals for one or two tiny groups",
 [L+"loss_func_pairwise.cc", L+"group.cc", L+"group.h"], [("pair index arithmetic and gradient update", L+"group.cc")])
prop("C29", "Group assignment covers all rows",
 "For pairwise losses every row belongs to exactly one group: rows with equal group value share a group, rows with different values do not, and without a group column all rows form one group. A row whose group value is missing never corrupts another group or memory.",
 ["inputs"], "every group column, including missing group values",
 "tests use one or two groups without missing values",
 [L+"loss_func_pairwise.cc"], [("group construction from the encoded group column", L+"loss_func_pairwise.cc")])
prop("C30", "Binary losses only accept targets -1 and +1",
 "Training with the logistic or huberized-hinge loss reports an invalid-argument error whenever any training target is not exactly -1 or +1 (NaN included), and accepts data in which all targets are -1 or +1. Requested target binarisation maps positive targets to +1 and all others to -1.",
 ["inputs"], "every target vector; the offending row may be anywhere",
 "tests check one bad vector",
 [L+"loss_func_logloss.cc", L+"loss_func_huberized_hinge.cc", A+"utils.cc"], [("target validation loop over all rows", L+"loss_func_logloss.cc")])
prop("C31", "No input makes the library divide an integer by zero or index before start",
 "No combination of data, configuration and thread count makes the library perform an integer division or remainder by zero. In particular bucket construction works for every number of distinct values and every bucket count it is given, and work division works for every thread count.",
 ["inputs", "configurations"], "every divisor in the library, every data shape, every thread count",
 "the offending shapes (e.g. distinct values = buckets - 1) are not among the sampled ones",
 [D+"column.cc", U+"subsampling.cc", L+"group.cc"], [("divisors bounded away from zero", D+"column.cc")])
prop("C32", "Text rows land in the right columns or are rejected",
 "Each data row of a text file contributes exactly one value to every requested column, taken from the position at which that column's name appears in the header. A row with too few fields or a field that is neither a number nor a recognised missing marker makes loading fail, and recognised missing markers become missing values. A file that cannot be read to its end makes loading fail.",
 ["inputs"], "every file content, column selection and column order",
 "tests use two small files and one order",
 [D+"tsv_block.cc", D+"tsv_data_store.cc"], [("per-row, per-column append with bounds and format checks", D+"tsv_block.cc")])
prop("C33", "Blocks of a multi-file text data set are appended in order",
 "When a data set is given as several text files, the rows of the resulting columns are the rows of the first file, then the second, and so on, whichever file finishes parsing first. Only the first file's header line is skipped, every file is loaded exactly once, and a missing requested column is reported as an error.",
 ["schedules", "inputs"], "every completion order of the parsers, every number of files",
 "one test loads two small files",
 [D+"tsv_data_store.cc"], [("futures awaited in file order", D+"tsv_data_store.cc")])
prop("C34", "Work division covers every sample exactly once",
 "Dividing n samples into k parts yields consecutive, non-overlapping ranges that together cover all n samples exactly once, for every n and every k, with sizes differing by at most one. Samples outside the given range are never included.",
 ["inputs", "configurations"], "every n and k",
 "tests check two pairs (n, k)",
 [U+"subsampling.cc", U+"vector_slice.h"], [("quotient/remainder division", U+"subsampling.cc")])
prop("C35", "Sampling draws distinct in-range indices with the requested rate",
 "A random subsample of n items contains each index at most once, in increasing order and within range, and each index is included independently by one draw compared with the requested rate, so that a rate of one keeps every item. The row rate applies to rows and the feature rate to features.",
 ["inputs", "configurations"], "every n, rate and seed",
 "tests check one seed",
 [U+"subsampling.cc", A+"tree_algo.cc"], [("one uniform draw per index", U+"subsampling.cc")])
prop("C36", "Prediction is the sum of the leaf scores of all trees",
 "The score of a row is the sum, over every tree of the forest, of the score of the leaf the row is routed to, starting from zero; every tree and every row is counted exactly once. All features used by the forest are loaded (or scoring fails) before any score is computed.",
 ["inputs"], "every forest and data set, every thread count",
 "tests score two small trees",
 [A+"evaluation.cc", A+"compute_tree_scores.cc", A+"utils.cc"], [("recursive routing and accumulation", A+"compute_tree_scores.cc")])
prop("C37", "Checkpoint score files hold the scores of exactly the first n trees",
 "For every requested checkpoint n between one and the number of trees, a score file named after n is written holding, one per line and in row order, the scores of the first n trees, whatever the order in which checkpoints are requested and whatever else is requested with them. With an evaluation interval the checkpoints are the full forest and every interval below it; without one, the full forest only.",
 ["configurations", "inputs"], "every list of checkpoints, forest size and interval",
 "no test covers evaluation at checkpoints",
 [A+"evaluation.cc", A+"utils.cc"], [("checkpoint loop", A+"evaluation.cc")])
prop("C38", "Feature importance sums the gains of a feature's splits",
 "The importance of a feature is the sum of the gains of all internal nodes that split on it across all trees, each counted once, divided by the largest such sum. Features are listed in non-increasing order of importance, and only features that are split on appear.",
 ["inputs"], "every forest",
 "one test checks a two-tree forest",
 [A+"utils.cc"], [("recursive accumulation, sort and normalisation", A+"utils.cc")])
prop("C39", "A finalized column never changes again",
 "Once a column has been finalized no operation changes its rows, codes or dictionary: adding to it or finalizing it again leaves the data unchanged and is recorded as an error. Code that only reads columns is given no way to modify them.",
 ["histories"], "every sequence of operations on a column",
 "tests never add after finalizing",
 [D+"column.cc", D+"column.h"], [("finalized flag tested by every mutator", D+"column.cc")])
prop("C40", "The Python package and the native module agree",
 "Every operation the Python package invokes on the native module exists there under that name and accepts the arguments the package passes; column kind names, score file names and model field names used in Python are the ones the native side produces. Scores read back at checkpoints are those the same call wrote. Each Python-level operation forwards to the native operation of the same kind.",
 ["programs"], "every call from the package into the native module",
 "the package is never imported by a test (its native module path is not available on Python 3)",
 ["gbdt/_data_store.py", "gbdt/_forest.py", "gbdt/_gbdt.py", "gbdt/_forest_visualizer.py", Y+"datastore_py.cc", Y+"forest_py.cc", Y+"train_gbdt_py.cc", Y+"column_py.cc"],
 [("pybind11 registration tables", Y+"datastore_py.cc")])
prop("C41", "String helpers stay inside the strings they are given",
 "Prefix and suffix tests never read outside either string, and answer true exactly when the whole prefix or suffix is present. A number is parsed only if the entire non-empty text is a number.",
 ["inputs"], "every pair of strings, in particular ones shorter than the prefix or suffix",
 "tests only use strings longer than the prefix and suffix",
 [U+"utils.cc"], [("length guard before comparison", U+"utils.cc")])
prop("C42", "Bucketized thresholds separate values as well as the exact data would",
 "With fewer distinct values than buckets, training on a bucketized column finds the same splits as training on the exact values would; with more, each bucket holds about equally many rows.",
 ["inputs"], "every distribution of values",
 "tests check two distributions with a tolerance",
 [D+"column.cc"], [("frequency-based bucket construction", D+"column.cc")])
prop("C43", "A model survives a save and load round trip",
 "Serialising a forest or configuration to JSON and parsing it back yields an equal message, including unset fields and extreme float values.",
 ["inputs"], "every forest and configuration",
 "tests parse two small texts",
 [U+"json_utils.cc"], [("protobuf JSON conversion", U+"json_utils.cc")])
prop("C44", "Training reduces the loss",
 "With a small enough learning rate each boosting iteration does not increase the training loss, and the learned model generalises at least as well as the constant predictor.",
 ["inputs"], "every data set",
 "tests check one data set",
 [A+"gbdt_algo.cc"], [("gradient boosting", A+"gbdt_algo.cc")])
prop("C45", "Objects handed to Python stay valid while Python holds them",
 "A column object obtained from a data store stays usable for as long as Python holds it: what it refers to outlives it even if the data store object is dropped, and no operation of the data store destroys it underneath. The same holds for every class the native module registers.",
 ["programs", "histories"], "every order in which Python drops objects and calls operations",
 "the tests never import the native module, and a freed column usually still reads as if it were there",
 [Y+"datastore_py.cc", Y+"column_py.h", Y+"forest_py.cc"],
 [("registrations of get_*_col", Y+"datastore_py.cc"), ("column handles holding pointers", Y+"column_py.h")])
prop("C46", "No input given from Python ends the process",
 "Whatever Python code passes to the native module, an operation that cannot be carried out raises a Python exception: no combination of data store, configuration, forest and arguments makes a function or method of the module end the interpreter.",
 ["inputs"], "every data store, configuration, forest and argument",
 "the tests never import the native module, and the command line program is meant to end on bad input",
 [Y+"train_gbdt_py.cc", Y+"forest_py.cc", Y+"datastore_py.cc", A+"utils.cc"],
 [("what train checks before it calls TrainGBDT", Y+"train_gbdt_py.cc"), ("GetGroupOrDie", A+"utils.cc"), ("column kind of a split", A+"split_algo.cc"), ("column of a split", A+"compute_tree_scores.cc")])
prop("C47", "Training uses exactly the targets, weights, groups and options given",
 "From Python and from the command line alike, training runs with the given configuration unchanged, on the configured features and loss, continuing the base forest if and only if one is given; the weight of a row is the one passed in, else its value in the configured weight column, else 1; its target is the one passed in, else its value in the configured target column, binarised if so configured; and groups come from the configured group column.",
 ["inputs"], "every configuration, data store and argument",
 "the tests call TrainGBDT with functions of their own; no test goes through an entry point",
 [Y+"train_gbdt_py.cc", A+"gbdt_algo.cc", A+"utils.cc", "src/main.cc"],
 [("TrainPy", Y+"train_gbdt_py.cc"), ("Train", "src/main.cc"), ("GetSampleWeightsOrDie", A+"utils.cc"), ("GetTargetsOrDie", A+"utils.cc"), ("initialisation of the loss", A+"gbdt_algo.cc")])
