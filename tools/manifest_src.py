SYM = "Static, all inputs: every obligation is a statement about terms extracted from the source by abstract interpretation; terms are compared by normal form and, failing that, by evaluating the two formulas (not the program) on sampled points of a finite domain, so 'equal' in that case is a strong test of the formulas, not a proof. Loops outside the recognised closed forms leave the obligation undecided (listed in the evidence)."
TECH = {
 "C07": ("guard analysis over all fallible steps of every operation: failure of the step implies a reported failure and no further step; recorded column errors interpreted on all small subsets", SYM),
    "C01": ("footprint (write/read set) analysis of every concurrently running pair of tasks per enqueue site, with common-lock exclusion, over an inventory of every enqueue in the sources", SYM),
    "C02": ("source-to-sink determinism analysis over everything training reaches: generator identity and seed derivation, clock/thread-id taint, address-dependent order, completion-order updates in tasks, state kept between trainings; Python set order", SYM),
    "C03": ("monitor-invariant analysis of the pool: lockset, wait predicates, notify obligations, linear (exactly-once) use of queued tasks, constructor/destructor thread protocol", SYM),
    "C04": ("join-domination and escape/lifetime analysis: reads and frees of what queued tasks touch, before the pool's join, over the event order of every enqueue site", SYM),
 "C05": ("lockset analysis of every request path; rely/guarantee over the summaries of the critical sections with the table havocked at each acquisition", SYM),
 "C09": ("typestate of output streams over guarded event sequences with one fault injected into the abstract stream at a time (open, write, final flush); callers and the checkpoint loop included", SYM),
"C10": ("interprocedural null analysis on guarded value graphs (results, members, arguments from Python, captured pointers); index bounds on the guarded path of every read from Python", SYM),
"C11": ("tag tracking: every syntactic downcast decided on the guarded value graph (tag substitution, object creation, callers), constructor and dispatch obligations", SYM),
 "C12": ("summaries of the data store's operations chained over generated histories and compared with the specification after each step", SYM),
 "C13": ("summaries of the column classes (loops as folds, virtual code columns resolved) chained: add, finalize, read back; compared with the added data, around the code-width boundaries in particular", SYM),
 "C14": ("summaries of the column classes chained; code 0 iff missing, missing test, bucket bounds; plus the routing and histogram obligations for rows of code 0", SYM),
 "C39": ("every public modifying operation chained after Finalize in one interpretation, all readers compared before and after; access rules over the class declarations and casts (type-level)", SYM),
 "C06": ("abstract interpretation to guarded value graphs; path-condition and effect-order obligations", SYM),
 "C08": ("exhaustive path-condition case analysis over status codes; must-throw analysis of binding functions", SYM),
 "C17": ("fold summary of the split search compared with the definition of the best split under interpretations of the histogram accessors", SYM),
 "C18": ("fold summary of the split search: described side versus scored side; comparator and effect-order obligations", SYM),
 "C19": ("closed-form scatter-sum and nested-sum summaries compared with the weighted-sum specification", SYM),
 "C20": ("value-graph equality of every score write with the Newton formula over the node's own samples", SYM),
 "C21": ("value-graph summary of tree growth: guard, comparator and queue-effect obligations; choice of split compared with the best split under interpretations", SYM),
 "C15": ("fold summary of the partition loop compared with the routing rule under interpretations of the column accessors", SYM),
 "C16": ("fold summary of the partition loop: slice arithmetic, permutation and write-effect obligations under interpretations", SYM),
 "C36": ("structural induction with recursive calls abstract: fold summaries of scoring, feature collection and loading compared with the specification under interpretations", SYM),
 "C37": ("fold summaries of the checkpoint loop and of the score file writer compared with the specification under interpretations; path obligations on the file name", SYM),
 "C38": ("structural induction and map/fold summaries compared with the specification under interpretations; comparator obligations", SYM),
 "C22": ("fold summary of the training loop (scoring, fitting, losses abstract) interpreted against the bookkeeping specification; structural induction for shrinkage and scoring", SYM),
 "C23": ("fold summary of the base-forest initialisation interpreted against the specification; write-effect analysis of the base forest", SYM),
 "C24": ("structural induction for the clearing recursion, fold summary of training, path obligations on divergence and interpretation of the stored split's names", SYM),
 "C25": ("value-graph extraction and comparison with the documented formulas; sign and finiteness obligations", SYM),
 "C27": ("constructor, Init and gradient computation chained as fold summaries and interpreted against the specification (arbitrary loss, Newton iterates); termination condition of the fitting loop", SYM),
 "C28": ("pair construction and drawing summarised and every draw value interpreted; gradient accumulation summarised with the drawn pair abstract (any true pair) and interpreted against the specification", SYM),
 "C29": ("Init and the constructor of Group summarised and interpreted on group codes; bounds obligations on group table accesses; path interpretation of the group column's look-up", SYM),
 "C31": ("enumeration of every integer division with its guarded path: constants, member invariants over all writes, point search, and traces of bucket construction, pair sampling and work division on generated data", SYM),
"C32": ("column set-up, block construction and hand-over chained as closed-form summaries (line reading, splitting and number parsing by specification) and interpreted on generated files and column requests", SYM),
 "C33": ("loading of several files interpreted end to end against concatenation in file order; task-effect and join obligations on the reading and appending tasks", SYM),
 "C34": ("closed-form loop summaries compared with quotient/remainder specification", SYM),
 "C35": ("closed-form loop summaries, early-exit and draw-effect analysis, call-argument obligations", SYM),
 "C26": ("evaluation of the extracted factory table: every configured name's creation function is interpreted and the created object's class, fields and methods compared with the specification", SYM),
 "C30": ("path-condition obligations on the extracted loops: element-wise target test, error path and accept path", SYM),
 "C40": ("extraction of the native registrations from the type-checked C++ and abstract interpretation of the Python package over every column kind, override and message shape, comparing bindings, kinds, file names and model fields", SYM),
    "C41": ("loop and bounds analysis of the string helpers; return-condition comparison", SYM),
    "C45": ("ownership analysis of the pybind11 registrations: non-owning members of registered classes, origin of returned references, keep-alive policies, destroying effects", SYM),
    "C46": ("call-graph reachability of process-ending calls from the bound functions; path conditions to them shown unsatisfiable", SYM),
    "C47": ("value graphs of the functions and arguments handed to TrainGBDT and to the loss, compared with the configured sources", SYM),
}
NA = {
 "C42": "Quantifies over the distribution of the data: whether two trainings find the same splits and how even the buckets are depends on run-time values that no static argument in reach bounds.",
 "C43": "The round trip happens inside the protobuf library, whose code is not part of the repository's source; the repository only forwards one call each way (the forwarding and its failures are covered by C07).",
 "C44": "A convergence and generalisation claim about numeric data; no static argument bounds it.",
}
NOTES = "All checks parse /repo/src with a clang-based extractor on every run and decide from the extracted program; nothing from the repository is executed."
