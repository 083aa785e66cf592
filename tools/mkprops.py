"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, pathlib
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

D = "kd/model/discover/"
prop("C01", "Sampled symbolic expressions are complete, bounded and rule-abiding",
     "Whatever permitted tokens the symbolic sampler picks, it never reaches a position where no token is permitted, and the finished token list is exactly one complete expression tree whose length lies between the configured minimum and maximum. Every structural rule that is switched on (forbidden children, descendants, siblings and inverse nestings, repetition counts, placement of constants and of derivative operands) holds in every finished expression, and the rules forbid nothing beyond what they state. The parent, sibling and open-slot information given to the sampler at every step is that of the partial tree built so far.",
     ["programs", "configurations"],
     "for every sequence of permitted tokens, under every single rule, pair of rules and shipped combination of rules with a length window that leaves some room, and for every batch of partial expressions advanced together",
     "Tests build a few hand-written priors or sample a few random batches; a dead end or a rule leak shows only on specific partial trees and specific combinations of rules.",
     [D+"dso/prior.py", D+"task/task.py", D+"program.py", D+"dso/subroutines.py", D+"library.py", D+"task/pde/pde.py"],
     [("joint prior masks", D+"dso/prior.py:JointPrior.__call__"), ("observation bookkeeping", D+"task/task.py:HierarchicalTask.get_next_obs"), ("tree bookkeeping", D+"dso/subroutines.py")],
     [("actions", "partial token list", D+"dso/prior.py"), ("dangling", "open slots of the partial tree", D+"task/task.py")],
     ["masks returned by the prior", "next observation", "finished token list"])

prop("C02", "A token list always denotes one and the same expression",
     "Building an expression from any token list uses exactly its first complete tree: later tokens are dropped and an unfinished list is completed with input variables. Two lists that denote the same tree give the same expression object with the same reward whatever was built, optimised or cleared in between, and an expression with its own constants never changes the constants of another one. Reading an expression back as tokens or text, saving and restoring it, and splitting its right-hand side into signed additive terms all preserve what it denotes.",
     ["programs", "histories"],
     "for every token list up to a bounded length over a library with unary, binary and derivative operators, and every order of building, re-building and clearing",
     "Tests build a handful of expressions in one order; the cache, the completion rule and the splitting recursion are only wrong for particular shapes and histories.",
     [D+"program.py", D+"stridge.py", D+"library.py", D+"utils.py"],
     [("truncation and completion", D+"program.py:_finish_tokens"), ("program cache", D+"program.py:from_tokens"), ("term splitting", D+"stridge.py")],
     [("cache", "expression per token string", D+"program.py:Program.cache")],
     ["Program.traversal", "Program.cache", "term list"])

prop("C03", "Evaluating an expression gives the value its tokens denote",
     "Evaluating any well-formed expression on given data yields, point by point, the value obtained by reading its tokens as ordinary mathematics, whichever numeric backend and however often or in whatever order expressions are evaluated. Evaluation leaves the data unchanged. Operators that are protected or adapted to automatic differentiation mean what their definition says, and each coordinate varies along its own axis. An expression with a term that is undefined, not finite or free of the unknown is reported as invalid with the invalid score; every other score is a finite number, the documented metric of the least-squares combination of the terms, computed from the terms' values. An expression may also be refused when evaluating it raises a floating-point exception.",
     ["programs", "inputs"],
     "for every expression up to a bounded number of tokens over the operator library, on small grids including zeros, negative and large values",
     "Tests check a few operators one at a time on one array; evaluation order, operand order, backend switching and invalid-value handling depend on the whole tree.",
     [D+"execute.py", D+"functions.py", D+"program.py", D+"library.py", D+"stridge.py"],
     [("prefix evaluation", D+"execute.py"), ("protected operators", D+"functions.py"), ("backend switch", D+"library.py")],
     [], ["value of an expression", "invalid flag and error type"])

prop("C04", "Numerical derivatives differentiate along the requested axis",
     "Every numerical derivative routine returns the derivative of the requested order along the requested axis and no other: it is exact at interior points for polynomials its stencil represents, linear in the field whatever the field's numeric type or memory layout, the same on every grid line and independent of the other lines, and scales with the grid spacing to the power of minus the order, whatever the origin of the coordinate. Boundary points use the one-sided stencil (exact for the same low degrees), the periodic one of the two-dimensional DISCOVER routines, or the documented zeros. A Laplacian is the sum of the second derivatives along all spatial axes. The result has the shape of the input or the documented cropped shape, the input is not modified, and an unsupported order or axis is refused.",
     ["inputs", "configurations"],
     "for every routine, number of dimensions, axis, order, small grid size and monomial field within the bounds",
     "Tests compare two routines on one smooth field on a large grid; swapped axes, boundary stencils and spacing powers cancel out on such fields.",
     [D+"functions.py", D+"task/pde/utils_fd.py", "kd/model/sga/sgapde/context.py", "kd/utils"],
     [("finite differences", D+"task/pde/utils_fd.py"), ("derivative tokens", D+"functions.py"), ("grid derivatives", "kd/model/sga/sgapde/context.py")],
     [], ["returned derivative arrays"])

prop("C05", "The reported best expression is the best one ever evaluated",
     "After any number of search steps, the reported best score is the maximum over all valid expressions evaluated since the search started, it never decreases from one step to the next, and the reported best expression is one that has that score. This does not depend on batch size, on which candidates are repeated or invalid, or on the risk-seeking selection, which always trains on exactly the valid candidates at or above the configured quantile. A new search starts afresh unless history is kept, and when expressions and a network are trained in turn each round continues with the better of its own and the previous best on the current data.",
     ["histories", "inputs"],
     "for every assignment of scores (including equal, zero, negative and invalid ones) to the candidates of every step up to a bounded number of steps and batch size",
     "Tests run a short random search and look at the final result; bookkeeping slips need a particular order of improving, equal and invalid batches.",
     [D+"searcher.py", D+"pinn.py", "kd/model/kd_discover.py"],
     [("per-step bookkeeping", D+"searcher.py:Searcher.search_one_step")],
     [("r_best", "best score so far", D+"searcher.py"), ("p_r_best", "best expression so far", D+"searcher.py")],
     ["result of the search"])

prop("C06", "Re-using an estimator behaves like a fresh one",
     "Configuring, importing data into, or preparing the same symbolic-search estimator again, in any order and any number of times, leaves it with the same effective configuration, rules, operator library and output location as a fresh estimator taken through only the last steps. Settings passed by the caller and the shipped defaults are never modified. Switching between datasets of different dimension or field leaves nothing of the previous dataset behind.",
     ["histories", "configurations"],
     "for every sequence up to a bounded length of construct, import, set-up and reset operations over datasets of different dimension",
     "Tests use every estimator instance once; state left by an earlier call is only visible on the second use.",
     ["kd/model/kd_discover.py", "kd/model/kd_discover_regression.py", D+"dso/prior.py", D+"state_manager.py", D+"config.py"],
     [("configuration reset", "kd/model/kd_discover.py"), ("prior construction", D+"dso/prior.py:make_prior")],
     [("config", "effective configuration", "kd/model/kd_discover.py")],
     ["priors in force", "configuration dictionaries", "output path"])

prop("C07", "Sparse regression returns the least-squares fit on its support",
     "For any library of candidate terms, of any rank and with zero columns, the sparse regression used for scoring returns finite coefficients whose non-zero entries are a least-squares solution on exactly the terms it kept, drops a term only when its coefficient is below the tolerance of the run, returns the error and score of those coefficients, and recovers an exactly representable right-hand side. For a given tolerance the result does not depend on column scaling when scaling is compensated, nor on the order of the candidate columns up to the same reordering. An expression with a coefficient outside the accepted range, or not finite, is refused.",
     ["inputs"],
     "for every small integer library matrix, sparse true coefficient vector, threshold and column order within the bounds",
     "Tests fit a single library on a benchmark; support and threshold bookkeeping errors are visible only for particular support patterns.",
     [D+"stridge.py", "kd/model/sga/sgapde/PDE_find.py", D+"task/pde/pde_find.py"],
     [("sequential thresholded ridge", "kd/model/sga/sgapde/PDE_find.py:STRidge"), ("term selection", D+"stridge.py")],
     [], ["coefficient vectors", "mean square error"])

prop("C08", "Model adapters hand every field and axis over unchanged",
     "For a dataset of any supported dimension, axis order, grid size and number of fields, the data each model receives is the field, coordinates, spacing and target derivative of that dataset, with each value still attached to its own coordinates. Choosing a different target field or time axis selects exactly that field or axis. A dataset the model cannot represent is refused with an error and is never silently reinterpreted; the unit the coordinates are given in changes neither what is accepted nor what is handed over.",
     ["configurations", "inputs"],
     "for every axis order, combination of sizes (including equal sizes), target choice, coordinate unit and parameter-field set within the bounds, using fields whose value encodes its coordinates",
     "Tests use one canonical layout per model; a transposition or mislabelled axis only shows on non-canonical orders or unequal sizes.",
     [D+"adapter.py", "kd/model/sga/adapter.py", "kd/model/kd_dlga.py", "kd/model/kd_sga.py"],
     [("adapter conversion", D+"adapter.py"), ("solver arguments", "kd/model/sga/adapter.py")],
     [], ["adapter payloads"])

prop("C09", "Datasets are validated and their accessors agree with the stored grid",
     "Any field and coordinates accepted by the dataset container satisfy shape(field) = sizes of the coordinate axes in the stored order, and anything inconsistent is rejected on construction. Every accessor (size, mesh, points, range queries, single values, boundaries, samples, derivatives) returns values that agree with indexing the stored field at those coordinates, whatever the stored axis order; accessors meant for x and t refuse datasets with other axes. Accessors do not change the dataset.",
     ["inputs", "configurations"],
     "for every dimension, axis order, axis size, index and range within the bounds, well-formed and ill-formed constructions alike",
     "Tests construct a few valid datasets and read a few values.",
     ["kd/dataset/_base.py", "kd/dataset/__init__.py"],
     [("validation", "kd/dataset/_base.py:PDEDataset.__init__"), ("accessors", "kd/dataset/_base.py")],
     [], ["accessor results"])

prop("C10", "Every advertised dataset name loads what it advertises",
     "Every dataset name the library lists as available can be loaded and yields the field and coordinates stored in its file, oriented (x, t) as its coordinates dictate, a square field being taken as it is stored. An unknown or unusable name or file is refused, and the error for a name mentions it. Metadata operations on a dataset description either apply completely or leave it unchanged.",
     ["configurations", "inputs", "histories"],
     "for every registered name and spelling variant, every orientation of the stored array, and every short sequence of metadata operations",
     "Tests load a few names; a wrong entry or an unlucky square grid concerns one specific name or size.",
     ["kd/dataset/_registry.py", "kd/dataset/__init__.py", "kd/dataset/_info.py", "kd/data.py", "kd/runner.py"],
     [("registry", "kd/dataset/_registry.py"), ("loader", "kd/dataset/__init__.py:load_pde")],
     [("registry", "name to file description", "kd/dataset/_registry.py")],
     ["loaded dataset"])

prop("C11", "Discovering an equation never alters the caller's data",
     "Running any part of any model on a dataset, array or configuration supplied by the caller leaves that object exactly as it was: same values, same order, same shape. Running a second model, or the same model again, on the same object therefore starts from identical data.",
     ["histories", "inputs"],
     "for every model pipeline stage and every order of running two stages on one shared dataset",
     "Tests create a new dataset for each model and look only at the model's output.",
     ["kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_sga.py", "kd/model/sga/sgapde/context.py", D+"adapter.py", "kd/model/kd_eqgpt.py"],
     [("defensive copies", "kd/model/sga/adapter.py")],
     [], ["dataset arrays before and after"])

prop("C12", "Job submission and the command runner handle every fault cleanly",
     "Whatever the remote service or the file system answers at each step, a job operation either reports success after every step it needs has succeeded, or reports the failure; it never reports success for work that was not done and never loses or overwrites the user's files. The command runner maps each valid request to exactly the model, dataset and options (among those it knows) it names, rejects every request that names no such model or dataset or a value that cannot be used, and a form submitted to the platform trains the same model as the form run in process.",
     ["fault_sequences", "configurations"],
     "for every placement of a failure among the steps of each job operation, every job status sequence up to a bound, and every combination of runner options within the bounds",
     "Tests do not exercise the job client at all and run the runner with one or two settings.",
     ["kd/job.py", "kd/runner.py", "app.py"],
     [("job client", "kd/job.py"), ("runner", "kd/runner.py")],
     [], ["return values, raised errors, files written"])

prop("C13", "Configuration containers behave like ordinary mappings and parameters",
     "Any sequence of reads, writes, deletions and merges on a configuration container gives the same results as on an ordinary dictionary, whether entries are reached by item or by attribute. Estimator parameters read back exactly as they were set, unknown parameters are refused, and copies or merges never share mutable state with their source.",
     ["histories", "inputs"],
     "for every sequence of container operations up to a bounded depth over a few keys, and every estimator and parameter",
     "Tests set and read one or two keys.",
     ["kd/utils/attrdict.py", "kd/base.py", D+"utils.py", D+"config.py", "kd/dataset/_info.py"],
     [("attribute dictionary", "kd/utils/attrdict.py"), ("parameter handling", "kd/base.py")],
     [], ["container contents"])

S = "kd/model/sga/sgapde/"
prop("C14", "Evolved expression trees always stay well-formed",
     "Whatever random choices are made, every expression tree created, mutated, replaced or exchanged by the genetic search is well-formed: each node has the number of children its operation needs, within the depth limit, and the right operand of every derivative is a permitted differentiation axis. Its textual forms describe exactly its nodes, the number of terms stays within the configured width, and every operation terminates and leaves other members of the population untouched.",
     ["programs", "configurations", "histories"],
     "for every sequence of random choices within the bounds, for every operation of the genetic search and every small operator set and set of axes",
     "Tests run the search with a fixed seed; malformed trees need a particular mutation at a particular node.",
     [S+"tree.py", S+"pde.py", S+"solver.py", S+"context.py"],
     [("tree generation and mutation", S+"tree.py"), ("term replacement", S+"pde.py"), ("crossover", S+"solver.py")],
     [("tree", "levels of nodes", S+"tree.py:Tree.tree")],
     ["tree levels, preorder and inorder text"])

prop("C15", "Evaluating a candidate equation is exact, pure and repeatable",
     "The value of each candidate term equals the value of its expression tree computed recursively from the data, terms that are undefined, zero everywhere or differentiate along the target axis are discarded, and every kept coefficient belongs to its own term. Evaluating a candidate again, before or after any other candidate, gives the same score and coefficients and leaves the data and the tree unchanged.",
     ["programs", "histories"],
     "for every expression tree up to a bounded depth over the operator set, alone and in every ordered pair",
     "Tests evaluate a few trees once; shared-array aliasing and index shifts after discarding terms need particular combinations of trees.",
     [S+"pde.py", S+"tree.py", S+"config.py", S+"PDE_find.py"],
     [("term evaluation", S+"pde.py:evaluate_mse"), ("protected division", S+"config.py:SolverConfig.divide")],
     [("cache", "partial value held in each node", S+"tree.py:Node.cache")],
     ["score, coefficients and feature matrix"])

prop("C16", "The genetic search never loses its best equation",
     "From one generation to the next the best score of the population never gets worse, the population keeps its configured size sorted by score, and each stored score is that of the equation stored beside it. The equation finally returned is the best of the final population, with the score reported for it.",
     ["histories"],
     "for every sequence of random choices and every assignment of candidate scores over a bounded number of generations with a tiny population",
     "Tests run one seeded search and check that something is returned.",
     [S+"solver.py", S+"pde.py"],
     [("selection", S+"solver.py:SGA")],
     [("mses", "scores aligned with equations", S+"solver.py:SGA")],
     ["population and scores after each step"])

prop("C17", "Problem preparation keeps axes, derivatives and target consistent",
     "For any axis order, set of fields, target field, target axis and parameter fields, the prepared search problem exposes exactly those fields and coordinates on a common grid, differentiates each field along its own axes with the right spacing, and uses the requested derivative as the left-hand side. The left-hand-side derivative never appears among the right-hand candidates, all prepared arrays line up point by point, edge trimming included, and inconsistent requests are refused, in whatever unit the coordinates are given.",
     ["configurations", "inputs"],
     "for every axis order, dimension, target choice, trimming option and parameter-field combination within the bounds, on fields whose derivatives are known exactly",
     "Tests use one or two canonical layouts.",
     [S+"context.py", S+"naming.py", "kd/model/sga/adapter.py"],
     [("context construction", S+"context.py:ProblemContext"), ("names", S+"naming.py")],
     [], ["prepared variables, operators and default terms"])

prop("C18", "A genetic-search equation is displayed as the equation that was found",
     "The structured equation lists exactly the non-negligible terms with their own coefficients, and its prediction equals the sum of coefficients times term values. The displayed equation, with or without coefficients and in either notation, denotes that same equation: different equations never get the same text, nested operations keep their grouping, and signs and coefficients are those of the terms. Derivative names can be built and read back without ambiguity or refused.",
     ["programs", "inputs"],
     "for every expression tree up to a bounded depth, every coefficient pattern, both notations, and every field and axis name within a small alphabet",
     "Tests compare a few rendered strings.",
     [S+"equation.py", S+"naming.py"],
     [("term extraction", S+"equation.py:extract_equation_details"), ("rendering", S+"equation.py:sga_equation_to_latex"), ("name parsing", S+"naming.py")],
     [], ["LaTeX text", "equation details"])

prop("C19", "The neural genetic search keeps valid members and never loses the best",
     "Whatever random choices are made and whatever the population size, number of generations and rates, every member that is scored or reported is a non-empty set of distinct valid terms within the allowed order, and the population keeps its configured size. The recorded best score never gets worse over the generations of a run, the best first member included, and each reported score, coefficient set and left-hand side is the one obtained by fitting the reported terms. The columns of the library are the derivatives the operator list names, in that order, whatever was used before; training leaves the caller's data alone and keeps the checkpoint with the smallest validation error, and predictions are those of that network.",
     ["histories", "configurations"],
     "for every sequence of random choices within the bounds for each genetic step, and every small population size, generation count and rate",
     "Tests run with one seed and one setting of population size and generations.",
     ["kd/model/dlga.py", "kd/model/kd_dlga.py", "kd/utils/utils_GA.py"],
     [("genetic operators", "kd/model/dlga.py"), ("wrapper", "kd/model/kd_dlga.py")],
     [("Chrom", "population", "kd/model/dlga.py")],
     ["population, fitness list, best chromosome"])

prop("C20", "A neural genetic-search equation is displayed as the one found",
     "For every set of terms, coefficients and list of operators in force, the displayed text and LaTeX equation contain exactly the found terms, each as the product of the operators it denotes with the coefficient fitted for it (to the four displayed decimals), and the left-hand side that was selected. Results that differ by more than the displayed decimals never display the same equation.",
     ["programs", "configurations"],
     "for every term set within the bounds, every operator list of bounded length, and every left-hand side",
     "Tests compare rendering for the default operator list only.",
     ["kd/viz/dlga_eq2latex.py", "kd/model/kd_dlga.py", "kd/model/dlga.py"],
     [("rendering", "kd/viz/dlga_eq2latex.py")],
     [], ["equation text"])

E = "kd/model/eqgpt/"
prop("C21", "Generated term sequences always follow the equation grammar",
     "Whatever scores the sequence model gives, every generated equation alternates terms and operators in the order the grammar allows, starts and ends properly within the length limit, and uses no masked or special symbol as a term. Splitting a generated sequence into terms and formatting it back gives the same equation, and a term is dropped as a repetition exactly when an earlier term of the equation has the same factors and the same divisors.",
     ["programs", "inputs"],
     "for every preference order the model may express at each position up to the length bound, and every pair of short equations",
     "Tests decode with one trained model and one seed.",
     [E+"gpt_model.py", E+"continue_train_GPT_all.py", "kd/model/kd_eqgpt.py"],
     [("constrained decoding", E+"gpt_model.py"), ("de-duplication", E+"continue_train_GPT_all.py")],
     [], ["generated sequences"])

prop("C22", "Every vocabulary term is computed as the quantity it names",
     "For every term of the vocabulary and every supported dimension, the values computed for it are those of the derivative or product that its name denotes, on any field and axis order supported. An equation's reward is a finite number: the average, over the cases in which the equation can be evaluated, of the R-squared of the least-squares fit of its first term by its other distinct terms times 1 - 0.02*log10(number of terms), and zero for the combinations ruled out; it does not depend on which equations were evaluated before.",
     ["inputs", "programs"],
     "for every vocabulary term and every short combination of terms, on polynomial fields whose derivatives are known exactly",
     "Tests evaluate a few terms and check shapes.",
     [E+"calculate_terms.py", E+"continue_train_GPT_all.py"],
     [("term evaluation", E+"calculate_terms.py"), ("reward", E+"continue_train_GPT_all.py:calculate_reward")],
     [], ["term values", "rewards"])

prop("C23", "The running list of best equations is exactly the best seen so far",
     "After any number of rounds the reported list holds the ten best distinct scores seen in any round (all of them while fewer have been seen), best first, each with an equation that received that score. Candidates whose score is undefined never enter it, and the reported best equation is its first entry.",
     ["histories"],
     "for every stream of equations and scores (ties, repeats and undefined scores included) over a bounded number of rounds",
     "Tests run one round with one seed.",
     ["kd/model/kd_eqgpt.py", E+"continue_train_GPT_all.py"],
     [("top-list merge", "kd/model/kd_eqgpt.py")],
     [], ["reported list"])

prop("C24", "Plot requests reach the right adapter and report unsupported ones",
     "For any history of registering, replacing, removing and requesting, a plot request is served by the adapter registered for the most specific class of the given model, and a request nobody supports yields a clear unsupported answer and never an exception or another model's plot. Options and output paths given for one request never leak into another.",
     ["histories", "configurations"],
     "for every sequence of registry operations and requests up to a bounded depth over a small class hierarchy",
     "Tests register one adapter and make one request.",
     ["kd/viz/core.py", "kd/viz/registry.py", "kd/viz/api.py"],
     [("dispatch", "kd/viz/core.py"), ("registry", "kd/viz/registry.py")],
     [("adapters", "class to adapter", "kd/viz/registry.py")],
     ["result objects"])

prop("C25", "Visual summaries carry the model's own numbers",
     "Every summary prepared for plotting (fields, residuals, coefficients, comparisons, slices, search histories) contains exactly the model's values: same points, same order, residual equal to actual minus predicted, and inconsistent shapes refused, in whatever units and from whatever origin the data is given. Preparing a summary does not change the model.",
     ["inputs", "configurations"],
     "for every shape combination and slice position within the bounds, well-formed and ill-formed",
     "Tests check that figures are produced.",
     ["kd/viz/_contracts.py", "kd/viz/_adapters/discover.py", "kd/viz/_adapters/sga.py", "kd/viz/_adapters/dlga.py", "kd/viz/_adapters/pysr.py"],
     [("contracts", "kd/viz/_contracts.py"), ("adapters", "kd/viz/_adapters")],
     [], ["contract objects"])

prop("C26", "Symbolic regression wrappers keep their lifecycle and variable names",
     "In every order of fitting, predicting and asking for equations, the regression wrappers refuse requests made before a fit, answer later ones from the latest fit only, and predict with the columns in the order they were fitted. Variable names chosen by the user replace exactly the corresponding inputs in every displayed equation, whatever the names are.",
     ["histories", "inputs"],
     "for every sequence of wrapper calls up to a bounded depth, and every assignment of names from an alphabet that collides with internal names",
     "Tests follow fit-then-predict with harmless names.",
     ["kd/model/kd_discover_regression.py", "kd/model/kd_pysr.py"],
     [("renaming", "kd/model/kd_discover_regression.py"), ("wrapper state", "kd/model/kd_pysr.py")],
     [], ["predictions and equation strings"])

prop("C27", "A symbolic-search equation is displayed as the expression found",
     "The displayed equation of a symbolic search result, in expanded, compact or plain form and either notation, denotes the same right-hand side as the result: every term with its own coefficient, sign, grouping and derivative order, for every expression the search can produce. Rendering never changes the result.",
     ["programs"],
     "for every expression up to a bounded number of tokens over the operator library, and every coefficient pattern",
     "Tests compare a few rendered strings.",
     ["kd/viz/discover_eq2latex.py", D+"program.py", D+"stridge.py"],
     [("rendering", "kd/viz/discover_eq2latex.py")],
     [], ["LaTeX text"])

prop("C28", "Priority memories keep exactly the best distinct items",
     "After any sequence of single or batch insertions and removals, a bounded priority memory holds exactly the best-scored distinct items offered, up to its capacity, and the first-in-first-out memory holds exactly the most recent distinct ones. Removal takes the lowest (or oldest) item, and iteration, extremes, batches and random draws give only items that are held, in the right order and each with its own data.",
     ["histories"],
     "for every sequence of operations up to a bounded depth with priorities including ties, and every capacity and quantile setting within the bounds",
     "Tests push one short list.",
     [D+"dso/memory.py"],
     [("bounded heap", D+"dso/memory.py")],
     [("heap", "stored items", D+"dso/memory.py")],
     ["queue contents"])

prop("C29", "A surrogate network stands for the observations of its own case",
     "For every set of wave-breaking cases and either filter, the equation search scores candidates on one surrogate network per selected case that has weights, each with the grid of that case's own positions and times, networks and grids in the same order; no usable case is an error. A surrogate retrained on request is fitted to the case's observations, positions and elevations both scaled by that case's wavelength, at exactly the coordinates the grid uses for them, never on its validation part, and the stage with the lowest validation error is the one used. Stored weights and the observations are left unchanged.",
     ["inputs", "configurations"],
     "for every set and order of cases up to four, every subset with weights, both filters, several records and orders of observations, and every ranking of validation errors up to the bound",
     "Tests cannot load the measured data and never retrain a surrogate.",
     ["kd/model/kd_eqgpt.py", E+"neural_network.py"],
     [("surrogates", "kd/model/kd_eqgpt.py")],
     [], ["networks and grids handed to the scoring of candidates"])

prop("C30", "Network-assisted search fits its network to the data and the found equation",
     "In network-assisted discovery the surrogate network is first fitted to the training observations, each value at its own point, until its error on the validation observations has not improved for the configured number of epochs; the checkpoint kept is the network with the lowest validation error and loading it restores that network. Every later round trains the same network on all observations, each counted once, and on the residual of exactly the equation just chosen: each term with its own coefficient, parameters with their values, derivatives of the network taken exactly, at the collocation points and, when asked, at the observations, weighted as configured. The best checkpoint of the last round is the network with the lowest loss. Before every search, and at the end, candidates are scored on the field and the time derivative of the network as it then is, at the collocation points. The observations are never changed.",
     ["histories", "programs"],
     "for every course of the losses over a few epochs, every equation up to a bounded size in one to three space dimensions with and without parameters, and every sequence of equations found in up to three rounds",
     "Training runs are long and random; the tests never compare the gradient with the equation found, and an equation that is silently ignored still gives a smooth network.",
     [D+"pinn.py", D+"loss.py", D+"execute.py", D+"task/pde/pde_pinn.py", "kd/model/kd_discover.py"],
     [("network training", D+"pinn.py:PINN_model"), ("equation residual", D+"loss.py:pinn_loss"), ("alternation", "kd/model/kd_discover.py:KD_Discover_SPR.callIterPINN"), ("data generated by the network", D+"task/pde/pde_pinn.py")],
     [("x, t, u_train", "observations in use", D+"pinn.py")], ["network weights after a step", "checkpoint files", "the task's field and time derivative"])

prop("C31", "The sampler trains on the distribution it samples from",
     "In regression with a sampler network, each token of an expression is drawn with the probability that the network, given everything drawn so far in that expression, assigns to it together with the priors; these probabilities do not depend on which other expressions are in the batch or on the batch size, the probabilities of all expressions together make one, and what is reported (tokens, observations, priors) is what was drawn and used. Training changes the network's parameters along the gradient of the documented loss - reward relative to the baseline times the log-probability of the whole expression, the weighted entropy, and the priority queue's log-likelihood or policy gradient as configured - computed from the same probabilities with which the expressions were drawn, counting every token up to the expression's end and nothing after it. This remains so after the parameters have changed.",
     ["histories", "programs"],
     "for every expression that can be drawn from a small library under every combination of priors, cell type, number of layers, kinds of observation, batch size and training mode",
     "Sampling is random and training is stochastic; a sampler that trains on slightly other probabilities than it draws from still runs, still returns expressions and still passes every test, only its search is biased.",
     [D+"controller.py", D+"state_manager.py", D+"searcher.py", D+"utils.py"],
     [("drawing expressions", D+"controller.py:Controller.sample_episodes"), ("probabilities in training", D+"controller.py:Controller.make_neglogp_and_entropy"), ("training step", D+"controller.py:Controller.train_step")],
     [("actions, obs, priors", "a batch of drawn expressions", D+"controller.py")], ["drawn tokens", "logits passed to the random draw", "parameters after a training step"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
