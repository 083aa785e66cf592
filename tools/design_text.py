INTRO = """
# Model checking kd: design

`properties.jsonl` states 30 properties; all 30 are decided by model checking and claimed in
`MANIFEST.json`; `not_applicable` is empty.

## Approach

kd is a single-threaded Python library: a set of equation-discovery engines (DISCOVER symbolic search,
SGA-PDE genetic search, DLGA, EqGPT, PySR wrappers) with a common dataset container, adapters, a plotting
layer, a command runner and a job client. There are no thread schedules worth exploring. What makes its
guarantees hard to test is the other kind of nondeterminism that model checking enumerates:

* **random choices** - a search draws thousands of random numbers; a guarantee has to hold for every draw;
* **operation histories** - estimators, registries, caches, queues and class-level libraries keep state;
* **environment answers** - files, job service, optional packages, training results;
* **bounded inputs** - grids, axis orders, token lists, operator libraries, coefficient vectors.

So every check is an explicit-state or stateless exploration **of the real code** (no separate model has
to be kept bound to it): the check puts itself in the place of the source of nondeterminism, enumerates
every alternative within the stated bound, runs the real functions on each, and compares the state reached
with an independent reference (a *reference model* written from the property, never from the code's
formulas). Nothing is sampled; where a bound leaves part of a space out, it does so by a fixed stride or a
deviation bound recorded in the evidence (`bounds`), never by a random draw. `VERIF_SEED` is recorded but
changes nothing that is explored.

Machinery (`mc/`):

* `mc/explore.py` - depth-first stateless exploration with replay. A `Chooser` hands out choices;
  `ControlledRandom` installs it in the place of `numpy.random` and `random`, so that `randint`, `choice`,
  `shuffle`, `rand`, `permutation`, `normal` ... become branch points of the enumeration; an optional
  deviation bound explores exactly the executions with at most k non-default choices (the analogue of a
  preemption bound). A replay that meets a choice of another width raises `Divergence` (the code under
  test is then nondeterministic in a way the check does not control) instead of passing silently.
* `mc/core.py` - states visited (hashed), transitions, executions compared with the implementation,
  distinct outcomes, the worker pool (8 processes), time budgets, evidence, replay files, known findings.
  A violation prints `VIOLATION property=<id> replay=<path>`; the replay file names the part, the case and
  the exact inputs or choices.
* `mc/sgalib.py`, `mc/latexsga.py`, `mc/latexdisc.py` - independent readers of trees, prefix text and
  LaTeX, an independent evaluator of terms, the table of terminals.
* `mc/run.py`, `run.sh` - run one check: `PYTHONPATH` is /repo's working tree (`KD_REPO` overrides it for
  development), bytecode is not written, the working directory is a scratch directory removed at the end.

Every check calls public classes and functions (and names the repository's own tests import); helpers that
only exist privately are used behind `hasattr` guards, so that a refactoring which renames them costs
coverage, not an alarm. Comparison tolerances are those of float64 rounding; inputs are chosen so that no
verdict hangs on rounding (irrational fields, exact polynomials, terms that are zero only up to rounding are
set aside as ambiguous).

Since the implementation itself is explored, "conformance of the model" reduces to the reference being
replayed next to the implementation: `traces_validated_against_impl` in the evidence counts the executions
in which the state of the implementation was compared with the reference step by step.

Containment: jobs, downloads, plots and models write only below a scratch directory made by the check;
network clients are stand-ins; no check writes in /repo. Tools that are present but not used: TLC, Spin,
CBMC and the like work on models or C; the properties here are about what Python code does with data, and
a model of it would only restate the reference. Exhaustive exploration of the code itself is stronger here
because nothing is lost between model and code.

## Stand-ins

Neural training, the language model, the PySR backend, the job service, the web toolkit and long searches
are replaced where only what surrounds them is judged (C06, C11, C12, C23, C26, C29, C30, C31) and are real where
they are judged themselves (C17 networks trained on the fly, C19 network training, C03 automatic
differentiation, C29 retraining, C26 "regression searches"). The assumption made each time is listed in
`assumptions` of the evidence.

## False alarms met and corrected

* C06: the stand-in for a program lacked `.invalid`, which the code may legitimately read.
* C11: a rule that two estimators may not share memory with the dataset was dropped (sharing read-only
  memory harms nobody); the training flag of a network the caller supplied is not judged.
* C15: quotients by something that is zero only up to rounding are not compared (rounding error).
* C25: an SGA 3-D residual histogram of the displayed slice is what the adapter documents; histogram edges
  have a tolerance; density metadata echoes the request (an existing test requires it).
* C03: torch may refuse an expression whose intermediate value overflows although the result is finite.
* C17/C25: fields are chosen so that finite-difference truncation cannot decide a verdict.

## Read and left alone (unspecified)

SGA adapter keeps references to the caller's arrays (never written to); `get_mask_invalid` masks every word
containing the letters of an absent variable (also `sqrt` for t); ties in DLGA selection; quantile cuts do
not cut parameter fields; the GP aggregator is switched off; constants of the regression wrapper are shown to
six decimals and DISCOVER coefficients to four; `stability_selection` reports another expression on purpose;
the runner ignores unknown parameters by design; PDETask with added noise cuts terms; two KD_Discover
estimators alive at once share `Program.task`; the stand-alone EqGPT training scripts.
"""

TXT["C01"] = dict(
 explored="Every sequence of tokens the masks permit, up to length 6-7, for six operator libraries under every single structural rule, every pair of rules (thorough: triples), the shipped combinations and eight minimum/maximum length windows; then the real sampling loop with every random pick taken over (batches, early stops, masks), controller settings included. At every partial expression the mask, the observation (parent, sibling, dangling) and independence of the batch are judged.",
 oracle="The rules written out slot by slot over partial trees (which tokens would make a finished tree break a rule, from the rule's documented meaning), and for every finished list a tree reader that judges length, completeness and each rule again. 'Forbids nothing beyond what it states' is checked as equality of allowed sets, not inclusion.",
 bounds="6.5 million partial expressions, about 110 s idle. Length 6-7 is past the shortest expression in which each rule can bite twice.",
 reach="a rule that fails only for the second operand of a binary operator two levels down, or only in combination with the length limit, is invisible to the handful of sequences unit tests contain.",
 **{"not": "learned network weights are irrelevant: every mask outcome is enumerated instead."})
TXT["C02"] = dict(
 explored="Every token list up to length 5-6 (thorough 6-7) over five libraries in four integer forms, every completion of every unfinished list, several expressions per list; every history of depth 4 (5) over 14 operations (build, build with constants, optimise, score, clear cache, copy, pickle ...); every sum/difference tree up to 6 (7) leaves; every small tree through text, display, pickle, dill, copy, deepcopy in six states; stochastic tasks that bypass the cache.",
 oracle="A model of which lists denote the same tree, who shares which constants, and which signed terms a tree has.",
 bounds="about 200 000 states and 740 000 transitions, 15-60 s.",
 reach="sharing bugs need a history (build, optimise, build again, clear) and show only in the order of events.")
TXT["C03"] = dict(
 explored="All expressions up to 5-6 tokens over groups of operators on generic, zero, negative, large and multi-dimensional data; every operator and composition of two, plain and protected, on special values; automatic differentiation of all small expressions; every history of three (four) evaluations, including under other NumPy error handlers and after failing expressions; torch against numpy; every small equation through the reward with four metrics.",
 oracle="An independent reader of the token list; exact polynomial derivatives; reward formulas recomputed.",
 bounds="236 000 evaluations, 90-160 s.",
 reach="invalid-score rules depend on what was evaluated before (error handlers, cached flags) and on rare values.")
TXT["C04"] = dict(
 explored="Every derivative routine (DISCOVER, SGA, kd.utils, PDE-FIND, viz) x axis x grid sizes from the smallest allowed x four spacings. Because the routines must be linear, applying them to *all* unit impulses yields the complete operator of that size: not a sample of fields but all of them. Linearity itself is checked on all pairs of impulses and 14 dense fields of other types and layouts.",
 oracle="Moment conditions (exact on the monomials of the stencil's degree) at every row including the boundary, no leakage to other lines, one operator for all lines, scaling with spacing, independence of the origin; exact derivatives for automatic differentiation and polynomial fits.",
 bounds="717 000 operator entries, 75 s.",
 reach="a wrong boundary row for one axis of a 3-D array, or a stencil that mixes neighbouring lines, passes a smooth-field tolerance test.")
TXT["C05"] = dict(
 explored="Every assignment of nine kinds of scores (invalid, negative, zero, equal, larger) to batches of 1-5 candidates over up to four steps at five risk levels, through the real Searcher with a scripted controller; every history of three of stepping, searching with and without history, clearing the cache; all score vectors with NaN through the quantile selection; alternation with the network.",
 oracle="The running maximum over valid candidates, and the exact training batch at or above the quantile, row by row.",
 bounds="226 000 states, 110 s.",
 reach="wrong bests appear only when a candidate is repeated, ties, or is dropped by the risk selection in a later step.")
TXT["C06"] = dict(
 explored="Every sequence up to depth 3 (thorough 4) over configuring (five ways), scoring expressions (also before and after imports), changing operators, seed and output path, importing 1-D, parameterised, 2-D, 3-D and other-field data, preparing, resetting and training on the three symbolic-search estimators, plus second estimators sharing a configuration. A state is the effective configuration, rules, library, state manager, network weights, data, random state, PINN and paths, and the score of a probe expression.",
 oracle="A fresh estimator taken through only the last steps.",
 bounds="4 600 states / 13 000 transitions, 110 s; training and the sampling loop are stand-ins.",
 reach="class-level libraries and configurations leak only on re-use.")
TXT["C07"] = dict(
 explored="Every set of up to three (four) of twelve kinds of columns (scaled, collinear, repeated, zero) x every coefficient vector over a small alphabet and general right-hand sides x tolerances x normalisation x ridge; column orders, scalings; the tolerance search, the lasso, DISCOVER's coefficient rules around both thresholds and with non-finite data; scores of all small SGA candidates.",
 oracle="An independent thresholding by pseudo-inverse; least-squares optimality on the kept support.",
 bounds="258 000 systems, 80 s.",
 reach="rank deficiency, exact zeros and coefficients at the tolerance are corner cases of the cross product.")
TXT["C08"] = dict(
 explored="Every axis order of 2-4 axes with equal and unequal sizes x left-hand axis x target field x parameter sets x descending axes x order of the coordinate dictionary, through the adapters and on into the models (DISCOVER task and tokens, PINN inputs, SGA configuration and context, DLGA training pairs); every draw of measured and training points on tiny grids; sampling options under eight seeds, quantile cuts of every grid up to 10x10; the same dataset with coordinates in units from 2^-44 to 2^20 (X scaled, ut inverse-scaled, everything else identical); unevenly spaced axes (every node and size of the offset) in every unit; constant and varying parameter fields of the network-assisted mode in every unit.",
 oracle="A field whose value identifies its grid point, so that any exchange of axes, points or fields is visible as a wrong value rather than a wrong shape; the caller's random state and data afterwards.",
 bounds="15 500 requests, 40-115 s.",
 reach="transpositions on equal-sized axes pass every shape test.")
TXT["C09"] = dict(
 explored="Every axis order of up to three axes, sizes 1-3, x every field shape x every single defect (accepted exactly when consistent); on every small grid (three stored layouts, ascending, descending, uneven axes) every index, range, sample size and enumerated draw of every accessor; every call sequence of depth 3-4.",
 oracle="Direct indexing of the stored arrays; the dataset afterwards.",
 bounds="1.39 million states, 60 s.",
 reach="accessors are tested on one grid in (x, t) order; the errors found were in the other orders.")
TXT["C10"] = dict(
 explored="Every registered name and every near-miss spelling (case, truncation, extra characters); every loader over files written in every orientation, size 1-5 and array layout; missing and unreadable files; every metadata operation sequence of depth 4-5.",
 oracle="An independent reading of the file; a plain dictionary for the metadata.",
 bounds="41 000 states, 5 s.",
 reach="the loaders guess orientation from sizes, which only square files expose.")
TXT["C11"] = dict(
 explored="Every stage sequence of every model over nine dataset forms and seven memory layouts; every order of two or three estimators taking turns on one dataset; every pair of dataset calls.",
 oracle="The state is the content, order, strides and owning memory of all the caller handed in; each estimator's result when alone.",
 bounds="26 000 states, 145 s. Training and search lengths are cut to one or two steps; PySR is a stand-in.",
 reach="writing through a view happens only for some memory layouts, and shows only for the second user of the data.")
TXT["C12"] = dict(
 explored="Every combination of failures of credentials, client, project list, submission, parameters and files on submission; every status; every sequence (3-4) of ten download outcomes including torn ones; every sequence of polls through the web callbacks; every option, file layout, dataset choice and fault of the runner; form to estimator in process and through the platform.",
 oracle="The steps that really happened (recorded by stand-ins), and the directory tree before and after.",
 bounds="22 000 states, 26 s.",
 reach="fault combinations and stale results of earlier jobs need an injector and a history.")
TXT["C13"] = dict(
 explored="Every sequence (4-5) of 21 container operations, every pair of small nested dictionaries merged, every parameter and pair of parameters of seven estimators through constructor, set_params, get_params and clone, every configuration source.",
 oracle="An ordinary dictionary stepped alongside; identity of mutable parts.",
 bounds="2.1 million transitions, 61 s.",
 reach="aliasing of nested sections after copy and merge depends on order.")
TXT["C14"] = dict(
 explored="All random choices of tree creation (depth 2 and 3), single and double mutation, replacement, exchange, and whole tiny generations within deviation bounds, for several axis/field sets.",
 oracle="An independent reader of the level lists: arity, child offsets, ownership of every node, permitted axes, text forms; other members of the population byte by byte.",
 bounds="91 000 trees, 2.6 million choices, 52 s.",
 reach="mutation shifts child offsets; mistakes need two operators on a level and a particular draw.")
TXT["C15"] = dict(
 explored="Every term tree up to depth 3 (depth 4 within a deviation bound), alone and in pairs, on eight problems; three- and four-term equations over a pool of usable, zero, non-finite and discarded terms; the same term objects evaluated again under either division rule after being discarded; terms with infinities; complexity weights; spellings of the division setting.",
 oracle="An independent recursive evaluator, the kept set, the score from its own coefficients, bit-identical repetition, the context's arrays byte by byte.",
 bounds="61 000 equations, 178 000 evaluations, 75 s.",
 reach="purity is a statement about histories (A, B, A) and shared caches.")
TXT["C16"] = dict(
 explored="Every selection, crossover and mutation choice of short runs of the real generational loop within a deviation bound, populations 1-4.",
 oracle="Scores of every member recomputed from a deep copy after every generation; best score monotone, size, order, returned equation.",
 bounds="9 400 states, 1.3 million choices, 48 s.",
 reach="aliasing between parents and children shows up as a score that belongs to another equation.")
TXT["C17"] = dict(
 explored="Every request (axis order, left-hand axis, fields, target, parameters, trimming, coordinate variant, supplied or trained networks) of a bounded space through the real context and the estimator; every single (thorough: pair of) inconsistency, including small and stretched unevenness of an axis; the same problem with coordinates scaled by powers of two from 2^-44 to 2^30.",
 oracle="An independent table of terminals with their arrays; derivatives of the network itself by exact polynomials.",
 bounds="37 000 requests, 24-70 s.",
 reach="errors in alignment after trimming or in scale factors are silent: the search just finds another equation.")
TXT["C18"] = dict(
 explored="Every expression of two operator levels (towers of a third), every combination of up to three terms and 13 coefficients, in both notations and with and without coefficients; naming functions over all small names.",
 oracle="An independent LaTeX/text reader whose result is evaluated and compared; injectivity over the whole enumerated set; predictions recomputed.",
 bounds="253 000 renderings, 55 s.",
 reach="lost grouping is a property of the set of all expressions: two of them get the same text.")
TXT["C19"] = dict(
 explored="Every random choice of module and genome creation (length 1-3), every crossover, removal of repeats and selection and (within a deviation bound) mutation over all small populations; every order of up to three checkpoint errors during training; whole runs (population 1-5, 0-3 generations); refit sequences; every operator list up to length 3 (4); network training splits.",
 oracle="Every reported score refitted independently; history monotone; derivative columns by exact polynomial networks.",
 bounds="55 000 states, 252 000 transitions, 83 s.",
 reach="repeats, empty members and sizes other than the default appear only for particular draws.")
TXT["C20"] = dict(
 explored="Every module up to three factors with 15 coefficients, every ordered pair (and triples) of small modules, every operator list up to length 3, both left-hand sides; equations displayed after real searches and by the plot adapter.",
 oracle="Text and LaTeX read back by an independent reader; injectivity to four decimals.",
 bounds="55 000 states, 11 s.",
 reach="names depend on the operator list in force, not on the default one.")
TXT["C21"] = dict(
 explored="Every symbol the real step can pick for every dominating score and mask; the real search loop over a stand-in network with every single deviation at every position; every equation of up to four words over three terms and every vocabulary word for splitting and de-duplication.",
 oracle="The grammar; factor and divisor multisets of terms.",
 bounds="13 000 states, 220 000 transitions, 16 s.",
 reach="length-limit and masked-symbol cases have vanishing probability under trained weights.")
TXT["C22"] = dict(
 explored="Every vocabulary word under every order of up to four axes on three analytic fields; every right-hand side of up to three words over eight terms on eight problem variants (cases of equal and unequal size, undefined values, infinities), alone and after others.",
 oracle="Symbolic derivatives (sympy) of the fields; an independent reward.",
 bounds="38 000 equations, 54 s.",
 reach="the value of a word is only ever inspected through a reward; history dependence needs pairs.")
TXT["C23"] = dict(
 explored="Every stream of scores of up to three candidates in two rounds, structured streams around the capacity of ten; whole searches with every assignment of four scores to up to four candidates.",
 oracle="The definition of the list: sort distinct defined scores, cut at ten.",
 bounds="2 400 states, 49 000 transitions, 27 s.",
 reach="placement errors need two new scores in a later round.")
TXT["C24"] = dict(
 explored="Every history (4-5) of 16 registry operations over a class lattice; every history (3-4) of 13 configuration/plot operations; every plot function with every argument subset; pairs of real plots of every adapter and intent.",
 oracle="Most-specific-class dispatch recomputed; files written compared byte by byte with a fresh process's.",
 bounds="288 000 transitions, 125 s.",
 reach="lazy registration and leaking options are history-dependent.")
TXT["C25"] = dict(
 explored="Every summary object over 13 shapes, seven element types and argument forms; every cut of 3-5 axis fields; every figure request of the four adapters over bounded variants of what a model holds; network-assisted residuals and field comparisons for scattered points in 1-3 space dimensions over time and space units and offsets.",
 oracle="Independently computed numbers against the numbers handed back and those actually drawn (artists read back as the figure is saved); the model afterwards.",
 bounds="163 000 states, 190 s.",
 reach="a figure with mirrored data looks plausible and no test reads it back.")
TXT["C26"] = dict(
 explored="Every assignment of 16 colliding names to two and three inputs over every expression of up to 4 tokens, up to 23 inputs under every rotation; every history (3-4) of 15 operations with every query after every step; every expression of up to 4-5 tokens fitted and predicted; histories (4-5) of KD_PySR over four kinds of backend.",
 oracle="Simultaneous substitution; the latest successful fit.",
 bounds="306 000 transitions, 44 s. The search is scripted except in 'regression searches'; PySR is a recorder.",
 reach="names that look like inputs (x2 for the first input) collide only in particular orders.")
TXT["C27"] = dict(
 explored="Every expression of bounded size over eight alphabets in both notations, expanded and not; every program of one and two, and a twelfth (thorough: all) of three, terms from sixteen shapes and up to ten coefficients; programs of the real task; the viz entry point over nine axis layouts.",
 oracle="An independent reader of the LaTeX with exact Taylor arithmetic at three points.",
 bounds="12 500 states, 47 000 comparisons, 120 s.",
 reach="precedence and chain-rule expansion errors are confined to small families of shapes.")
TXT["C28"] = dict(
 explored="Every sequence of pushes, batch pushes, pops and removals up to depth 6-7 with tied, fixed and free scores and every capacity, both queues.",
 oracle="A nondeterministic reference model (sets of allowed contents under ties).",
 bounds="73 000 states, 157 000 transitions, 22 s.",
 reach="heap order breaks only after particular replace/evict sequences.")
TXT["C29"] = dict(
 explored="Every permutation of up to four cases with every subset of shipped weights under both filters; retrained networks over records, orders, grids and seeds with every input and target that passes through the network recorded; every ranking of three (four) validation errors.",
 oracle="The case's own grid and observations; the stage with the lowest recorded error; weight files and observations byte by byte.",
 bounds="850 states, 17 000 transitions, 55 s. The language model and candidate scoring are stand-ins.",
 reach="the shipped tests never have more than one case with weights.")
TXT["C30"] = dict(
 explored="Every course of the validation loss and of the last round's loss up to 4-5 epochs over five levels (huge and NaN included); every equation up to 4 tokens (and part of those of 5) over ten operators in 1-3 dimensions with none, one or two parameters, local sampling and weights; every sequence of found equations over 1-2 (thorough 3) rounds of the real alternation.",
 oracle="A double-precision copy of the network with an independent reading of the equation: one gradient step must move the weights as it predicts; checkpoints read back; the network's own field and derivative at the task's points.",
 bounds="19 000 states, 59 000 transitions, 85 s. Optimizers are plain gradient descent or scripted; the searches' answers are enumerated.",
 reach="an equation silently left out of the training, or a checkpoint one step late, still gives a smooth field.")

TXT["C31"] = dict(
 explored="Every expression the sampler can draw (every outcome of every random draw, scripted) for small libraries and lengths up to 5, with lstm and gru cells, one and two layers, learned and one-hot observations, soft and hard priors, batches of 1, 2 and 5, and the training modes policy gradient, entropy, priority queue by likelihood and by policy gradient; all again after a real training step.",
 oracle="The probabilities handed to the random draw themselves: they must be the same in every batch, add up to one over all expressions, and the gradient of the documented loss built from them must be the parameter change the training step makes.",
 bounds="23 000 states, 124 000 transitions, 30-60 s. The optimizer is replaced by plain gradient descent so that the change of the parameters is the gradient.",
 reach="a sampler that forgets its recurrent state between tokens, or trains one token too many, gives plausible expressions all the same; only the whole distribution and its gradient tell (this found such a defect).")

PLANTED = """
`seeded/<id>/` holds changes written from the text of a property and the code, each confirmed to build, to
pass the 521 stable tests and to fail its own demonstration. `tools/plant.sh ID tests check` repeats that.
The folder holds the few that were run with the last milestone; 25 more (all reported by the check of their own
property) are in the history of this repository, in commit 310d472.
"""
CAUGHT = {}
SURVEY = """
Beyond the kept changes, each check was measured against single-line changes of the code it covers, written from the
property texts and the source (some 350 in all; they are not kept, because most differ from one another only in place).
Of those run so far against C01-C19, about four in five were reported at once. Every miss was traced: roughly half
turned out not to change behaviour (an earlier test makes the changed branch unreachable, a tie broken the other way, a
copy that nobody writes through) or to change something no property speaks about; the others led to the parts added
later: units of the coordinates and uneven axes (C08, C17), infinite members and re-evaluated terms (C15), third
derivatives by automatic differentiation (C17), nested parameters replaced and set in one call (C13), checkpoint orders
and operator changes between calls (C19), the score returned by the lasso (C07), residual conventions (C18, C25).
Several of these parts then found genuine defects of the unchanged tree (listed above as repaired).
"""
