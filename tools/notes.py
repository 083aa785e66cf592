NA = {}
NOTE["C14"] = (SL + ": exhaustive enumeration of random choices",
  "All random choices of tree creation (depth 2 and 3), of single and double mutations, replacement and whole tiny generations within stated deviation bounds; trusts that the random source is numpy's/Python's module-level generator.")
NOTE["C15"] = (XS,
  "Every term tree up to depth 3 (depth 4 within a deviation bound), alone and in pairs, on eight small problems, against an independent recursive evaluator.")
NOTE["C16"] = (SL + ": exhaustive enumeration of random choices",
  "Every selection/crossover/mutation choice of short runs of the real generational loop within a deviation bound, with scores recomputed independently for every member after every generation.")
NOTE["C17"] = (XS,
  "Every request (axis order, left-hand axis, fields, target, parameters, trimming, coordinate variant) of a bounded space through the real context and the estimator front door, against an independent table of terminals; every single (thorough: pair of) inconsistency must be refused; polynomial networks on every small request and networks trained on the fly against the derivatives of the network itself.")
NOTE["C18"] = (XS,
  "Every expression of two operator levels (towers of a third) and every combination of up to three terms and 13 coefficients is rendered and read back by an independent reader; real candidates are compared with independently computed coefficients and predictions; naming functions against a reference over all small names.")
NOTE["C01"] = (XS,
  "Every sequence of permitted tokens up to length 6-7 for six libraries under every single structural rule, every pair (thorough: triple) and the shipped combinations, and eight length windows: mask, observation and batch independence of the real task at every partial expression against rules written slot by slot, every finished expression judged as a tree; the real sampling loop with every random pick taken over; whole-sequence masks against stepwise ones.")
NOTE["C28"] = (XS,
  "Every sequence of pushes, batch pushes and pops up to depth 6-7 with tied, fixed and free scores and every capacity against a nondeterministic reference model (ties left open).")
NOTE["C24"] = (XS,
  "Every history (depth 4-5) of 16 registry operations over a class lattice, every history (depth 3-4) of 13 configuration/plot operations, every plot function with every argument subset, and pairs of real plots of every adapter and intent compared file by file with a fresh plot; stand-in models carry the attributes the adapters read.")
NOTE["C13"] = (XS,
  "Every sequence (depth 4-5) of 21 container operations compared step by step with an ordinary dictionary, every pair of small nested dictionaries merged, every parameter and pair of parameters of seven estimators through constructor and set_params, every configuration source.")
NOTE["C09"] = (XS,
  "Every axis order of up to three axes with sizes 1-3 against every field shape and every single defect (accepted exactly when consistent); on every small grid (three stored layouts, ascending, descending and uneven axes) every index, range, sample size and enumerated random draw of every accessor against direct indexing; every call sequence of depth 3-4.")
NOTE["C10"] = (XS,
  "Every registered name and every near-miss spelling loaded and compared with an independent reading of its file; every loader over files written in every orientation, size 1-5 and array layout; every metadata operation sequence of depth 4-5 against a dictionary.")
NOTE["C19"] = (SL + ": exhaustive enumeration of random choices",
  "Every random choice of module/genome creation (length 1-3), every crossover, deletion of repeats and selection and (within a deviation bound) mutation over all small populations, whole runs (population 1-5, 0-3 generations) within a deviation bound of rotating defaults with every score refitted independently, refit sequences, every operator list up to length 3 (thorough 4) of the derivative library, network training splits.")
NOTE["C20"] = (XS,
  "Every module up to three factors with 15 coefficients, every ordered pair (and triples) of small modules, every operator list up to length 3, both left-hand sides, text and LaTeX read back by an independent reader; equations displayed after real searches and by the plot adapter.")

NOTE["C21"] = (SL + ": exhaustive enumeration of sampled symbols",
  "Every symbol the real step can pick for every dominating score and mask; the real search loop over a stand-in network with every single deviation at every position (capped per score shape); every equation of up to four words over three terms and every vocabulary word for splitting and de-duplication.")
NOTE["C22"] = (XS,
  "Every vocabulary word under every order of up to four axes on three analytic fields against symbolic derivatives; every right-hand side of up to three words over eight terms (quick: a third of the longest) on eight problem variants against an independent reward, alone and after others.")
NOTE["C23"] = (XS,
  "Every stream of scores of up to three candidates in two rounds and structured streams around the capacity of ten against the definition of the list; whole searches of the real loop with a stand-in network, every assignment of four scores to up to four candidates.")
NOTE["C06"] = (XS,
  "Every sequence up to depth 3 (thorough 4) of configuring (none, two dictionaries, a file, set_params), scoring expressions, changing operators, seed and output path, importing 1-D, parameterised, 2-D, 3-D and other-field datasets, preparing, resetting and training on the three symbolic-search estimators; the effective state (library, rules, state manager, network weights, data, configuration, random state, PINN, paths) is compared with a fresh estimator taken through the last steps; second estimators sharing a configuration. Neural training and the sampling loop are stand-ins.")
NOTE["C08"] = (XS + "; exhaustive enumeration of sampling draws",
  "Every axis order of 2-4 axes with equal and unequal sizes x left-hand axis x target field x parameter sets x descending axes, through the adapters and the models themselves (DISCOVER task and tokens, PINN inputs, SGA solver configuration and context, DLGA training pairs), against a field whose value identifies its grid point; every draw of measured and training points on tiny grids; every sampling option under eight seeds, quantile cuts of every grid up to 10x10, descending axes; every unrepresentable dataset of the enumerated kinds refused.")
NOTE["C04"] = (XS,
  "Every routine (DISCOVER, SGA, kd.utils, PDE-FIND, viz), axis, grid size from the smallest allowed and four spacings: all unit impulses give the complete operator; no leakage to other lines, one operator for all lines, moment conditions at every row including the boundary; 14 dense fields of other types and layouts, all pairs of impulses, two origins; Laplacians, polynomial fits, automatic differentiation of every monomial, refusals.")
NOTE["C02"] = (XS,
  "Every token list up to length 5-6 (thorough 6-7) over five libraries in four integer forms, every completion of every unfinished list, several expressions per list, every history of 14 operations of depth 4 (thorough 5) against a model of sharing and constants, every sum/difference tree up to 6 (7) leaves for signs and weights, every small tree through text, display, pickle, dill, copy and deepcopy in six states.")
NOTE["C03"] = (XS,
  "All expressions up to 5-6 tokens over groups of operators on generic, zero, negative, large and multi-dimensional data against an independent reader of the token list; every operator and composition of two operators, plain and protected, on special values; automatic differentiation of all small expressions against exact polynomial derivatives; every history of three operations (thorough four) including evaluation under other error handlers and on failing expressions; torch against numpy form with and without switching; every small equation through the reward with four metrics.")
NOTE["C05"] = (XS,
  "Every assignment of nine kinds of scores (invalid, negative, zero, equal, larger) to batches of 1-5 candidates over up to 4 steps at five risk levels through the real searcher with a scripted controller (best score and expression after every step, exact training batch row by row, queue); every history of three operations of stepping, searching with and without history and clearing the cache; an aggregator's further candidates; all score vectors with NaN through the selection; scores from the real tasks; alternation with the network.")
NOTE["C07"] = (XS,
  "Every set of up to three (thorough four) of twelve kinds of columns (scaled, collinear, repeated, zero) with every coefficient vector over a small alphabet and general right-hand sides, several tolerances, with and without normalisation and ridge, against an independent thresholding by pseudo-inverse; all column orders, several scalings; the search over tolerances, the lasso, the DISCOVER coefficient rules around both thresholds and with non-finite data, levels, and the genetic search's scores of all small candidates.")
NOTE["C12"] = ("exhaustive fault injection into the real code: every placement of a failure among the steps of each operation, judged against a reference",
  "Every combination of failures of credentials, client, project list, submission, parameters and files on submission; every status; every sequence (depth 3-4) of ten download outcomes; every sequence (depth 3-4) of polls through the web callbacks; every option combination, file layout, dataset choice and fault of the runner; form to estimator in process and through the platform. The platform, the web toolkit and the estimators are stand-ins.")
NOTE["C26"] = (XS,
  "Every assignment of 16 colliding names to two and three inputs over every expression of up to 4 tokens, up to 23 inputs under every rotation; every history (depth 3-4) of 15 operations on the DISCOVER regression wrapper with every query after every step; every expression of up to 4-5 tokens fitted and predicted; every history (depth 4-5) of KD_PySR over four kinds of backend. The search is scripted except in the part 'regression searches'; PySR is a recorder.")
NOTE["C27"] = (XS,
  "Every expression of bounded size over eight alphabets (every operator of the library to two, families of operators to 3-5 tokens, twenty names of fields and parameters) in both notations, expanded and not, read back by an independent reader and evaluated with exact Taylor arithmetic at three points; every program of one and two, and a twelfth (thorough: all) of three, terms from sixteen shapes and up to ten coefficients; rounding of the coefficients; the programs of the real task against their predictions; the viz entry point over nine axis layouts.")
NOTE["C11"] = (XS,
  "Explicit-state exploration in which the state is the content (and order, strides, owning memory) of everything the caller handed in: every stage sequence of every model over nine dataset forms and seven memory layouts, every order of two or three estimators taking turns on one dataset (each compared with what it computes alone), every pair of dataset calls. Training and search lengths are cut to one or two steps; the PySR back end is a stand-in.")
NOTE["C25"] = (XS,
  "Every summary object over all combinations of a shape set (13 shapes), seven element types and argument forms, ill-formed ones refused; every cut of 3-5 axis fields; every figure request of the four adapters over bounded variants of what a model holds, with the numbers handed back, the numbers actually drawn (artists read back as the figure is saved) and the model afterwards compared with independently computed ones. Finite-difference error is excluded by fields on which any second-order scheme is exact.")
NOTE["C29"] = (XS,
  "Every permutation of up to four cases (quick: a part of the longer ones) with every subset of shipped weights under both filters; retrained networks over records, orders, grids and seeds with every input and target that passes through the network recorded and matched with the observations; every ranking of three (thorough four) validation errors. The language model and candidate scoring are stand-ins.")
NOTE["C30"] = (XS,
  "Every course of the validation loss and of the last round's loss over five levels up to 4-5 epochs against the checkpoint and stopping rule; every equation up to 4 tokens (part of 5) in 1-3 dimensions with and without parameters: the gradient step of the real training against a double-precision copy of the network with an independent reading of the equation; every sequence of found equations through the real alternation of search and training. Optimizers are plain gradient descent or scripted, searches are scripted.")
NOTE["C31"] = (XS,
  "Every expression the real sampler can draw from small libraries (scripted draws) under combinations of priors, lstm and gru cells, one and two layers, kinds of observation and batch sizes: the drawn probabilities against independence from the batch and total probability one; every training mode's parameter change against the gradient of the documented loss computed from the probabilities drawn with, before and after a training step. Plain gradient descent replaces the optimizer.")
