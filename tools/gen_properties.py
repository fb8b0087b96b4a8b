#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
F = "src/features.rs"
# ----------------------------------------------------------------- features
prop("F01", "Building and expanding a feature vector loses nothing",
 "Building a feature vector from activations, from index/activation pairs, from active indices or by conversion from a collection, and then expanding it to a plain vector (by copy, by move or by conversion), gives a vector of exactly the declared number of features that holds each stored activation at its own index and zero everywhere else. The declared number of features is the length of the dense data or the dimensionality given by the caller; for a bare list of indices it is one past the largest index (zero for an empty list).",
 ["inputs"], "every dense vector, every set of index/activation pairs and every dimensionality, empty collections included",
 "Tests expand a handful of short unit-activation vectors; none converts a sparse vector with a larger declared dimensionality, an empty list, or non-unit activations.",
 [F], [("Features::dense/sparse/unitary, From impls", F), ("Features::to_dense / into_dense", F), ("Features::n_features", F)],
 observe=["to_dense", "into_dense", "n_features", "From/Into conversions"])
prop("F02", "Reading, removing and counting elements agree with the expansion",
 "Reading the entry at an index below the number of features gives that entry's activation (zero, or nothing for the optional accessor, when it is inactive in a sparse vector), whatever the representation. Removing an index zeroes exactly that entry and changes neither any other entry nor the number of features. The active-feature count is the number of entries whose magnitude is non-negligible, the same for both representations of one vector.",
 ["inputs"], "every vector, representation, index and activation value",
 "Tests read only unit activations, so a read that returns 1.0 for any active entry passes; counts are sampled on three vectors.",
 [F], [("Index<usize> for Features", F), ("Features::get/uget/remove/n_active", F)], observe=["indexing", "get", "remove", "n_active"])
prop("F03", "Dot products, matrix products and sums are representation independent",
 "The dot product of a feature vector with weights, its product with a weight matrix, the dot product of two feature vectors, and the sum of activations equal the corresponding sums over the expanded vectors, for every combination of sparse and dense operands.",
 ["inputs"], "every pair of equal-length operands in each representation, every activation and weight",
 "Tests use unit activations with all-one or all-zero weights; a count in place of a sum, or a dropped activation factor, passes.",
 [F], [("Features::dot, dot_dense, dot_sparse, matmul, sum", F), ("Dot<W> / Dot<Features> for Features", F)])
prop("F04", "Accumulating features into weights adds alpha times each activation",
 "Adding a feature vector to a weight vector, optionally scaled by a factor, increases every weight by exactly that factor times the activation of the same index, leaves weights of inactive indices untouched, and does the same for the sparse and the dense form of the same vector.",
 ["inputs"], "every weight vector, feature vector, representation and scale",
 "No test calls either accumulation method directly.",
 [F], [("Features::addto / scaled_addto", F)])
prop("F05", "Mapping applies the function to every feature, in all variants",
 "Mapping a function over a feature vector applies it to every one of its features, inactive ones included, and preserves the number of features; the borrowing, consuming and in-place forms give equal results for equal inputs. A sparse vector stays sparse only if the function maps zero to (negligibly) zero. The form-specific mappings run exactly the function of the vector's own form, on its whole content.",
 ["inputs"], "every vector, representation and function",
 "Tests map three functions in place over one vector; the borrowing form is never called and variants are never compared.",
 [F], [("Features::map / map_into / map_inplace / map_dense / map_sparse / map_either", F)])
prop("F06", "Merging two feature vectors is elementwise in all variants",
 "Merging two feature vectors with a function gives, at every index below the larger of the two sizes, the function of the two activations there (zero for an inactive one), first operand first, in every combination of representations (two dense vectors must have equal sizes); the borrowing, consuming and in-place forms agree.",
 ["inputs"], "every pair of vectors, representation combination, dimensionality combination and binary function",
 "One test merges one sparse with one dense vector by addition, in place; other combinations, functions with f(x,0) != x and the borrowing form are never run.",
 [F], [("Features::merge / merge_into / merge_inplace", F)])
prop("F07", "Stacking two feature vectors concatenates them",
 "Stacking two feature vectors gives a vector whose size is the sum of the sizes, with the first vector's activations at their own indices and the second's shifted by the size of the first, whatever the representations. Two sparse vectors stack to a sparse vector.",
 ["inputs"], "every pair of vectors and representations",
 "Tests stack a few equally sized vectors with unit activations.",
 [F], [("Features::stack", F)])
prop("F08", "Equality of feature vectors is total and means equal contents",
 "Comparing two feature vectors always returns an answer rather than aborting; two vectors of the same form are equal exactly when their sizes and activations are equal, and vectors of different forms are equal exactly when their expansions are.",
 ["inputs"], "every pair of feature vectors, mixed representations included",
 "Tests only compare vectors of the same form.",
 [F], [("PartialEq for Features", F)])
prop("F09", "Results never depend on how a supplied array is laid out in memory",
 "Any array a caller can put into a feature vector, use as weights or return from an error closure (sliced, strided, reversed, over-allocated) behaves like a freshly allocated array with the same elements: no operation reads the backing storage beyond or out of logical order, nor aborts because of the layout.",
 ["inputs"], "every caller-supplied array, every memory layout",
 "All tests use freshly collected, contiguous arrays.",
 [F, "src/lib.rs", "src/optim/adam.rs", "src/optim/adamax.rs"], [("Features::stack, From<Features> for Vec", F), ("VectorLFA::update_with", "src/lib.rs"), ("as_slice_memory_order_mut on optimiser state", "src/optim/adam.rs")])
prop("F10", "Safe calls never cause undefined behaviour",
 "No sequence of safe API calls, including calls whose user-supplied closure or basis misbehaves or panics, reads uninitialised memory, materialises an invalid value, or accesses memory out of bounds.",
 ["inputs", "histories"], "every sequence of safe calls with any user closure, basis and input",
 "Undefined behaviour need not fail a test: the in-place tests run on momentarily invalid values and still pass.",
 [F, "src/basis/normalisation.rs"], [("unsafe blocks and MaybeUninit in map_inplace/merge*/uget", F), ("unchecked reads in the normalisers", "src/basis/normalisation.rs")])
# ----------------------------------------------------------------- bases
B = "src/basis/"
ALLB = [B+x for x in ("constant.rs","closure.rs","stack.rs","fourier.rs","polynomial/mod.rs","kernelised.rs","tile_coding.rs","uniform_grid.rs","normalisation.rs","mod.rs")]
prop("B01", "Every projection has exactly the declared number of features",
 "For every basis except a user-supplied closure, and every combinator over such bases, a successful projection has exactly as many features as the basis declares as its dimensionality, for every input; for a sparse projection every active index lies below that number.",
 ["inputs", "configurations"], "every input and every composition of bases",
 "Tests check sizes for a handful of configurations of single bases.",
 ALLB, [("Space::dim and Basis::project of each basis", B), ("n_features default", B+"mod.rs")])
prop("B02", "Asking for one feature agrees with the full projection",
 "For every basis that can compute a single feature, asking for the i-th feature of an input succeeds whenever i is below the basis's dimensionality and gives exactly the i-th entry of the full projection of that input, inactive entries included.",
 ["inputs"], "every basis, input and in-range index",
 "No test calls the single-feature accessor.",
 ALLB, [("EnumerableBasis::ith of each basis and its default", B)])
prop("B03", "An out-of-range feature index is reported as an error, never a value",
 "For every basis that can compute a single feature, an index at or beyond the dimensionality yields a basis error carrying that index and that dimensionality; it never yields a value and never aborts. The text of that error gives the index, then the dimensionality; displaying an error of any kind writes its whole message, and its description is that message.",
 ["inputs"], "every basis, input and out-of-range index",
 "No test calls the single-feature accessor.",
 ALLB+["src/error.rs"], [("check_index! guards and ok_or_else(index_error)", "src/error.rs"), ("EnumerableBasis::ith", B), ("Error::index_error, Display", "src/error.rs")])
prop("B04", "Projecting and evaluating are pure functions of model and input",
 "Projecting an input onto a basis and evaluating an approximator are deterministic: they change no state of the model and consult no clock, randomness, environment, global or interior-mutable state, so equal models give equal answers (up to the rounding of sums taken in a different order) on every call, in any order and from any thread. All provided models can be shared across and sent between threads whenever their type parameters can.",
 ["inputs", "histories", "schedules"], "every sequence and interleaving of projections and evaluations",
 "Tests project each input once, on one thread.",
 ALLB+["src/lib.rs", F], [("project/ith/evaluate take &self", B+"mod.rs"), ("no statics or cells", "src/")])
prop("B05", "A stacked basis concatenates both projections of the same input",
 "Projecting onto a stack of two bases projects the same input onto each and concatenates the results, first basis first; its dimensionality is the sum of theirs, a feature index is routed to the basis that owns it, and a failure of either basis is returned as it is. Adding a bias is stacking a constant one after the basis.",
 ["inputs", "configurations"], "every pair of bases, input and index",
 "Tests stack constant bases only, whose output ignores the input.",
 [B+"stack.rs", B+"mod.rs"], [("Stack::project/ith/dim", B+"stack.rs"), ("Combinators::stack/with_bias", B+"mod.rs")])
prop("B06", "Normalised bases divide every feature by the right norm",
 "The L0, L1, L2 and Linf normalisers return the inner projection with every activation divided, respectively, by the number of active features, the sum of magnitudes, the Euclidean length and the largest magnitude of that same projection, for dense and sparse projections alike. An all-zero projection is returned as all zeros, not as undefined values, and errors of the inner basis are passed on.",
 ["inputs", "configurations"], "every inner basis, representation and input, zero projections included",
 "The two tests compare without absolute value, so any normalisation that shrinks values passes; L0, Linf and sparse projections are not tested.",
 [B+"normalisation.rs", B+"mod.rs"], [("L0/L1/L2/LinfNormaliser::project", B+"normalisation.rs"), ("normalise_* combinators", B+"mod.rs")])
prop("B07", "Fourier features are cosines of the rescaled input",
 "Each Fourier feature is the cosine of pi times the inner product of its coefficient vector with the input rescaled so that each dimension's lower limit maps to zero and its upper limit to one, with limits taken from the constructor or, in order, from the given space.",
 ["inputs", "configurations"], "every input, order, dimensionality and limits",
 "Tests sample orders 1 and 2 in at most two unit-width dimensions, where a wrong scale factor does not show.",
 [B+"fourier.rs", B+"mod.rs"], [("Fourier::project/compute_feature, rescale!", B+"fourier.rs"), ("get_bounds", B+"mod.rs")])
prop("B08", "Polynomial features are products of input powers",
 "Each polynomial feature is the product over input dimensions of that input raised to the feature's exponent for the dimension; the optional constant term is one extra feature, last, equal to one for every input, available for every order.",
 ["inputs", "configurations"], "every input, dimensionality and order",
 "Two doc examples cover one dimension and orders 1 and 2.",
 [B+"polynomial/mod.rs"], [("Polynomial::project/compute_feature/with_zeroth", B+"polynomial/mod.rs")])
prop("B09", "Chebyshev features are products of the exact Chebyshev polynomials",
 "Each Chebyshev feature is the product over input dimensions of the first-kind Chebyshev polynomial of the feature's degree for that dimension, evaluated at the input rescaled from the limits to [-1, 1]; all hard-coded polynomials are exactly the Chebyshev polynomials of their degree, and orders beyond those available are refused at construction.",
 ["inputs", "configurations"], "every input, limits and order up to eleven",
 "No test touches this basis.",
 [B+"polynomial/mod.rs", B+"polynomial/cpfk.rs"], [("t_0..t_11", B+"polynomial/cpfk.rs"), ("Chebyshev::make_polynomials dispatch", B+"polynomial/mod.rs")])
prop("B10", "Kernels follow their formulas and use every coordinate",
 "Every kernel returns its documented covariance function of the lengthscale-weighted Euclidean distance between its arguments: symmetric, equal to the variance at zero distance, a function of every coordinate (the lengthscales are taken in turn, so that a single one applies to every coordinate), and the same for scalar, slice and vector arguments in one dimension.",
 ["inputs", "configurations"], "every kernel, parameter setting and pair of points",
 "Tests evaluate one of the six kernels at three points.",
 [B+"kernels/stationary.rs", B+"kernels/rational_quadratic.rs"], [("kernel_stationary and Kernel impls", B+"kernels/stationary.rs")])
prop("B11", "A uniform grid activates exactly the cell that contains the input",
 "A grid projection has exactly one active feature, with activation one: the row-major index (first dimension slowest) of the cell that contains the input, so two inputs share a feature exactly when they share a cell in every dimension, and the index is below the number of cells.",
 ["inputs", "configurations"], "every input and every partition counts per dimension",
 "Tests use the same partition count in every dimension, which hides a wrong stride.",
 [B+"uniform_grid.rs"], [("UniformGrid::hash/project", B+"uniform_grid.rs")])
prop("B12", "Tile coding activates one hashed tile per tiling, uniformly over space",
 "A tile-coding projection activates, with activation one, only indices below the memory size, one per tiling (fewer only through hash collisions), each determined by the tiling, the tile coordinates and the hasher alone. Tiles have the same width everywhere, negative coordinates included, and successive tilings are displaced by increasing odd multiples per dimension.",
 ["inputs", "configurations"], "every input, tiling count, memory size and hasher",
 "Tests only check the quantisation step; hashing and tile boundaries are never exercised.",
 [B+"tile_coding.rs"], [("bin_state / hash_state", B+"tile_coding.rs")])
prop("B13", "Constant and closure bases return what they were given",
 "A constant basis returns exactly its constants (or its unit-activation index set and size) for every input, a bias basis its single value, and a closure basis the closure's result for exactly the given input, errors included; their declared dimensionality is the size they were given.",
 ["inputs"], "every constant, index set, closure and input",
 "The one test for constants fails on this tree for an unrelated reason; closures are not tested.",
 [B+"constant.rs", B+"closure.rs"], [("Bias/Fixed/Closure project and dim", B+"constant.rs")])
prop("B14", "Feature sets enumerate every non-constant order tuple exactly once",
 "For a given order and dimensionality, the Fourier, polynomial and Chebyshev feature sets contain exactly one feature for every tuple of per-dimension orders from zero to the order other than the all-zero tuple, in lexicographic order.",
 ["configurations"], "every order and dimensionality",
 "Tests count features in one dimension and list order 1 and 2 in two.",
 [B+"mod.rs", B+"fourier.rs", B+"polynomial/mod.rs"], [("compute_coefficients", B+"mod.rs")])
prop("B15", "A kernel basis evaluates each prototype's own kernel and centre",
 "Feature i of a kernel basis is prototype i's kernel between the input and prototype i's centre; a homogeneous basis gives every centroid the same kernel, and a basis built from a partitioned space has one prototype at the centre of every cell with unit variance and lengthscales equal to the cell widths.",
 ["inputs", "configurations"], "every prototype list, partitioning and input",
 "Tests build homogeneous squared-exponential bases by hand; partition constructors are not tested.",
 [B+"kernelised.rs"], [("KernelBasis::project/homogeneous/exp_quad/matern_32/matern_52", B+"kernelised.rs")])
prop("B16", "Bases declare the cardinality of their feature space",
 "The feature space of every provided basis is declared infinite (its features are real numbers); a stack declares the product of the cardinalities of its two bases and a normaliser that of the basis it wraps.",
 ["inputs", "configurations"], "every basis type and every combination of inner bases",
 "No test asks for the cardinality of a basis.",
 [B+"mod.rs", B+"stack.rs", B+"normalisation.rs"], [("Space::card of every basis", B)])
# ----------------------------------------------------------------- optimisers
O = "src/optim/"
OPT = [O+x for x in ("mod.rs","sgd.rs","isgd.rs","momentum.rs","nesterov.rs","adagrad.rs","adam.rs","adamax.rs")]
prop("O01", "A step depends on features and error only through their product",
 "For every optimiser except implicit SGD (whose step length depends on the features themselves), a step with features and a scale factor changes weights and internal state exactly as a step with the features multiplied by that factor and unit scale; in particular a zero scale factor contributes nothing to the step. For every optimiser a step without a factor equals a step with factor one.",
 ["inputs", "histories"], "every optimiser, state, weight vector, feature vector and scale factor",
 "No test runs any optimiser.",
 OPT, [("Optimiser::step / step_scaled", O+"mod.rs")])
prop("O02", "Optimisers treat sparse and dense forms of a vector alike",
 "From equal optimiser states and weights, a step with a sparse feature vector leaves the same weights and the same optimiser state as a step with its dense expansion.",
 ["inputs", "histories"], "every optimiser, history and feature vector",
 "No test runs any optimiser.",
 OPT, [("match on the representation in each step_scaled", O)])
prop("O03", "Resetting an optimiser restores its freshly constructed state",
 "After a reset an optimiser behaves exactly like a newly constructed one with the same hyper-parameters and size, whatever was done before.",
 ["histories"], "every optimiser and every history of steps",
 "No test resets an optimiser.",
 OPT, [("Optimiser::reset vs new", O)])
prop("O04", "SGD and implicit SGD follow their update rules",
 "A plain SGD step adds learning rate times scale factor times the features to the weights; an implicit SGD step adds the same divided by one plus learning rate times the squared length of the features. Neither keeps state between steps.",
 ["inputs", "histories"], "every weight vector, feature vector, learning rate and scale",
 "No test runs any optimiser.",
 [O+"sgd.rs", O+"isgd.rs", F], [("SGD/ISGD::step_scaled, compute_lr", O+"sgd.rs")])
prop("O05", "Momentum optimisers follow their update rules",
 "With gradient g (features times scale factor), both momentum optimisers set the velocity to momentum times the velocity plus g at every index; classical momentum then adds learning rate times the new velocity to the weights, and Nesterov's method adds learning rate times (g plus momentum times the new velocity).",
 ["inputs", "histories"], "every state, weight vector, feature vector, momentum, learning rate and scale",
 "No test runs any optimiser.",
 [O+"momentum.rs", O+"nesterov.rs"], [("SGDMomentum/NAG::step_scaled", O+"momentum.rs")], state=[("velocity", "accumulated direction", O+"momentum.rs")])
prop("O06", "Adagrad follows its update rule",
 "With gradient g (features times scale factor), an Adagrad step adds g squared to the accumulator at every index and then adds to each weight the learning rate times g divided by the square root of the new accumulator (plus a tiny constant that keeps it finite).",
 ["inputs", "histories"], "every state, weight vector, feature vector, learning rate and scale",
 "No test runs any optimiser.",
 [O+"adagrad.rs"], [("Adagrad::step_scaled", O+"adagrad.rs")], state=[("accumulator", "sum of squared gradients", O+"adagrad.rs")])
prop("O07", "Adam and AdaMax follow their published update rules",
 "With gradient g (features times scale factor), Adam keeps exponential averages of g and g squared at every index and AdaMax of g with a decayed running maximum of its magnitude; at the t-th step since construction or reset each average is divided by one minus its decay rate to the power t, and every weight moves by the learning rate times the corrected first average over the (square root of the) second quantity plus a tiny constant.",
 ["inputs", "histories"], "every state, step count, weight vector, feature vector and hyper-parameters",
 "No test runs any optimiser.",
 [O+"adam.rs", O+"adamax.rs"], [("Adam/AdaMax::step_scaled, new, reset", O+"adam.rs")], state=[("beta products", "decay rates to the power of the step count", O+"adam.rs")])
prop("O08", "Optimiser steps change only the weights and the per-parameter state",
 "Learning rates, momentum and decay-rate settings keep their constructed values for ever: no step, scaled step or reset changes them, a fresh optimiser has all-zero per-parameter state of the requested size, and a step always succeeds.",
 ["histories"], "every optimiser and every history of steps and resets",
 "No test runs any optimiser.",
 OPT, [("step_scaled/reset/new of each optimiser", O)])
# ----------------------------------------------------------------- LFA
L = "src/lib.rs"
prop("L01", "Evaluation is the dot product of the projection with the weights",
 "A scalar approximator evaluates to the dot product of the input's projection with its weights; a multi-output approximator evaluates to one such value per weight column, in column order. Whole, single-output and iterator-style evaluation agree, the iterator yields exactly one value per output, and evaluation never changes the model. An output that does not exist is never given a value.",
 ["inputs", "configurations"], "every basis, weight collection and input",
 "No unit test evaluates an approximator.",
 [L, F], [("LFA::evaluate/evaluate_index/iter/try_iter, OutputIter", L)])
prop("L02", "Updates pass the projection and error unchanged to the optimiser",
 "An update performs exactly one optimiser step per updated output with the input's projection as features and the caller's error for that output as scale factor, on that output's weights; the closure form computes the error from the projection and the current prediction. Optimiser errors are returned. An update of an output that does not exist never succeeds.",
 ["inputs", "configurations"], "every basis, optimiser, weights, input, error and closure",
 "No unit test updates an approximator.",
 [L], [("LFA::update/update_index/update_with", L)])
prop("L03", "A failed projection leaves the model untouched and is reported",
 "When the basis fails to project an input, evaluation and update return that error and neither weights nor optimiser nor basis change; no error of a basis or an optimiser is dropped anywhere in the library.",
 ["inputs", "fault_sequences"], "every failing basis and every model operation",
 "No test uses a failing basis.",
 [L, B+"stack.rs", B+"normalisation.rs"], [("and_then/map chains on project", L)])
prop("L04", "Fresh approximators have zero weights shaped like the basis",
 "A newly constructed scalar approximator has one zero weight per basis feature, a multi-output one a zero matrix with one row per basis feature and one column per output, and construction keeps the given basis, weights and optimiser as they are; the reported number of outputs is the number of weight columns.",
 ["configurations"], "every basis and output count",
 "No unit test constructs an approximator.",
 [L], [("LFA::new/scalar/vector/n_outputs", L)])
prop("L05", "Outputs of a multi-output approximator are trained independently",
 "Updating a multi-output approximator changes each output exactly as if that output were trained on its own with its own error: an update of one output leaves every other output's weights unchanged, and what an optimiser has accumulated for one output never influences another.",
 ["inputs", "histories"], "every number of outputs, optimiser and history of updates",
 "No unit test trains a multi-output approximator.",
 [L], [("VectorLFA::update/update_index/update_with", L)])
prop("L06", "Training and feature arithmetic depend on nothing but their operands",
"Constructing, updating, stepping, resetting, converting and combining are deterministic: no function of the library consults a clock, randomness, the environment, addresses, the order of a hash table, or global, thread-local or interior-mutable state, so replaying the same calls from equal models gives equal models, and two models never influence each other.",
["inputs", "histories", "schedules"], "every function of the library and every interleaving of calls on separate models",
"Tests run each call once, on one model and one thread.",
[L, F, O+"sgd.rs", O+"isgd.rs", O+"momentum.rs", O+"nesterov.rs", O+"adagrad.rs", O+"adam.rs", O+"adamax.rs"], [("no statics, cells, clocks or generators in any reachable function", L)])
# ----------------------------------------------------------------- serde / errors
prop("S01", "Serialised models come back with all their data",
 "With serialisation enabled, every field of every serialisable type is written and read back under the same name and in the same order, so a round trip reproduces the model; anything not written is rebuilt from what is, to the same value.",
 ["inputs", "configurations"], "every serialisable type and value",
 "The test suite never enables the serialisation feature.",
 [B+"polynomial/mod.rs", F, L, O+"adam.rs", B+"tile_coding.rs"], [("serde derives and the hand-written Chebyshev deserialiser", B+"polynomial/mod.rs")])
prop("S02", "Deserialising malformed data reports an error instead of aborting",
 "With serialisation enabled, deserialising a document that is incomplete, has duplicate fields, or describes a model the library cannot represent returns an error; it never aborts.",
 ["inputs"], "every document",
 "The test suite never enables the serialisation feature.",
 [B+"polynomial/mod.rs"], [("ChebyshevVisitor", B+"polynomial/mod.rs")])
prop("S03", "Every public model type is cloneable, printable and serialisable",
 "Every public basis, kernel, optimiser, feature vector and approximator can be cloned into an equal independent copy and printed for debugging and, with serialisation enabled, be serialised and deserialised, whenever its type parameters can.",
 ["configurations"], "every public model type, both feature configurations",
 "Missing implementations only surface in user code; the tests use few of them and never enable serialisation.",
 ALLB+OPT+[L, F], [("derive attributes on every model type", "src/")])
prop("S04", "Models and errors compare equal exactly when all their data are equal",
 "Every public basis, kernel and optimiser, and every error of the library, can be compared for equality; two values of one type are equal exactly when each of their fields is (parameters, accumulated state and cached tables alike), and the inequality operator is the negation. Feature vectors are compared by contents (F08).",
 ["inputs", "histories"], "every pair of values of a public model or error type",
 "Tests compare feature vectors and two error values only.",
 ALLB+OPT+["src/error.rs"], [("PartialEq of every model type", "src/")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
