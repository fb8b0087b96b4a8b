"""Which module decides which property, and what its evidence says."""
ASSUME = [
 'Arithmetic is modelled over the reals and unbounded integers: rounding, overflow and NaN inputs are outside the model.',
 'Calls into std, ndarray, itertools and spaces follow the summaries in an/lib.py; user closures and type parameters are uninterpreted (any function).',
 'Equality of value-flow terms is decided by normal form: polynomial identity over a prime field with fixed random interpretation of atoms (error probability per obligation below 2^-60); a difference is reported only with a concrete witness interpretation over the reals.',
]
def A(s): return s
CHECKS = {}
def reg(pid, module, explain, needs=('',), **kw): CHECKS[pid] = dict(module=module, explain=explain, needs=needs, **kw)
GV = 'Abstract interpretation of the type-checked program (THIR) into value-flow terms (global value numbering with rational-function normal forms; loops, closures and iterator chains summarised as indexed families). '
reg('F01', 'spec_features', GV + 'Obligation: every constructor/conversion yields, at a symbolic index, the stored activation or zero, and every expansion returns it, for symbolic size and contents.')
reg('F02', 'spec_features', GV + 'Obligation: accessors, removal and counting agree with the expansion at a symbolic index in both representations.')
reg('F03', 'spec_features', GV + 'Obligation: dot, matrix product, feature-feature product and sum equal the folds over the expansion, for every operand form pair.')
reg('F04', 'spec_features', GV + 'Obligation: each weight after add/scaled-add equals old weight plus factor times activation at a symbolic index, both forms.')
reg('F05', 'spec_features', GV + 'Obligation: map variants apply an uninterpreted function at every symbolic index.')
reg('F06', 'spec_features', GV + 'Obligation: merge variants apply an uninterpreted binary function at every symbolic index, all form pairs.')
reg('F07', 'spec_features', GV + 'Obligation: stacking concatenates at a symbolic index, all form pairs.')
reg('F08', 'spec_features', GV + 'Obligation: equality never aborts and equals elementwise equality at all indices.')
NA = {}
reg('B01', 'spec_basis', GV + 'Obligation: for every basis and combinator, the size of the projection equals the declared dimensionality and stored indices lie below it, for symbolic parameters and input.')
reg('B02', 'spec_basis', GV + 'Obligation: ith(x, i) succeeds and equals entry i of project(x), at a symbolic index below the dimensionality, for every enumerable basis.')
reg('B03', 'spec_basis', GV + 'Obligation: ith(x, n + e) is an error equal to the index error of (index, dimensionality), for symbolic e >= 0, without any abort.')
reg('B05', 'spec_basis', GV + 'Obligation: project/ith of a stack over two opaque bases (any form, failing or not) concatenate, route and propagate errors.')
reg('B06', 'spec_basis', GV + 'Obligation: each normaliser over an opaque basis divides each entry by the norm of the same projection, or yields zeros.')
reg('B07', 'spec_basis', GV + 'Obligation: each Fourier feature equals cos(pi * <c, (x - lo) / (hi - lo)>) at a symbolic index, limits from constructor or space.')
reg('B08', 'spec_basis', GV + 'Obligation: each polynomial feature equals the product of powers; the constant term is last and equal to one for every order.')
reg('B09', 'spec_basis', GV + 'Obligation: each Chebyshev feature equals the product of first-kind polynomials generated by the recurrence; orders above 11 are refused.')
reg('B10', 'spec_basis', GV + 'Obligation: every kernel equals its covariance formula of the weighted distance over all coordinates, all argument forms.')
reg('B11', 'spec_basis', GV + 'Obligation: the only stored index is the row-major index of the cell of the input, with activation one.')
reg('B12', 'spec_basis', GV + 'Obligation: the stored indices are exactly the per-tiling hashes of (tiling, Euclidean tile coordinates) modulo the memory size.')
reg('B13', 'spec_basis', GV + 'Obligation: constant, bias and closure bases return exactly their contents or the closure result.')
reg('B14', 'spec_basis', GV + 'Obligation: row k of the feature set holds the digits of k + 1 in base order + 1 (lexicographic enumeration without the all-zero tuple).')
reg('B15', 'spec_basis', GV + 'Obligation: kernel-basis feature i is kernel_i(x, centre_i); homogeneous and partition constructors give the stated kernels and centres.')

reg('B16', 'spec_basis', GV + 'Obligation: card() of every basis is infinite, a product for the stack, the inner one for normalisers, over opaque inner spaces of finite and infinite cardinality.')
for p, t in (('O01', 'a scaled step equals a step with the scaled features, for every gradient-driven optimiser, form and tensor shape; a plain step equals scale one'),
             ('O02', 'a step with the sparse form of a vector leaves the same weights and state as its dense expansion, at symbolic indices'),
             ('O03', 'reset after an arbitrary state equals the state of a fresh optimiser, field by field, and behaves alike over the next steps'),
             ('O04', 'each weight after an (implicit) SGD step equals the published rule'),
             ('O05', 'velocity and weights after a momentum step equal the published rules at symbolic indices'),
             ('O06', 'accumulator and weights after an Adagrad step equal the published rule (tiny constant below 1e-3 allowed)'),
             ('O07', 'moments and weights at a symbolic step count equal the published rules, with bias correction derived from the step count since construction or reset'),
             ('O08', 'hyper-parameters are unchanged by any step or reset, fresh state is zero of the requested size, steps return Ok')):
    reg(p, 'spec_optim', GV + 'Obligation: ' + t + '.')
for p, t in (('L01', 'scalar/vector evaluation equals the dot product of the projection with each weight column, all accessors agree, model unchanged'),
             ('L02', 'an update is one optimiser step per output on that output\'s weights with the projection and the caller\'s error; opaque basis and optimiser'),
             ('L03', 'a failing projection is returned and leaves weights, optimiser and basis unchanged; no Result carrying the crate error is discarded anywhere (call-graph-wide lint)'),
             ('L04', 'construction gives zero weights of the right shape and keeps what it is given'),
             ('L05', 'an update of one output leaves the weights of the others alone and uses only that output\'s optimiser state')):
    reg(p, 'spec_lfa', GV + 'Obligation: ' + t + '.')
EFF = 'Effects analysis over the type-checked program: '
reg('B04', 'effects', GV + 'Obligation: a second projection or single-feature query of the same basis with the same input yields the same value and leaves the basis and the input unchanged; no static or interior-mutable state, clock, random or hash-order source is reachable from a projection.')
reg('L06', 'effects', EFF + 'no function outside projecting and evaluating (those are B04) reaches a static, thread-local, clock, random, environment, address or hash-order source, and no type of the library holds interior-mutable or shared state.')
reg('F09', 'effects', GV + 'Whole-library sweep under tracked memory layout: with C-order, Fortran-order or strided argument arrays every result is the same value, and no iteration order of a hash map reaches a float fold.')
reg('F10', 'effects', EFF + 'every unsafe operation reachable from a safe public function has its obligation (index below length, initialised before read, layout of raw pointers) derived from the path condition for every implementation of the user traits; constructors establish private-field invariants.')

SD = ' The serde-enabled configuration is analysed; (de)serialiser bodies (derived and hand-written) are interpreted against an abstract data format that records names, order and values.'
SA = ['Formats are modelled as a self-describing map form and a positional form; a format hands back the values it was given, and nested values round-trip by themselves (each model type has its own obligation).']
reg('S01', 'spec_serde', GV + 'Obligation: for arbitrary field values of every model type, deserialising what was serialised yields equal fields, in map and positional formats; derived tables that are not written must come back equal for every value a public constructor can make.' + SD, needs=('serde',), assume=SA)
reg('S02', 'spec_serde', GV + 'Obligation: documents with a missing, duplicated, unreadable or unknown part, and a Chebyshev order the library cannot represent, give an error and never abort; well-formed ones are accepted.' + SD, needs=('serde',), assume=SA)
reg('S03', 'spec_serde', 'Query over the type-checked program in both feature configurations: every public model type has Clone and Debug (and Serialize and Deserialize with the feature) for every choice of its type parameters that has them, no two clones share interior-mutable state, and hand-written copies carry every field over.', needs=('', 'serde'))
reg('S04', 'spec_serde', GV + 'Obligation: every public basis, kernel, optimiser and error type has an equality; a derived one compares every field, and a hand-written one is interpreted on arbitrary, equal and single-field-different pairs against the conjunction of the field equalities; a hand-written != is its negation.')
