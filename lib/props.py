"""Single source of metadata: properties.jsonl and MANIFEST.json are generated from here (gen.py)."""

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

SYMX = ("symbolic execution of the real generic code (scalar type replaced by SMT terms, every "
        "comparison forks), obligations discharged by z3/cvc5, models replayed on f64")
KANI = "bounded model checking of the compiled code (Kani/CBMC), counterexamples replayed natively"

REALS = ("exact real arithmetic: rounding, overflow, infinities and NaN of f64 are outside the claim "
         "unless the property says so")
TRANS = ("transcendental functions are uninterpreted, constrained by the identities listed in "
         "symx/src/smt.rs; their f64 implementations are trusted")
SOLV = "z3, cvc5 and the term simplifier of symx/src/term.rs are trusted; models are replayed natively"
CBMC = "CBMC's model of the Rust standard library (allocation never fails)"

PROPS = {}

def prop(id, **k):
    k.setdefault("assumptions", [])
    PROPS[id] = k

prop("C01",
    title="The adjoint of a scalar expression evaluates to its derivative",
    statement="For every scalar expression built from the library's operators, every context and every "
        "variable, evaluating the adjoint gives the mathematical partial derivative of the expression "
        "with respect to that variable, wherever that derivative exists. This holds for any nesting of "
        "operators, in whichever internal representation the operands arrive, and for every identifier.",
    over=["inputs", "programs"],
    qtext="all real operand values and operand derivatives in the domain of each operator, and all "
        "compositions of operators (one inductive step per operator, plus whole expressions)",
    tests="The unit tests evaluate each adjoint at a handful of points, one operator deep; they cannot "
        "cover every point nor compositions of operators.",
    files=["aegir/src/ops/arithmetic/unary.rs", "aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/trig.rs",
        "aegir/src/ops/special.rs", "aegir/src/ops/logarithmic.rs", "aegir/src/ops/sigmoid.rs",
        "aegir/src/ops/linalg/mod.rs", "aegir/src/meta/variable.rs", "aegir/src/meta/constant.rs"],
    mechanism=mech(("Differentiable::adjoint of every operator", "aegir/src/ops"),
        ("VariableAdjoint, ConstantAdjoint", "aegir/src/meta")),
    bin="c01",
    functions=["Differentiable::adjoint and Function::evaluate/evaluate_spec of every scalar operator "
        "(arithmetic, trigonometric, logarithmic, special, sigmoid, contraction on scalars), of "
        "variables, constants and all shipped identifiers"],
    bounds="one operator per case over arbitrary (value, adjoint) operands in raw, constant and diagonal "
        "representation; 32 whole expressions of up to six operators; all real inputs in the stated domains",
    assumptions=["|x| and sgn at x = 0, ln/x ln x/gamma outside x > 0 and powers of non-positive bases "
        "(except integer constant exponents) are excluded: no derivative there", REALS, TRANS, SOLV,
        "operators whose derivative has no closed form in the encoding (digamma, erf) and those without "
        "an adjoint are covered by C04 only"],
    technique=SYMX,
    note="Every real input within the domains, by solver; the oracle is forward-mode differentiation of "
        "the same node on dual scalars, whose chain rule is written in symx/src/jet.rs.")

prop("C02",
    title="Gradients and Jacobians of array expressions are correct and correctly laid out",
    statement="For every expression over arrays, tuples and scalars whose adjoint the type system accepts, "
        "each entry of the evaluated adjoint is the partial derivative of the corresponding output entry "
        "with respect to the corresponding input entry, with output indices before input indices. The shape "
        "of the result is the shape of the value followed by the shape of the target.",
    over=["inputs", "programs"],
    qtext="all real entries of arrays of the listed shapes and all listed expression families",
    tests="Tests check a few fixed vectors of length two or three; index layout and summation errors "
        "show only on non-symmetric values, longer or non-square shapes.",
    files=["aegir/src/ops/linalg/mod.rs", "aegir/src/buffers/arrays/contraction_ops.rs",
        "aegir/src/meta/variable.rs", "aegir/src/meta/constant.rs", "aegir/src/ops/arithmetic/binary.rs",
        "aegir/src/ops/arithmetic/unary.rs"],
    mechanism=mech(("VariableAdjoint (identity block)", "aegir/src/meta/variable.rs"),
        ("Contract adjoint", "aegir/src/ops/linalg/mod.rs"),
        ("Precedence of buffer classes", "aegir/src/meta/mod.rs")),
    bin="c02",
    functions=["adjoint, evaluate and evaluate_spec of variables, constants, arithmetic, trigonometric, "
        "logarithmic and sigmoid operators, tensor product and dot over arrays, tuples and scalars",
        "VariableAdjoint/ConstantAdjoint for targets and values of rank 0 to 3"],
    bounds="vectors of length 1-5 by vectors of length 1-5, matrices up to 2x3/3x2/2x4/1x4 by matrices and "
        "vectors, rank 3 up to 3x1x2 by scalars, contractions up to 2x3x4; every real entry",
    assumptions=["dot products by a vector: the left Jacobian is symmetric (otherwise see known-findings.txt)",
        "compositions the type system rejects have no adjoint and make no claim", REALS, TRANS, SOLV],
    technique=SYMX,
    note="Every real entry within the listed shapes, by solver. Three recorded defects (sum, dot with a "
        "non-symmetric left Jacobian, scalar (x) vector) are pinned exactly and reported as KNOWN-FINDING.")

prop("C03",
    title="Second-order adjoints are second derivatives",
    statement="Differentiating an adjoint again, with respect to the same or another variable, gives an "
        "expression that evaluates to the corresponding second partial derivative, and mixed partials agree "
        "in either order.",
    over=["inputs", "programs"],
    qtext="all real inputs in the domains of the operators; expressions whose second adjoint is well typed",
    tests="No existing test evaluates a second derivative.",
    files=["aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/arithmetic/unary.rs", "aegir/src/ops/trig.rs",
        "aegir/src/ops/logarithmic.rs", "aegir/src/ops/sigmoid.rs", "aegir/src/meta/variable.rs"],
    mechanism=mech(("adjoint types closed under differentiation", "aegir/src/ops"),
        ("ConstantAdjoint of VariableAdjoint", "aegir/src/meta/variable.rs")),
    bin="c03",
    functions=["Differentiable::adjoint applied twice, evaluate and evaluate_spec of the result, for every "
        "operator whose adjoint type is itself differentiable, for variables and constants"],
    bounds="one operator per case over arbitrary (value, first derivatives, mixed derivative) operands in up to "
        "five representations, on scalars and arrays up to 2x3; 33 whole expressions over two scalar variables "
        "and an array of up to three entries; every real input in the domains",
    assumptions=["targets are scalars (second adjoints by arrays are covered only where C02's sources are)",
        "|x| at x = 0, ln, x ln x, powers outside x > 0 are excluded: no derivative there",
        "operators whose adjoint is not differentiable in the type system (sgn, gamma) make no claim", REALS, TRANS, SOLV],
    technique=SYMX,
    note="Every real input within the domains, by solver; the oracle evaluates the same node on jets of jets.")

prop("C04",
    title="Every operator computes its documented function, entry by entry",
    statement="Evaluating an operator over any buffer kind (scalar, tuple, array of any rank, run-time sized "
        "vector) gives, at every index, the documented mathematical function of the operand entries at that "
        "index, with scalars broadcast over the other operand. The shape of the result is the broadcast "
        "shape of the operands.",
    over=["inputs", "programs"],
    qtext="all real entries; every operator; every buffer kind up to the stated sizes",
    tests="Tests evaluate each operator on scalars at a few points and rarely on arrays.",
    files=["aegir/src/ops/arithmetic/unary.rs", "aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/trig.rs",
        "aegir/src/ops/special.rs", "aegir/src/ops/logarithmic.rs", "aegir/src/ops/sigmoid.rs"],
    mechanism=mech(("Function::evaluate of every operator", "aegir/src/ops"),
        ("ZipMap, Buffer::map", "aegir/src/buffers")),
    bin="c04", kani=["c04_integers"],
    functions=["Function::evaluate and evaluate_spec of all 34 unary operators (with their Node methods), of Add, "
        "Sub, Mul, Div, Power and Sum; the Buffer::map/sum and ZipMap implementations they reach for scalars, "
        "pairs, arrays of rank 1-5 and run-time sized vectors"],
    bounds="arrays up to [4], [2,3], [3,1,2], [1,2,1,3], [2,1,1,2,3]; run-time vectors of length 0-4; long ones "
        "(33, 257, [9,2], [17,16], [1,2,9], run-time lengths 9-257) for branch-free operators; each operand "
        "raw, constant or diagonal; nine whole expressions on six array kinds; every real entry; integer arithmetic (i8) on scalars, "
        "[2] and 2x2 in every representation, entries within -10..10 (Kani)",
    assumptions=["wherever the documented function is defined on the reals (no claim for ln of a non-positive "
        "number, division by zero, ...)", REALS, TRANS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every real entry within the listed shapes, by solver; the oracle is the documented formula on scalars.")

prop("C05",
    title="Sparse representations never change the value of an expression",
    statement="Whether an operand is stored densely, as one repeated value, or as a diagonal never changes "
        "the value, the shape or the success of any operation: every operation on structured operands equals "
        "the same operation on their dense expansions. In particular the shortcuts for zeros, ones and "
        "diagonals are only taken when they are exact.",
    over=["inputs", "programs"],
    qtext="all real values held in each of the three representations, for each operand of each operator",
    tests="Tests compare a few hand-picked constants; the shortcut guards depend on values (zero, one) and "
        "shapes (square or not) that tests sample sparsely.",
    files=["aegir/src/buffers/spec.rs", "aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/arithmetic/unary.rs",
        "aegir/src/buffers/arrays/contraction_ops.rs"],
    mechanism=mech(("Spec::{unwrap, map, zip_map}", "aegir/src/buffers/spec.rs"),
        ("evaluate_spec shortcuts", "aegir/src/ops/arithmetic/binary.rs"),
        ("contract_spec shortcuts", "aegir/src/buffers/arrays/contraction_ops.rs")),
    bin="c05", kani=["c05_"],
    functions=["Spec::{unwrap, map, zip_map, zeroes, ones, eye, shape, from, into_spec}, evaluate_spec of every "
        "operator (one and two levels deep), of variables and constants holding representations, contract_spec of "
        "every rank pair, Class::{full, diagonal, build} underneath"],
    bounds="scalars, pairs, arrays of rank 1-5 up to [2,2,2,2] and 3x3, run-time vectors of length 0-3 (also of "
        "unequal lengths), long ones ([33], [257], [17,16], [9,9], run-time lengths 9-257; constants of up to 70000 "
        "entries); each operand raw, constant or diagonal with symbolic contents (zero and one included); constants with more "
        "entries than the scalar type can count (i8, u8; Kani)",
    assumptions=["representations denote: one value everywhere (Full); one value where all indices agree and zero "
        "elsewhere (Diagonal)", "a product with an exact zero is zero (0 times infinity or NaN is outside the claim)",
        REALS, TRANS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every value held in every representation, by solver; the oracle is the same operation on dense operands.")

prop("C06",
    title="Tensor contractions compute the mathematical contraction",
    statement="For every supported pair of operand ranks, the tensor product and the dot contraction return "
        "at each output index the sum over the contracted axis of products of operand entries, for square "
        "and non-square operands alike and in every representation. Contractions are bilinear.",
    over=["inputs"],
    qtext="all real entries; every implemented rank combination; all shape combinations up to the bound",
    tests="Tests contract one or two square 2x2 examples, where swapped axes and wrong bounds are invisible.",
    files=["aegir/src/buffers/arrays/contraction_ops.rs", "aegir/src/ops/linalg/mod.rs"],
    mechanism=mech(("Contract::{contract, contract_spec, contract_shape}", "aegir/src/buffers/arrays/contraction_ops.rs")),
    bin="c06", kani=["c06_integers"],
    functions=["Contract::{contract, contract_spec, contract_shape} for all eleven rank pairs, buffers::contract*, "
        "ops::Contract (TensorProduct, TensorDot) evaluate/evaluate_spec/evaluate_shape, Node::dot"],
    bounds="all extents 1-3 in every combination (and some 4-6, 9, 17, 33, 257, 1030) of each rank pair; each operand raw, constant or "
        "diagonal; bilinearity and associativity laws on the listed shapes; every real entry; "
        "i8 entries within -6..6 on [2] and 2x2 in every representation (Kani)",
    assumptions=["matrix times vector is checked for square matrices; the non-square case is a known finding", REALS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every real entry within the listed shapes, by solver; the oracle is the index formula. One recorded defect "
        "(matrix times vector for non-square matrices) is reported as KNOWN-FINDING.")

prop("C07",
    title="Element-wise combination broadcasts scalars and keeps the operand order",
    statement="Combining two buffers element-wise applies the given function to the left entry and the right "
        "entry, in that order, at every index of the broadcast shape, visiting each index exactly once. "
        "A scalar on either side is paired with every entry of the other, folding visits entries in "
        "row-major order, and in-place combination changes only the left operand.",
    over=["inputs"],
    qtext="all entries; an uninterpreted combining function; every buffer pair up to rank five and the stated sizes",
    tests="Tests combine with commutative functions or a single rank, so swapped operands and missed entries pass.",
    files=["aegir/src/buffers/arrays/zip_ops.rs", "aegir/src/buffers/scalars.rs", "aegir/src/buffers/vecs.rs",
        "aegir/src/buffers/tuples.rs"],
    mechanism=mech(("ZipMap, ZipMut, ZipFold", "aegir/src/buffers/arrays/zip_ops.rs")),
    bin="c07", kani=["c07_"],
    functions=["ZipMap::{zip_map, zip_map_id, zip_shape}, ZipMut::zip_mut, ZipFold::zip_fold for arrays of rank 1-5 "
        "(with arrays and with scalars on either side), pairs, run-time sized vectors; Spec::{zip_map, map}; "
        "the same for all twelve primitive scalar types (Kani)"],
    bounds="48 array shapes up to [2,2,2,2,2] and [257], [17,16], [7,6,7], zero extents included; run-time vectors of "
        "length 0-5 (thorough: 0-8) in every pair of lengths, nine longer lengths up to 1030; primitive scalars over every bit pattern; every real entry",
    assumptions=["the combining function is total; it is represented by a bilinear form with symbolic coefficients and by "
        "pairing its arguments, which the generic code cannot tell from any other function", REALS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every entry and every function within the listed shapes, by solver.")

prop("C08",
    title="Buffer constructors place exactly the requested values",
    statement="Building a buffer from an index function, from a default plus a subset of indices, from a "
        "constant, or as a diagonal or identity yields a buffer of the requested shape whose entry at every "
        "index is exactly the one requested. Constructors agree with one another.",
    over=["inputs"],
    qtext="all values; an uninterpreted index function; arbitrary subsets of indices; every class and rank",
    tests="Tests construct a few small arrays, mostly square ones.",
    files=["aegir/src/buffers/mod.rs", "aegir/src/buffers/arrays/buffer.rs", "aegir/src/buffers/arrays/mod.rs",
        "aegir/src/buffers/scalars.rs", "aegir/src/buffers/tuples.rs", "aegir/src/buffers/vecs.rs"],
    mechanism=mech(("Class::{build, build_subset, full, zeroes, ones, diagonal, identity}", "aegir/src/buffers")),
    bin="c08", kani=["c08_"],
    functions=["Class::{build, build_subset, full, zeroes, ones, diagonal, identity} of Scalars, Tuples, Vecs and Arrays "
        "(rank 1-5), Spec::{unwrap, zeroes, ones, eye} on top of them; Scalars over all primitive types (Kani)"],
    bounds="46 array shapes up to [2,2,2,2,2] and [3,2,2,3], run-time vectors of length 0-5, long ones up to [257], [17,16], [7,6,7] and "
        "run-time lengths up to 257 (thorough: 1030); every subset of the "
        "indices for shapes of up to eight entries, six patterns and two arbitrary indices beyond",
    assumptions=["subsets name indices inside the shape", REALS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every requested value within the listed shapes, by solver; the oracle is the index function itself.")

prop("C09",
    title="Reading, mapping, mutating, folding and summing a buffer are mutually consistent",
    statement="For every buffer kind, checked access returns exactly the entries inside the shape and nothing "
        "outside it, mapping by value, by reference and in place agree entry by entry and preserve the shape, "
        "and folding visits every entry once in index order. Summing equals folding with addition.",
    over=["inputs"],
    qtext="all entries, all indices (inside and outside), an uninterpreted mapping function; every kind and rank",
    tests="Tests read a few indices of small buffers; out-of-range and higher-rank indices are not sampled.",
    files=["aegir/src/buffers/mod.rs", "aegir/src/buffers/arrays/buffer.rs", "aegir/src/buffers/scalars.rs",
        "aegir/src/buffers/tuples.rs", "aegir/src/buffers/vecs.rs"],
    mechanism=mech(("Buffer::{get, get_unchecked, map, map_ref, mutate, fold, sum}", "aegir/src/buffers")),
    bin="c09", kani=["c09_"],
    functions=["Buffer::{get, get_unchecked, map, map_ref, mutate, fold, sum, into_constant, into_spec, shape} of arrays of "
        "rank 1-5, pairs, run-time sized vectors; the same for all twelve primitive scalar types (Kani)"],
    bounds="49 array shapes up to [3,1,2,4], [2,2,2,2,2] and [257], [17,16], [7,6,7], run-time vectors of length 0-6 and "
        "nine longer lengths up to 1030; every usize index "
        "(Kani, 13 shapes and vectors of length 0-4); every real entry, every bit pattern for primitives",
    assumptions=["get_unchecked is called inside the shape", REALS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every entry and every index within the listed shapes, by solver.")

prop("C10",
    title="Shape algebra: membership, size, enumeration, concatenation and splitting agree",
    statement="For every shape, enumeration yields each contained index exactly once in row-major order and "
        "as many as the cardinality says. Concatenating shapes concatenates their indices, splitting undoes "
        "concatenation, and broadcasting returns the larger shape or an error.",
    over=["inputs"],
    qtext="all extents up to the bound and all indices, for compile-time and run-time shapes up to rank six",
    tests="Tests enumerate one or two shapes; zero extents, mixed extents and partial iteration are not covered.",
    files=["aegir/src/buffers/shapes/mod.rs", "aegir/src/buffers/shapes/compiled.rs",
        "aegir/src/buffers/shapes/runtime.rs", "aegir/src/buffers/shapes/multi_product.rs"],
    mechanism=mech(("Shape, Ix, Concat, Split, Broadcast", "aegir/src/buffers/shapes"),
        ("MultiProduct iterator", "aegir/src/buffers/shapes/multi_product.rs")),
    bin="c10", kani=["c10_"],
    functions=["Shape::{contains, cardinality, indices, is_scalar, is_vector, is_matrix, is_equivalent}, Ix::is_diagonal, "
        "Concat::{concat, concat_indices}, Split::{split, split_index}, Broadcast::broadcast, IncompatibleShapes::reverse "
        "for S0-S6 and SDynamic<0..6>; MultiProduct::{next, count, size_hint}"],
    bounds="all usize indices and all usize extents for membership, concatenation, splitting and broadcasting; "
        "enumeration of 26 compile-time shapes and of run-time shapes with extents up to 2-5; partial iteration "
        "stopped anywhere",
    assumptions=["an exhausted iterator is not advanced further", "the zero-dimensional run-time shape is a known finding", CBMC, SOLV],
    technique=KANI + "; " + SYMX,
    note="All indices and extents within the bounds, by CBMC. One recorded defect (SDynamic<0> enumerates nothing) is "
        "reported as KNOWN-FINDING.")

prop("C11",
    title="The predicted shape is the shape of the value",
    statement="Whenever an expression evaluates successfully, asking for its shape alone succeeds and returns "
        "exactly the shape of the evaluated value, and the structured form of the value has that shape too. "
        "Shape queries and evaluation fail on the same contexts, except that a query may succeed where the "
        "type alone fixes the shape (sums and powers are scalars).",
    over=["inputs", "programs"],
    qtext="all operators and buffer kinds; all run-time lengths up to the bound",
    tests="No test queries shapes of composite expressions.",
    files=["aegir/src/ops/arithmetic/unary.rs", "aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/linalg/mod.rs",
        "aegir/src/meta/variable.rs", "aegir/src/meta/constant.rs", "aegir/src/meta/cached.rs"],
    mechanism=mech(("Function::evaluate_shape", "aegir/src/ops and aegir/src/meta")),
    bin="c11",
    functions=["Function::{evaluate, evaluate_spec, evaluate_shape} of every operator, of variables, constants, their "
        "adjoints and cached nodes; Read::read_shape of derived contexts; Shape concatenation and broadcasting"],
    bounds="every operator over arbitrary operands in every representation (arrays up to rank 5, pairs, scalars, run-time "
        "vectors of length 0-3, thorough 0-5); every pair of run-time lengths 0-2 (thorough 0-4); 40 composite expressions "
        "and adjoints with every subset of three variables missing",
    assumptions=["sums and powers: the shape is known from the type, so a shape query may succeed without their variables",
        SOLV],
    technique=SYMX,
    note="Every length and every subset of missing variables within the bounds is a symbolic choice; contents are symbolic.")

prop("C12",
    title="Incompatible operand shapes are errors, never panics or wrong values",
    statement="Combining buffers whose run-time shapes differ returns an error naming the left and the right "
        "shape in operand order, for every operation and representation; equal shapes never produce that error. "
        "No combination of lengths panics or silently truncates.",
    over=["inputs"],
    qtext="all pairs of run-time lengths up to the bound, all representations, every binary operation",
    tests="Tests use run-time vectors of equal length, or one mismatched pair.",
    files=["aegir/src/buffers/vecs.rs", "aegir/src/buffers/shapes/runtime.rs", "aegir/src/ops/arithmetic/binary.rs"],
    mechanism=mech(("Broadcast for SDynamic", "aegir/src/buffers/shapes/runtime.rs"),
        ("ZipMap for Vec", "aegir/src/buffers/vecs.rs"),
        ("IncompatibleShapes", "aegir/src/buffers/shapes/mod.rs")),
    bin="c12", kani=["c12_"],
    functions=["evaluate, evaluate_spec and evaluate_shape of Add, Sub, Mul, Div over run-time sized vectors, alone and "
        "nested; Spec::zip_map, ZipMap::{zip_map, zip_map_id, zip_shape}, ZipFold::zip_fold for Vec; Broadcast for SDynamic<1..6> "
        "and scalars; IncompatibleShapes::reverse and its message"],
    bounds="every pair of lengths 0-3 (thorough 0-4), every triple 0-2 for nested operators, every representation; "
        "all pairs of different lengths out of 20 up to 65539; every real "
        "entry; every usize extent for broadcasting at ranks 1-6 (Kani); compile-time shapes cannot differ",
    assumptions=["tensor contractions are not implemented for run-time sized vectors", REALS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every pair of lengths within the bounds and every entry, by solver; broadcasting for every extent.")

prop("C13",
    title="A missing variable is reported precisely; a defined one never is",
    statement="Evaluating an expression in a context lacking some of its variables returns an error that names "
        "the first missing variable in evaluation order and locates it in the expression; if all are present "
        "no such error occurs. The same holds for values, structured values and shapes (unless the type alone "
        "fixes the shape, as for sums and powers); a derivative names a variable that is really missing.",
    over=["inputs", "programs", "histories"],
    qtext="all subsets of absent variables for each expression family",
    tests="No test evaluates with an absent variable in a composite expression.",
    files=["aegir/src/meta/variable.rs", "aegir/src/meta/constant.rs", "aegir/src/errors.rs", "aegir/src/ops/mod.rs",
        "aegir/src/ops/arithmetic/binary.rs", "aegir/src/ops/linalg/mod.rs", "aegir/src/lib.rs"],
    mechanism=mech(("SourceError::Undefined, UnaryError, BinaryError", "aegir/src/errors.rs"),
        ("error mapping in every operator", "aegir/src/ops")),
    bin="c13",
    functions=["Function::{evaluate, evaluate_spec, evaluate_shape}, Node::{evaluate_adjoint, evaluate_dual} of every operator, "
        "variables, constants, cached nodes and (second) adjoints in contexts lacking any subset of their variables; "
        "SourceError, UnaryError, BinaryError and their messages"],
    bounds="every subset of three absent variables; 32 unary operators alone and nested, 29 composite expressions on scalars, "
        "pairs, vectors and matrices, operands of arbitrary value and representation beside an absent one, run-time vectors "
        "of length 0-2; first and second adjoints by two targets",
    assumptions=["operands are evaluated left before right", "an adjoint may look its variables up in any order, "
        "so only that the named one is missing is checked", SOLV],
    technique=SYMX,
    note="Presence of each variable is a symbolic choice; every subset within the bounds is decided.")

prop("C14",
    title="Contexts behave as maps from identifiers to buffers",
    statement="Reading an identifier from a context returns the value stored for that identifier and for no "
        "other, in value, structured and shape form alike. A write is seen by every later read of that "
        "identifier and by no read of another.",
    over=["histories", "inputs"],
    qtext="all values and all sequences of reads and writes up to the bound, over derived and literal contexts",
    tests="Tests read a two-variable context once and never interleave writes.",
    files=["aegir/src/lib.rs", "aegir_derive/src/ctx/derive.rs", "aegir_derive/src/ctx/ctx_type.rs"],
    mechanism=mech(("derive(Context)", "aegir_derive/src/ctx/derive.rs"), ("ctx_type!, ctx!", "aegir_derive/src/ctx/ctx_type.rs")),
    bin="c14",
    functions=["the Read and Write implementations generated by derive(Context), ctx_type! and ctx!, the default methods "
        "of Read and Write, AsMut/AsRef of contexts, Function::evaluate of variables over them"],
    bounds="ten context types of 1-6 variables (plain, cached, hand-written, generic, with unlabelled fields); every sequence "
        "of 2 writes in any representation (thorough 3), of 4 dense writes (thorough 5); scalars, pairs, vectors, matrices, "
        "run-time vectors of length 0-2; every real value",
    assumptions=["reads are exercised after every write, in value, structured and shape form", SOLV],
    technique=SYMX,
    note="Which identifier is written and how is a symbolic choice, contents are symbolic; every history within the bounds.")

prop("C15",
    title="Caching and repeated evaluation are transparent",
    statement="Evaluating an expression never changes its variables, and evaluating it again in the same "
        "context gives the same value. A cached sub-expression evaluates its node at most once, returns the "
        "stored value afterwards, and otherwise behaves exactly like the node it wraps.",
    over=["histories", "inputs"],
    qtext="all values, cache states (empty or filled) and orders of evaluation up to the bound",
    tests="Tests evaluate each expression once in a fresh context.",
    files=["aegir/src/meta/cached.rs", "aegir/src/lib.rs", "aegir_derive/src/ctx/derive.rs"],
    mechanism=mech(("Cached::evaluate", "aegir/src/meta/cached.rs"), ("cache fields", "aegir_derive/src/ctx/derive.rs")),
    bin="c15",
    functions=["Cached::{evaluate, adjoint} and its default evaluate_spec/evaluate_shape, Read/Write of cache fields, "
        "Function::{evaluate, evaluate_spec, evaluate_shape}, Node::{evaluate_adjoint, evaluate_dual} of every operator "
        "(repeated, with the context compared before and after)"],
    bounds="every sequence of 3 (thorough 4) steps out of evaluation in each form, evaluation twice in one expression, writes to "
        "the cache and to the variables, from an empty or a filled cache; nested, neighbouring and shared caches; nodes over "
        "scalars, pairs, vectors, matrices, rank 3 and run-time vectors in any representation; 80 expressions for purity",
    assumptions=["whether asking for a shape fills the cache is left open", "purity of logarithms, powers and gamma "
        "functions is checked on positive inputs", REALS, TRANS, SOLV],
    technique=SYMX,
    note="Cache states, orders of evaluation and representations are symbolic choices; contents are symbolic.")

prop("C16",
    title="Dependency queries are sound, and identifiers are distinct",
    statement="An expression reports that it contains an identifier exactly when that identifier occurs in it; "
        "consequently, if it reports that it does not, neither its value nor any derivative depends on that "
        "identifier. Identifiers are equal only to themselves.",
    over=["programs", "inputs"],
    qtext="every operator and position of the identifier; every pair of shipped identifiers; all values",
    tests="Tests query two operators and compare few identifiers.",
    files=["aegir_derive/src/ops.rs", "aegir_derive/src/ids.rs", "aegir/src/meta/variable.rs",
        "aegir/src/meta/constant.rs", "aegir/src/meta/cached.rs", "aegir/src/ops"],
    mechanism=mech(("derive(Contains)", "aegir_derive/src/ops.rs"), ("ids!", "aegir_derive/src/ids.rs")),
    bin="c16",
    functions=["Contains::contains of every operator (33 unary, 8 binary, user-defined through derive(Contains)), of variables, "
        "constants, cached nodes and their adjoints; PartialEq of all identifiers generated by ids!",
        "Function::evaluate and Differentiable::adjoint of the listed expressions in contexts differing in one variable"],
    bounds="one operator over arbitrary sub-expressions (containment of each operand is a symbolic choice); all 2500 ordered "
        "pairs of shipped identifiers and a user's group; 29 expressions and 20 sets of derivatives for independence",
    assumptions=["independence is checked on positive inputs", REALS, TRANS, SOLV],
    technique=SYMX,
    note="The operator step holds for sub-expressions of any shape; whole expressions for every positive input.")

prop("C17",
    title="Dual numbers form the algebra of first-order derivatives",
    statement="Arithmetic on dual numbers follows the rules of first-order differentiation for every value and "
        "adjoint, whether operands are duals or plain values, owned or borrowed. Evaluating an expression as a "
        "dual returns exactly its value paired with its evaluated adjoint.",
    over=["inputs", "programs"],
    qtext="all real values and adjoints; every dual operation; all listed expressions",
    tests="Tests use a few integers, where wrong product rules can coincide.",
    files=["aegir/src/dual.rs", "aegir/src/lib.rs"],
    mechanism=mech(("Dual operators", "aegir/src/dual.rs"), ("evaluate_dual", "aegir/src/lib.rs")),
    bin="c17", kani=["c17_"],
    functions=["Dual: Neg, Add, Sub, Mul with duals and plain values, owned and borrowed; conj, variable, constant, From, dual!; "
        "Differentiable::{evaluate_dual, evaluate_adjoint}"],
    bounds="each operation over all reals and, for machine integers, all values of 7-8 bits; every program of three operations "
        "(thorough four); sixteen laws; variable/constant for every buffer kind; evaluate_dual for arbitrary sub-expressions "
        "of five kinds and 17 expressions by two targets",
    assumptions=["dual arithmetic needs values with +, - and *, that is scalars", REALS, TRANS, SOLV, CBMC],
    technique=SYMX + "; " + KANI,
    note="Every real value and adjoint, by solver, against forward-mode differentiation.")

prop("C18",
    title="The printed form of an expression denotes the function it evaluates",
    statement="Reading the printed text of a scalar expression or adjoint back with the usual precedence and "
        "the library's notation gives a function equal to the one the expression evaluates, for every input. "
        "Each identifier prints its own symbol, and different identifiers print differently.",
    over=["programs", "inputs"],
    qtext="all pairs and triples of nested operators and their adjoints, and all real inputs",
    tests="Tests print a handful of expressions and compare strings.",
    files=["aegir/src/fmt.rs", "aegir/src/ops/arithmetic/unary.rs", "aegir/src/ops/arithmetic/binary.rs",
        "aegir/src/ops/trig.rs", "aegir/src/ops/special.rs", "aegir/src/ops/logarithmic.rs",
        "aegir/src/ops/sigmoid.rs", "aegir/src/ops/linalg/mod.rs", "aegir_derive/src/ids.rs"],
    mechanism=mech(("ToExpr, Expr, PreWrap", "aegir/src/fmt.rs"), ("Display of every operator", "aegir/src/ops")),
    bin="c18",
    functions=["ToExpr::to_expr and Display of all 32 unary operators, Add, Sub, Mul, Div, Power, TensorProduct, TensorDot, "
        "TensorDoubleDot, Sum (display), Variable, VariableAdjoint, Constant, ConstantAdjoint; PreWrap::to_safe_string; "
        "Function::evaluate of the same nodes; Display generated by ids!"],
    bounds="one operator over arbitrary operands: printing as zero, one, two further numbers, four texts that need no brackets "
        "or seven that do (15 per operand, 225 pairs), each over all real values; 50 whole expressions and their two adjoints; "
        "all 50 shipped identifiers and a user's group",
    assumptions=["an operator sees of its operands only their text and whether it needs brackets, so the listed texts stand for any",
        "the notation is read with the usual precedence (unary minus below powers, powers to the right)",
        "poles printed as infinity, and numbers outside an operator's domain, are not compared", REALS, TRANS, SOLV],
    technique=SYMX,
    note="Printed text and evaluation are compared as functions, by solver, for every real input.")

prop("C19",
    title="The expression macro builds what the same text means in Rust",
    statement="An expression written in the macro language evaluates, and differentiates, to exactly what the "
        "corresponding arithmetic means under Rust's precedence and associativity (where ^ binds loosest). Literals "
        "become constants of their own type and squaring is recognised as such.",
    over=["programs", "inputs"],
    qtext="all listed operator/precedence combinations and all real values of the variables",
    tests="Tests compare five two-operator expressions structurally.",
    files=["aegir_compile/src/lib.rs"],
    mechanism=mech(("aegir! expansion", "aegir_compile/src/lib.rs")),
    bin="c19",
    functions=["the aegir! procedural macro (run by the compiler on every program), and evaluate / adjoint of every expression it builds"],
    bounds="every choice of +, -, *, ^ with one or two operators in every bracketing (values and derivatives by three variables), "
        "every choice with three operators in five bracketings (values), 60 programs with literals, brackets and squares, 25 with "
        "method calls, 7 with surrounding Rust; 27 literals; each over all real values of the variables in the domain",
    assumptions=["powers are compared for positive bases, quotients for non-zero denominators",
        "literal constants are i64 or f64 and are lifted to the symbolic field node by node before evaluation",
        "programs the macro rejects at compile time (division, unary minus, suffixed float literals without a point) are outside",
        REALS, TRANS, SOLV],
    technique=SYMX,
    note="The same tokens are expanded by the macro and by Rust's own parser; the two are compared as functions by solver.")

prop("C20",
    title="Floating-point evaluation is stable at the edges of each operator's domain",
    statement="In IEEE double arithmetic, for every input including signed zeros, subnormals, infinities and NaN: "
        "the sigmoid of a number lies in [0, 1], is never NaN and has a derivative in [0, 1] that vanishes at "
        "infinity; x ln x is zero at zero and the binary entropy built from it is never NaN on [0, 1]; sign, "
        "Dirac and the magnitude follow their definitions at both zeros and at infinities; powers with exponent "
        "zero or base one are one; element-wise operators give the same number at each position of arrays, "
        "pairs and vectors as on scalars; and constant, diagonal and single-entry representations give the same "
        "special values as dense ones, except that an operand known to be zero annihilates any factor.",
    over=["inputs"],
    qtext="every 64-bit floating-point input, including signed zeros, subnormals, infinities and NaN",
    tests="Tests use small ordinary numbers; overflow of an intermediate needs inputs near the edge of the range.",
    files=["aegir/src/ops/sigmoid.rs", "aegir/src/ops/logarithmic.rs", "aegir/src/ops/arithmetic/unary.rs",
        "aegir/src/ops/arithmetic/binary.rs", "aegir/src/buffers/arrays/contraction_ops.rs"],
    mechanism=mech(("sigmoid, XLnX, Sign, Dirac, Abs, Power", "aegir/src/ops"),
        ("constant folding in contractions", "aegir/src/buffers/arrays/contraction_ops.rs")),
    bin="c20",
    functions=["sigmoid, Sigmoid, Rabbit, XLnX, Ln, Exp, Sign, Dirac, Abs, Negate, Square, Double, AddOne, SubOne, OneSub, Power, "
        "Add, Sub, Mul, Div, Sum, Cos, Tanh, Gamma, Erf: evaluate and evaluate_spec; adjoints of Sigmoid, XLnX, Sign, Abs, Power",
        "Contract::{contract, contract_spec} for scalars, vectors and matrices"],
    bounds="all 2^64 bit patterns per input; arrays of two entries, pairs, vectors of two entries, 2x2 matrices; "
        "every structured representation. Contractions are compared by special value (NaN, which infinity, or finite), "
        "since constants are summed in another order",
    assumptions=["exp, ln, pow, sin, cos and tanh take the special values, ranges and monotonicity at the edges that IEEE 754 "
        "recommends (fp_axioms in symx/src/smt.rs) and are otherwise unconstrained; other transcendentals are uninterpreted",
        "round to nearest; contractions over zero elements with non-finite constants are left out", SOLV],
    technique=SYMX,
    note="Bit-precise IEEE arithmetic by solver, over every double.")

prop("C21",
    title="No operation reads or writes outside its buffers",
    statement="No public operation on buffers, shapes or expressions performs an out-of-bounds or uninitialised "
        "access or any other undefined behaviour, and index arithmetic never overflows, for every input the "
        "types admit within the bounds. What an operation hands back is made of its operands' entries alone.",
    over=["inputs"],
    qtext="all values, representations and indices; all shapes and lengths up to the bound, including empty ones",
    tests="Tests cannot observe undefined behaviour that happens to work, and use few shapes.",
    files=["aegir/src/buffers/arrays/contraction_ops.rs", "aegir/src/buffers/arrays/zip_ops.rs",
        "aegir/src/buffers/arrays/buffer.rs", "aegir/src/buffers/vecs.rs", "aegir/src/buffers/shapes/multi_product.rs"],
    mechanism=mech(("unsafe pointer reads in diagonal contractions", "aegir/src/buffers/arrays/contraction_ops.rs"),
        ("unwrap_unchecked in zips", "aegir/src/buffers/arrays/zip_ops.rs"),
        ("index enumeration", "aegir/src/buffers/shapes/multi_product.rs")),
    kani=["c21_", "c09_get", "c10_enum", "c10_left", "c12_zip"],
    functions=["Contract::{contract, contract_spec} for arrays, ZipMap, ZipMut, ZipFold for arrays of rank 1-5 and vectors, "
        "Buffer::{get, get_unchecked}, Class::{build, build_subset, full, diagonal}, Shape::{indices, cardinality, indices_left} of every rank",
        "TensorDot, Add and their adjoints over arrays"],
    bounds="integer entries in -4..4, constant, diagonal and dense operands; contractions with extents 0 to 3; zips with "
        "up to 12 entries; accessors and construction with every index of 2^64 values, in range or not (up to 4 when building run-time vectors); vectors of up to 4 "
        "entries; shapes of up to about 8 entries",
    assumptions=[CBMC, "uninitialised memory shows as an arbitrary value in what is returned", "a matrix with fewer rows than columns times a vector stops with a "
        "panic (recorded under C06); here it is only required to read nothing out of bounds"],
    technique=KANI + " (undefined behaviour is confirmed by running the counterexample under Miri)",
    note="CBMC's memory checks over the compiled code, with every returned entry compared with one computed directly.")
