"""The one table from which properties.jsonl and MANIFEST.json are written (tools/mk.py)."""
G = "include/wave/geometry/src/geometry/"
K = "include/wave/geometry/src/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                           "observe_at": list(observe), "hook_needed": None},
                  technique=technique, note=note))


prop("C01", "Rotations form SO(3) in every representation and mix of representations",
     "For all rotations held as matrices, quaternions (either sign) or angle-axis (any angle), composing, inverting, converting, "
     "assigning and rotating a vector give the rotation and vector that SO(3) prescribes, to rounding accuracy. "
     "Results are valid rotations, and mixing representations in one expression gives the same answer as using one.",
     ["inputs", "programs"], "all pairs of representations; all angles including 0, pi, tiny and beyond pi; all axes; double and float",
     "The typed tests use a handful of fixed or random rotations per representation and mostly compare the library with itself; "
     "nobody can enumerate angle regimes x representation pairs by hand.",
     [G + "base/RotationBase.hpp", G + "leaf/MatrixRotation.hpp", G + "leaf/QuaternionRotation.hpp", G + "leaf/AngleAxisRotation.hpp", G + "op/Compose.hpp", G + "op/Inverse.hpp", G + "op/Rotate.hpp"],
     [("evalImpl of Compose/Inverse/Rotate/Convert for each leaf", G + "leaf/*Rotation.hpp"), ("automatic conversion of unimplemented operand types", K + "functions/AddConversions.hpp")],
     ["eval() and construction from expressions"],
     "property-based testing against a long-double SO(3) reference model",
     "Millions of random rotations per run in every representation pair; trusts the reference model in lib/ref.hpp")

prop("C02", "Rigid transforms form SE(3) in both representations and mixed",
     "For all rigid transforms held as 4x4 matrices or as quaternion and translation, composing, inverting, transforming a vector, "
     "reading and writing the rotation and translation parts, converting and assigning agree with SE(3), to rounding accuracy. "
     "A returned 4x4 matrix always has an orthonormal rotation block and bottom row 0 0 0 1.",
     ["inputs", "programs"], "both representations and their mixes, all angles, translations from 0 to 1e3",
     "The tests use one random or fixed transform per case and loose tolerances; they cannot cover all numeric regimes and mixes.",
     [G + "base/RigidTransformBase.hpp", G + "base/TransformBase.hpp", G + "leaf/MatrixRigidTransform.hpp", G + "leaf/CompactRigidTransform.hpp", G + "op/Transform.hpp"],
     [("evalImpl of Inverse/Compose/Transform", G + "base/RigidTransformBase.hpp"), ("Convert between representations", G + "leaf/CompactRigidTransform.hpp")],
     ["eval(), rotation(), translation()"],
     "property-based testing against a long-double SE(3) reference model",
     "Millions of random transforms per run; trusts the reference model in lib/ref.hpp")

prop("C03", "exp and log are accurate and mutually inverse on their whole domain",
     "exp maps every so(3) or se(3) vector, of any size down to zero and beyond pi, to the true exponential; log maps every rotation and rigid transform, "
     "in every representation, up to and including rotations by pi, to a tangent vector with angle at most pi whose exponential is the argument. "
     "Both are accurate to rounding for arbitrarily small, moderate and near-pi angles, never NaN.",
     ["inputs"], "all angles from 0 through 1e-12 to several turns, all axes, all representations, translations up to 1e3, double and float",
     "The tests take exp/log of a few moderate vectors; the numerically delicate places (series thresholds, near 0 and near pi) are measure-zero for them.",
     [G + "leaf/RelativeRotation.hpp", G + "leaf/MatrixRotation.hpp", G + "leaf/Twist.hpp", G + "base/RigidTransformBase.hpp", G + "op/ExpMap.hpp", G + "op/LogMap.hpp"],
     [("series below a threshold, closed form above", G + "leaf/RelativeRotation.hpp"), ("log through AngleAxis", G + "leaf/MatrixRotation.hpp")],
     ["exp(v).eval(), log(R).eval()"],
     "property-based testing against long-double exp/log with regime-targeted generators",
     "Accuracy near singular points is checked against the reference with error bounds scaled to conditioning")

prop("C04", "Box-plus and box-minus satisfy the manifold axioms",
     "For every pair X, Y of rotations, rigid transforms (any representation), points, vectors or compounds: Y + (X - Y) gives X; (X + v) - X gives v for v inside the principal region; "
     "X + 0 gives X; X + v equals exp(v) * X and X - Y equals log(X * inverse(Y)).",
     ["inputs"], "all element pairs of one space in every representation mix, all tangent vectors",
     "manifold_test checks each axiom on one random pair per type.",
     [G + "op/BoxPlus.hpp", G + "op/BoxMinus.hpp", G + "base/TransformBase.hpp", G + "base/CompoundBase.hpp", G + "base/AffineBase.hpp"],
     [("BoxPlus/BoxMinus evaluated through exp/log and Compose", G + "op/BoxPlus.hpp")],
     ["operator+ and operator- on transforms, points and compounds"],
     "property-based testing of algebraic laws, with the reference model as second oracle",
     "Law checks plus reference comparison on millions of pairs")

prop("C05", "Vector, point and scalar expressions compute ordinary arithmetic",
     "Sums, differences, negation, scaling by a scalar on either side, division by a scalar, dot products, norms, squared norms and normalisation of translations, "
     "relative rotations, twists, points and scalars, and +, -, *, / and acos of scalars, whether operands are library scalars, references to plain numbers of any arithmetic type (an int as well as a double), or literals, equal the arithmetic they denote.",
     ["inputs", "programs"], "all operand values and kinds, nested in random expressions, double and float",
     "Tests check one fixed operand tuple per operator.",
     [G + "base/VectorBase.hpp", G + "base/AffineBase.hpp", G + "base/ScalarBase.hpp", G + "leaf/Scalar.hpp", G + "op/Sum.hpp", G + "op/Subtract.hpp", G + "op/Scale.hpp", G + "op/CommonExpressions.hpp", "include/wave/geometry/src/util/macros.hpp"],
     [("evalImpl overloads", G + "base/VectorBase.hpp"), ("plain-scalar overload macros", "include/wave/geometry/src/util/macros.hpp")],
     ["eval(), implicit conversion of scalar expressions to numbers"],
     "property-based testing against direct arithmetic in extended precision",
     "Every operator x operand-kind combination on random values")

prop("C06", "The Jacobian of every single operation is the true derivative",
     "For each operation (compose, inverse, rotate, transform, exp, log, box-plus, box-minus, sum, difference, negation, scaling, division, dot, norms, normalise, acos, rotation and translation parts, conversions; also with plain numbers of any arithmetic type) "
     "and each operand, in every representation, the returned Jacobian is the derivative with respect to the left-perturbation tangent space at the operand's value. "
     "This holds at every non-singular point, including zero, tiny and near-pi rotations, and never yields NaN there.",
     ["inputs"], "all operand values in all numeric regimes; every operation x representation x operand",
     "Tests compare with forward finite differences at 1e-4 tolerance at a few moderate points, which hides errors of that size and every regime-specific error.",
     [G + "base/", G + "leaf/", G + "op/"],
     [("jacobianImpl/leftJacobianImpl/rightJacobianImpl overloads", G + "op/*.hpp"), ("expMapTranslationJacobian", G + "base/RigidTransformBase.hpp")],
     ["expr.jacobian(x), expr.evalWithJacobians(...)"],
     "property-based testing against analytic or long-double finite-difference derivatives",
     "Regime-targeted inputs, tolerances from 1e-11 upwards")

prop("C07", "Values and Jacobians of arbitrary expression trees are exact",
     "For every well-typed expression composed from the library's operations, to any depth and with leaves used once or repeatedly, eval() equals the composition of the operations' meanings and "
     "jacobian / evalWithJacobians give the derivative with respect to each leaf. Leaves that do not occur in the expression have zero Jacobian. "
     "(In a tree whose leaf types are all different, leaves are told apart by type, as documented.)",
     ["programs", "inputs"], "randomly generated well-typed expression programs (shared leaves, mixed representations) x random leaf values",
     "The tests contain a few dozen hand-written trees; chain-rule bookkeeping depends on tree shape, leaf sharing and leaf types.",
     [K + "functions/Evaluator.hpp", K + "functions/JacobianEvaluator.hpp", K + "functions/TypedJacobianEvaluator.hpp", K + "functions/AddConversions.hpp", K + "functions/PrepareExpr.hpp"],
     [("recursive evaluators over the expression tree", K + "functions/*.hpp"), ("leaf identity by address or type", K + "functions/IsSame.hpp")],
     ["eval(), jacobian(), evalWithJacobians()"],
     "generated C++ expression programs checked against an independently generated reference program",
     "New random programs per seed, each on thousands of random leaf assignments")

prop("C08", "All automatic-differentiation modes agree",
     "For every expression, forward, typed forward, dynamically-typed forward, reverse and dynamic reverse evaluation return the same value and the same Jacobian for every leaf, "
     "in any order and subset of requested leaves; unique-type trees and trees with repeated leaves are both handled.",
     ["programs", "inputs"], "generated expression programs x leaf values x mode x order of targets",
     "The tests compare modes on a fixed set of small trees with a loose tolerance.",
     [K + "functions/JacobianEvaluator.hpp", K + "functions/TypedJacobianEvaluator.hpp", K + "functions/DynamicJacobianEvaluator.hpp", K + "functions/ReverseJacobianEvaluator.hpp", K + "functions/DynamicReverseJacobianEvaluator.hpp", "include/wave/geometry/src/util/math/MatrixMap.hpp"],
     [("five separate evaluators of the same chain rule", K + "functions/")],
     ["evalWithJacobians with and without arguments; the mode-specific entry points used by the tests"],
     "differential testing of the evaluation modes over generated expression programs",
     "Pairwise agreement to 1e-9 relative plus agreement with the reference derivative")

prop("C09", "Results do not depend on how operands are represented",
     "Replacing a leaf by an equal element held differently (matrix, quaternion, negated quaternion, angle-axis with equivalent angle or flipped axis, 4x4 matrix or quaternion and translation, mapped memory, framed or not) "
     "changes neither the value nor any Jacobian of an expression, up to rounding.",
     ["programs", "inputs"], "expression shapes x representation assignments x values",
     "Typed tests run each representation separately and never compare them with one another.",
     [K + "functions/AddConversions.hpp", G + "leaf/"],
     [("suggested conversions (ConvertTo) per leaf", G + "leaf/*.hpp")],
     ["eval(), jacobian()"],
     "metamorphic testing: same expression, different representations",
     "Metamorphic relation needs no reference model")

prop("C10", "Zero and Identity placeholders behave as the concrete elements",
     "An expression containing the Zero or Identity placeholder evaluates to the same value, with the same Jacobians for its other leaves, as the same expression with a concrete zero or identity element in that place, "
     "for every operation that accepts one.",
     ["programs", "inputs"], "every operation x placeholder position x values of the other operands",
     "Shortcut overloads are tested for a few operations on one value.",
     [G + "leaf/Zero.hpp", G + "leaf/Identity.hpp"],
     [("shortcut evalImpl/jacobianImpl overloads", G + "leaf/Identity.hpp")],
     ["eval(), jacobian()"],
     "metamorphic testing: placeholder versus concrete element",
     "Each shortcut overload against the general code path and the reference model")

prop("C11", "Frame semantics accept exactly the consistent expressions, at no cost to results",
     "An expression on framed leaves compiles exactly when its operands' frames are consistent with the operation, its result carries the frames the algebra prescribes, and assigning it to an object of other frames is rejected. "
     "Frames never change a value or a Jacobian.",
     ["programs"], "all operations x frame assignments, consistent and inconsistent",
     "Static asserts need programs that must not compile; the repository has one such example and no systematic negative test.",
     [G + "frames/Framed.hpp", G + "frames/frame_traits.hpp", G + "frames/frame_cast.hpp", G + "op/"],
     [("static_asserts on adjacent frames in each operation", G + "op/*.hpp"), ("frames of results (OutputFunctor)", G + "frames/frame_traits.hpp")],
     ["compilation of generated programs; type of eval()"],
     "generated accept/reject programs decided by the compiler against a frame-algebra model; framed versus unframed differential runs",
     "Every generated inconsistent statement must be individually rejected; every consistent one accepted with the predicted type")

prop("C12", "Expression objects are safe to store, copy, move and evaluate later",
     "An expression held with auto, built from any mix of lvalues and temporaries, copied or moved, stays valid while its lvalue operands live, never reads dead memory, and always reflects the operands' current values. "
     "Evaluating does not modify any operand, and assigning an expression to one of its own operands gives the value computed from the old operands.",
     ["programs", "histories", "inputs"], "expression shapes x value categories of operands x interleavings of build, mutate, copy, move, evaluate",
     "Lifetime errors usually go unnoticed in a plain run; tests cover a few expressions without sanitizers.",
     [K + "storage/RefSelector.hpp", K + "storage/UnaryStorage.hpp", K + "storage/BinaryStorage.hpp", K + "storage/NaryStorage.hpp", K + "storage/LeafStorage.hpp", K + "functions/PrepareExpr.hpp", "docs/storage.md"],
     [("operands stored by value when rvalue, by reference when lvalue", K + "storage/RefSelector.hpp")],
     ["eval(), jacobian() on stored expressions"],
     "stateful property-based testing under AddressSanitizer and UBSan",
     "Random build/mutate/copy/evaluate histories; a sanitizer report or wrong value is a violation")

prop("C13", "Dynamic proxies behave as the expressions they currently hold",
     "A proxy evaluates to, and has the same Jacobians (including reverse-mode) as, the expression it was last assigned, through any history of creation, rebinding, copying, nesting and mutation of leaves, "
     "and for arbitrary graphs with shared subexpressions built at run time.",
     ["histories", "programs", "inputs"], "random operation sequences over proxies and leaves; random run-time DAGs",
     "The tests build fixed chains and one rebinding history.",
     ["include/wave/geometry/src/dynamic/Proxy.hpp", "include/wave/geometry/src/dynamic/Dynamic.hpp", "include/wave/geometry/src/dynamic/DynamicBase.hpp", "include/wave/geometry/src/dynamic/RefProxy.hpp", "docs/dynamic_expressions.md"],
     [("type-erased expression held through a shared pointer", "include/wave/geometry/src/dynamic/")],
     ["Proxy eval(), jacobian(), dynamic reverse Jacobians"],
     "model-based stateful testing: random histories against a reference expression graph",
     "Sanitized build; reference DAG evaluated in long double")

prop("C14", "Factors whiten residuals and differentiate their measurement function",
     "Evaluating a factor gives the residual: the difference between the measurement function and the measurement, multiplied by the inverse square root of the noise covariance; and, with Jacobians, the same residual and the true derivative of the measurement function "
     "with respect to each variable in order, for full or diagonal noise, scalar, vector or compound measurements and any number of variables. Noise objects report the covariance they were made from and an inverse square root that whitens it.",
     ["inputs", "configurations"], "measurement functions x noise models x values, with objects given for several variables",
     "factor_test checks one linear and one or two non-linear factors at a fixed point.",
     ["include/wave/geometry/src/estimation/Factor.hpp", "include/wave/geometry/src/estimation/impl/Factor_impl.hpp", "include/wave/geometry/src/estimation/Noise.hpp", "include/wave/geometry/src/estimation/Uncertain.hpp"],
     [("evaluate and evaluateWithJacobians", "include/wave/geometry/src/estimation/impl/Factor_impl.hpp"), ("inverse square-root covariance", "include/wave/geometry/src/estimation/Noise.hpp")],
     ["evaluate(...), evaluateWithJacobians(...), covariance(), inverseSqrtCov()"],
     "property-based testing against a reference residual and derivative",
     "Random covariances of widely varying conditioning")

prop("C15", "Compound expressions act block by block",
     "A compound of any number of point, vector and scalar expressions evaluates element by element; its box-plus, box-minus, element access, assignment and approximate comparison equal those of its elements, "
     "and its Jacobian with respect to any leaf, in every mode, stacks those of its elements in element order, with zero blocks for elements without the leaf.",
     ["inputs", "programs"], "compounds of 2 to 4 mixed elements and expressions x values",
     "compound_test checks two fixed compounds.",
     [K + "storage/CompoundLeafStorage.hpp", K + "storage/NaryStorage.hpp", K + "storage/BlockMatrix.hpp", G + "base/CompoundBase.hpp"],
     [("N-ary evaluation and block Jacobians", K + "storage/NaryStorage.hpp")],
     ["makeCompound(...).eval(), get<I>(), jacobian()"],
     "property-based testing against elementwise evaluation and the reference model",
     "Random values for a generated set of compound types")

prop("C16", "Reading and writing parts of an object changes exactly those parts",
     "The rotation() and translation() parts of transforms and twists read the stored part, and assigning any expression to such a part sets exactly that part to the expression's value and leaves every other stored number unchanged, "
     "in every representation of twists and of framed and unframed transforms, owned or mapped, even when the expression reads the object itself; constructors place their arguments likewise.",
     ["inputs", "histories"], "sequences of part assignments and reads on every transform and twist type",
     "Tests write each part once.",
     [K + "op/MemberAccess.hpp", G + "base/TransformBase.hpp", G + "leaf/MatrixRigidTransform.hpp", G + "leaf/CompactRigidTransform.hpp", G + "leaf/Twist.hpp"],
     [("MemberAccess expressions and block getters", K + "op/MemberAccess.hpp")],
     ["rotation(), translation(), value()"],
     "model-based stateful testing of part reads and writes",
     "Every number outside the written part is compared bit for bit; values of parts against a long-double reference")

prop("C17", "isApprox and isZero decide closeness correctly",
     "isApprox is true when two elements of a space agree to well within the given precision and false when they differ by well more, whatever their representations or frames: "
     "for rotations and transforms the tangent difference is compared with the precision, for vectors, points and scalars the distance relative to the smaller one's norm. It is symmetric and reflexive. "
     "isZero is true exactly for vectors, points and scalars within the precision of zero.",
     ["inputs"], "element pairs at generated distances around the precision, all spaces and representations",
     "Tests use isApprox as their own oracle, mostly on equal inputs; a comparison that is too lax makes other tests pass.",
     [G + "base/TransformBase.hpp", G + "base/AffineBase.hpp", G + "base/ScalarBase.hpp", G + "base/CompoundBase.hpp"],
     [("isApprox members", G + "base/*.hpp")],
     ["isApprox, isZero"],
     "property-based testing with pairs at controlled distance",
     "Distances are generated at factors 0.1 and 10 of the precision; the grey zone is not judged")

prop("C18", "Special matrix utilities equal the dense matrices they stand for",
     "Cross-product and identity matrix objects, and block matrices and matrix maps keyed by leaf, give in every product, sum, transpose, scaling, block access and assignment the result of the dense matrix they represent.",
     ["inputs", "programs"], "all supported operations x random dense operands",
     "util tests use a few fixed matrices per operation.",
     ["include/wave/geometry/src/util/math/CrossMatrix.hpp", "include/wave/geometry/src/util/math/IdentityMatrix.hpp", "include/wave/geometry/src/util/math/MatrixMap.hpp", K + "storage/BlockMatrix.hpp"],
     [("Eigen expression specialisations", "include/wave/geometry/src/util/math/")],
     ["results of the matrix operations"],
     "property-based testing against dense linear algebra",
     "Random operands including aliasing")

prop("C19", "Leaves over external memory read and write exactly that memory",
     "A leaf that maps user memory (a buffer or a block of a larger matrix) evaluates, differentiates and converts as an owning leaf with the same numbers, sees later changes of the memory, and writes results exactly there and nowhere else.",
     ["inputs", "histories"], "all leaf types over Map and Block storage; read/write histories with guard regions",
     "Only one or two tests use Map.",
     [K + "storage/LeafStorage.hpp", G + "leaf/"],
     [("ImplType may be Eigen::Map or Block", K + "storage/LeafStorage.hpp")],
     ["the mapped buffer, eval(), jacobian()"],
     "model-based testing with guarded buffers under sanitizers",
     "Guard words around the mapped memory are compared after every step")

prop("C20", "Numerical Jacobians match analytic ones",
     "For every expression and leaf, the numerical-Jacobian utilities return the analytic Jacobian up to the finite-difference error, for all leaves of mixed sizes at once or one at a time, and leave the leaves' values unchanged.",
     ["programs", "inputs"], "generated expressions x leaf values",
     "The tests use the numerical Jacobian as an oracle, so an error common to both, or side effects on the leaves, go unnoticed.",
     [K + "functions/NumericalJacobian.hpp"],
     [("finite differences on the tangent space", K + "functions/NumericalJacobian.hpp")],
     ["evaluateNumericalJacobian(s)"],
     "property-based testing against the reference derivative",
     "Tolerance set from the step size used and the second derivative of the tested expressions")

prop("C21", "Random elements and angle-axis constructors are valid and well spread",
     "Random() of every leaf type returns a valid, finite element; random rotations cover the whole rotation group rather than a part of it, and differ from call to call; "
     "a relative rotation made from an angle and any non-zero axis has that angle about that direction.",
     ["inputs"], "all leaf types; many draws; all angles and unnormalised axes",
     "A test can only look at single draws, not at coverage of the group.",
     ["include/wave/geometry/src/util/math/math.hpp", G + "base/RotationBase.hpp", G + "base/RigidTransformBase.hpp", G + "leaf/RelativeRotation.hpp", G + "op/CommonExpressions.hpp"],
     [("randomQuaternion", "include/wave/geometry/src/util/math/math.hpp")],
     ["Random(), FromAngleAndAxis"],
     "property-based testing with validity and distribution oracles",
     "Distribution bounds are set so that a correct generator fails with probability below 1e-12")

prop("C22", "Concurrent evaluation",
     "An expression may be evaluated and differentiated from several threads at once, over shared leaves that no thread changes, in any combination of modes: there is no data race, and each thread gets exactly the result "
     "it would get alone. The same holds for factors, conversions, and proxies that each thread builds for itself. (A proxy shared between threads caches its evaluator without synchronisation, and Random() shares one generator: both are outside.)",
     ["schedules", "programs"], "generated expressions x leaf values x ways of evaluating per thread",
     "The tests are single-threaded; a hidden cache or a static buffer is invisible to them.",
     [K + "functions", "include/wave/geometry/src/dynamic", "include/wave/geometry/src/estimation"],
     [("evaluation entry points, all const", K + "functions/Evaluator.hpp")],
     ["eval(), evalWithJacobians, dynamic modes, factors from std::thread"],
     "generated concurrent programs under ThreadSanitizer, with sequential evaluation as the oracle",
     "Two to four threads; races are judged by happens-before, so a schedule need not hit them")

prop("C23", "Independence of the build configuration",
     "Values and Jacobians of an expression, including expressions returned from functions, leaves over unaligned memory, in containers or on the heap, and proxies, are correct whichever compiler, optimisation level, "
     "assertion setting, vectorisation or alignment setting, and language standard from C++17 on a user builds with.",
     ["configurations", "programs", "inputs"], "build configurations x generated expressions x leaf values",
     "The tests are built once, with one compiler and one set of options.",
     ["include/wave/geometry/geometry.hpp", K + "storage", G + "leaf"],
     [("leaf and expression storage", K + "storage/UnaryStorage.hpp")],
     ["values and Jacobians in seven build configurations"],
     "property-based testing of generated programs under several build configurations, against the reference model",
     "Configurations offered by the installed gcc 13 and clang 18 on x86-64")
