"""Per-property configuration of check.py: what the check decides, and its extra steps."""
BASE = ("Abstract interpretation of the monomorphised MIR of /repo (and of the core/num code it calls): floats are value numbers kept in an "
        "algebraic normal form (rational functions over inputs, square roots, sines/cosines), joins gate values by sign predicates, constant-trip "
        "loops are unrolled, calls are analysed in context. Each rule in anchors/src states what the library's result must equal for every "
        "input; an obligation is discharged when both sides get the same value number on every feasible path condition; no division, logarithm or inverse cosine on the way leaves its domain. ")
ASSUME = ["real arithmetic: rounding, overflow, NaN and signed zero are abstracted away (decimal literals are exact, magnitudes below 1e298, 1e30 at f32)",
          "generic code is analysed at f64 and at f32",
          "std's sin/cos/exp/ln/acos/atan2/sqrt intrinsics compute the mathematical functions",
          "trusted: rustc nightly's MIR construction, the smcheck analyser"]
import steps as _s
PROPS = {}
def p(pid, text, **kw):
    PROPS[pid] = dict(explanation=kw.pop("base", BASE if kw.get("rules", True) else "") + text, **kw)
p("C01", "Rules: every operator of V2..V6 against the componentwise operation.")
p("C02", "Rules: dot product, squared norm, l1/infinity norms for every dimension, the 3-d cross product.")
p("C03", "Rules: normalize of V2..V6: Ok implies unit norm, parallel, and the input over its norm; the zero vector gives Err on every path.")
p("C04", "Rules: every entrywise operator of M22..M66.")
p("C05", "Rules: matrix*matrix, matrix*vector, vector*matrix against the row-by-column definition on raw arrays.")
p("C06", "Rules: det against the Leibniz expansion, trace, transpose, Frobenius norm.")
p("C07", "Rules: inverse() times the matrix on both sides is the identity under the Some guard; None exactly when the determinant is nearly zero.")
p("C08", "Rules: Q*R = A, columns of Q orthonormal, R upper triangular, under the Some guard; None for nearly singular input.")
p("C09", "Rules: packed LU factors multiply to the permuted matrix, permutation and sign agree, per pivoting path.")
p("C10", "Rules: eigenvalues satisfy trace/determinant identities; none for negative discriminant.")
p("C11", "Rules: all views and index paths against raw array positions.")
p("C12", "Rules: constants, constructors and macros against the written positions.")
p("C13", "Rules: slice utilities for lengths 1..6 (loop bound is the slice length).")
p("C14", "Rules: nearly_equal/nearly_zero/compare_floats against their defining inequalities on every sign case, compare_vecs and compare_dual_quaternions against the conjunction over components, is_rotation and is_rotation_h: acceptance implies determinant and Gram matrix within 1e-5, every unit-quaternion matrix is accepted, reflections are refused; distance_to_manifold against the Frobenius norm of M*Mt - I, infinity and zero on rotations.")
p("C15", "Rules: every quaternion operator against Hamilton's product on raw 4-arrays; norm, conjugate, inverse (both sides), division, panic exactly for the zero quaternion.")
p("C17", "Rules: Quaternion*V3, sandwich product, to_rotation and rotate against the quadratic rotation-matrix form; orthogonality, determinant, product homomorphism.")
p("C18", "Rules: from_rotation of the matrix of an arbitrary unit quaternion, on each of the extraction's numerically distinguished cases, rebuilds the matrix and has unit norm.")
p("C19", "Rules: rotation, rotation_norm_encoded, get_angle, axis_angle against half-angle formulas, per sign and branch.")
p("C20", "Rules: elementary rotations, the twelve named sequences, the default, from_euler_angles, and extraction followed by reconstruction away from and exactly at gimbal lock.")
p("C21", "Rules: slerp at 0, 1, equal, opposite, on the arc (weights, angle, unit norm) and in the nearly-parallel branch, on either side of the shortest-path flip.")
p("C16", "Rules: for every public constructor and operation and every admissible combination of marked/unmarked operands: if normalize() returns a value it is unit (and its dual norm vanishes), and inverse() multiplies to one; is_normalized is sound and complete.")
p("C22", "Rules: exp, ln, sqrt, pow, sin, cos, argq, derivative against the exponential formulas; exp after ln is the argument (on k times an arbitrary unit quaternion), exp doubles to the square.")
p("C23", "Rules: homogeneous constructors, splitters (gimbal lock included), inverse and inverse transform on an arbitrary rotation (matrix of a symbolic unit quaternion) and translation.")
p("C24", "Rules: hat/vee in 2, 3 and 6 dimensions, the adjoint block layout, product, inverse and conjugation law, screw axes and their extraction.")
p("C25", "Rules: matrix_exponential, rotation_from_axis_angle and matrix_exponential6 against Rodrigues' formula and the closed translation formula; orthogonality; zero and pure translation.")
p("C26", "Rules: matrix_log and matrix_log6 on Rodrigues rotations by an angle in (0, pi), the identity and every half turn; the exponential of the result (in closed form) is the input.")
p("C27", "Rules: every dual-quaternion operator, conjugation, inverse and division on raw parts, marked and unmarked.")
p("C28", "Rules: every constructor yields, through every accessor, the rotation and translation it was built from; products are compositions; transform_point.")
p("C29", "Rules: screw parameters in closed form for an angle in (0, 2 pi), rebuilding, powers along the screw, screw_lerp at its ends, relative to the begin pose, the shorter way round and for translations; the logarithm.")
p("C33", "Rules: Display of V2..V6, M22..M66, Quaternion and DualQuaternion; every write to the destination is an event whose failure is a free boolean; format templates are decoded to the sequence of values printed, nested formatting routines are analysed in place. The values written on the path without failure must be the components in row-major order, an error must be returned exactly when a reached write failed, nothing is written after a failed write, and nothing is written elsewhere.")
p("C30", "Panic reachability. Each rule applies operations to arbitrary arguments; every panic edge of the MIR (assertion terminators, calls of diverging panic functions, bounds and overflow checks, at every call depth) whose path condition is satisfiable is a violation. Operations without a documented precondition are analysed in the any-value mode: every computed float is an uninterpreted value that may be infinite or NaN, each comparison of computed values is a free predicate (same operands, same answer), comparisons of finite inputs keep their order. Operations with a precondition (non-zero axis or divisor) are analysed in exact arithmetic under it.",
  assumptions=["component types f64 and f32; integer component types overflow as the type does", "trusted: rustc nightly's MIR construction, the smcheck analyser"])
p("C31", "Effect analysis: the monomorphised call graph (type parameters at f64 and at f32, MIR of every crate) from every function of the crate is closed; a reachable function of the heap allocator's crate, a standard-library function other than the float functions, an access to a mutable or interior-mutable static or a thread-local, an atomic or volatile intrinsic, inline assembly, a foreign function, a call through a function pointer or a non-formatting trait object is a violation, reported with its call chain. No type of the crate has interior mutability. The compiler's unsafe_code lint, forbidden from outside, finds no unsafe construct. Panics are cut (C30); core::fmt is trusted to write to its formatter only (C33 decides the destination).",
  rules=False, steps=[_s.c31], technique="effect analysis by closure of the monomorphised call graph; forbidden-lint for unsafe code",
  note="Every function of the crate at f64 and f32; core::fmt and the float functions of std/libm are trusted leaves.", assumptions=["generic code is analysed at f64 and f32: a user-supplied component type may itself have effects", "core::fmt writes only to its formatter; std's and libm's float functions only compute", "trusted: rustc nightly's MIR and instance resolution, the smcheck analyser"])
p("C32", "The library is type-checked with default features off and no-std on, through a no_std client that uses its types and macros; the crates loaded for it do not include std; no function of the standard library is reachable in its call graph; every function of the default configuration exists in it.",
  rules=False, steps=[_s.c32], technique="type check of the configuration, crate-graph query and call-graph closure",
  note="The host target's core is used (no bare-metal target is installed).", assumptions=["the host target stands for bare-metal ones", "trusted: rustc nightly, cargo's feature resolution"])
p("C34", "Witness programs: value-type programs (Copy, Send, Sync, no drop, exact sizes and alignments as constant assertions, array views, constants) must be accepted; programs that write, borrow or construct private parts of quaternions, or mix dimensions in any operator, must be refused while a twin that differs only in that point is accepted. A signature query shows that no function hands out a mutable view into a quaternion.",
  rules=False, steps=[_s.c34], technique="compile-pass/compile-fail witnesses decided by the type checker, constant assertions, signature query",
  note="Witnesses cover every type, every pair of dimensions and every operator, at f32/f64 (sizes also u8/i32).", assumptions=["trusted: rustc nightly's type checker and layout computation"])
p("C36", "Domain analysis. Every division, square root, logarithm, inverse sine and inverse cosine executed by the crate's code is an obligation: the path condition together with 'the operand lies outside the domain' must be unsatisfiable. The operands are arbitrary (not assumed unit or orthogonal); sums of squares the rules form from computed values are not examined for sign, only divisors and inverse functions there.",
  note="Over the reals for every operand of the analysed instances; overflow to infinity is outside. Square roots of computed sums of squares are examined where their sign is syntactically evident.")
p("C35", "Static rounding-error analysis on the same interpretation of the MIR: beside its exact value every computed float carries the operation and operands it came from; from declared ranges of the inputs the analysis derives the range of each intermediate and, by the standard model of floating-point arithmetic (each operation adds at most one unit roundoff, math functions two), a bound of the absolute and of the relative error of every result on every feasible path, to first order in u. An obligation is discharged when the bound is at most the number of units the rule states (about a hundred times what the present formulas need, so that an equivalent formula of the same quality stays within it, and far below what a cancellation or a lower precision would cost).", base="",
  technique="static rounding-error analysis (interval ranges and first-order error propagation over the data-flow graph of the interpreted MIR)",
  note="To first order in the unit roundoff; comparisons are decided as in exact arithmetic; no overflow or underflow; math functions accurate to two units. Bounds hold for every operand in the ranges declared by the rules, at f64 and f32; ill-conditioned operands are outside.",
  assumptions=["errors to first order in the unit roundoff, no overflow or underflow", "comparisons are decided as in exact arithmetic", "sin, cos, atan2, acos, exp and ln are accurate to two units of roundoff; +, -, *, / and sqrt are rounded correctly", "trusted: rustc nightly's MIR construction, the smcheck analyser"])
NA = {}
