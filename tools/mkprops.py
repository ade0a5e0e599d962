#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in one readable table).
import json, os
P=[]
V=["src/vector2.rs","src/vector3.rs","src/vector4.rs","src/vector5.rs","src/vector6.rs"]
M=["src/matrix2x2.rs","src/matrix3x3.rs","src/matrix4x4.rs","src/matrix5x5.rs","src/matrix6x6.rs"]
Q=["src/quaternion.rs"]; D=["src/dual_quaternion.rs"]; T=["src/transformations.rs"]; S=["src/slices_methods.rs"]; U=["src/utils.rs"]
def p(id,title,statement,text,why,files,mech,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=["public API return values"],hook_needed=None)))
W="Unit tests check one or two literal operands per operator; the claim is an identity between real-valued expressions for every operand."
p("C01","Vector arithmetic is componentwise",
 "For vectors of dimension 2 to 6, addition, subtraction, negation, scaling and division by a scalar, scalar-times-vector, and their compound-assignment forms give, in every component, exactly that operation on the operands' components in that position. Compound forms agree with the binary forms, no operand is otherwise changed, and this holds for every element type, also whole numbers, whose division truncates.",
 "all vectors and scalars of every dimension, every operator form",W,V,[("operator impls","impl Add/Sub/Neg/Mul/Div/AddAssign/SubAssign for V2..V6")])
p("C02","Vector products and norms are the Euclidean ones",
 "The product of two vectors is the sum of the products of their components, the squared Euclidean norm is the product of a vector with itself, the sum norm is the sum of absolute values and the infinity norm is the largest absolute value; the 3-d cross product is the right-handed one, so it is orthogonal to both operands and anticommutative.",
 "all vectors of dimension 2 to 6",W,V+S,[("dot","Mul<Vn> for Vn"),("norms","norm2, norm_inf, norm_l"),("cross","V3::cross")])
p("C03","Vector normalisation yields a unit vector or reports the zero vector",
 "Normalising a vector whose Euclidean norm is not zero succeeds, however short the vector is, and yields the same direction with Euclidean norm one; normalising the zero vector yields an error and never a value. The result is the input divided by its norm in every component.",
 "all vectors of dimension 2 to 6, zero and non-zero","Tests normalise one sample vector per dimension; direction, unit length and the error side are claims about every vector.",V+["src/errors.rs"],[("normalize","Vn::normalize"),("threshold","utils::nearly_zero")])
p("C04","Matrix addition, subtraction and scaling are entrywise",
 "For square matrices of order 2 to 6, addition, subtraction, negation, multiplication and division by a scalar, scalar-times-matrix and the compound-assignment forms act on every entry independently, compound forms agree with the binary forms, and this holds for every element type, also whole numbers, whose division truncates.",
 "all matrices and scalars of every order, every operator form",W,M,[("operator impls","impl Add/Sub/Mul<T>/Div/Neg/AddAssign/SubAssign for M22..M66")])
p("C05","Matrix products follow the row-by-column rule",
 "The product of two square matrices has as entry (i,j) the sum over k of a(i,k)*b(k,j); matrix times column vector and row vector times matrix follow the same rule, so products are associative and the transpose of a product is the product of the transposes in reverse order.",
 "all matrices and vectors of order 2 to 6",W,M+V,[("M*M, M*v","impl Mul for Mnn"),("v*M","impl Mul<Mnn> for Vn")])
p("C06","Determinant, trace, transpose and norm are the algebraic ones",
 "For every matrix the determinant equals the signed sum over permutations (hence is multiplicative and invariant under transposition), the trace is the sum of the diagonal, transposition exchanges the indices, and the matrix norm is the square root of the sum of squared entries.",
 "all matrices of order 2 to 6","Tests evaluate each of these on one literal matrix per order; a wrong term multiplied by a zero entry is invisible to them.",M+["src/traits.rs"],[("LinearAlgebra impls","det, trace, transpose, norm2")])
p("C07","Matrix inversion returns the true inverse or none",
 "Inverting a matrix whose determinant is not nearly zero returns a matrix that multiplied by the input on either side gives the identity; inverting a singular matrix returns none and never panics.",
 "all matrices of order 2 to 6","A test inverts one literal matrix per order: a cofactor wrong only for entries that are zero there goes unnoticed, and the 6x6 inverse has thousands of terms.",M,[("inverse","LinearAlgebra::inverse for M22..M66")])
p("C08","QR factorisation reproduces the matrix with orthonormal Q, triangular R",
 "When a QR factorisation is returned, Q times R equals the input, the columns of Q are orthonormal and every entry of R below the diagonal is zero; a matrix whose determinant is nearly zero yields none.",
 "all matrices of order 2 to 6","Tests factor one literal matrix per order and compare digits.",M,[("qr","LinearAlgebra::qr for M22..M66")])
p("C09","LU decomposition reproduces the row-permuted matrix",
 "For a matrix with non-vanishing rows, the packed lower (unit diagonal) and upper factors multiply to the matrix with its rows permuted as the returned permutation says, and the returned determinant sign times the product of the diagonal is the determinant.",
 "all matrices of order 2 to 6 and every pivoting order","Pivoting gives up to n! different executions; tests follow one per order.",M,[("lu","Mnn::lu")])
p("C10","Real eigenvalues of 2x2 matrices satisfy the characteristic equation",
 "When the 2x2 eigenvalue routine returns values they are exactly the two real roots of the characteristic polynomial (sum equals the trace, product equals the determinant), and it returns nothing when the discriminant is negative.",
 "all real 2x2 matrices","Tests use a single matrix.",["src/matrix2x2.rs"],[("real_eigenvals","M22::real_eigenvals")])
p("C11","Rows, columns, diagonals, triangles, sub-matrices and indices agree",
 "Every view of a matrix (indexing by row, by pair, rows, columns, diagonal, upper and lower triangle, minors, flat vector, element-wise map, construction from column vectors, block copy) refers to the same entry (row, column) of the same matrix, for reading and for writing, and the reported shape is the order.",
 "all matrices, all in-range indices","Tests touch a few of the index combinations with literal matrices.",M+["src/traits.rs"],[("accessors","get_rows/get_cols/get_diagonal/get_upper_triagular/get_lower_triangular/get_submatrix/as_vec/for_each/new_from_vecs/copy_elements_from/Index")])
p("C12","Zeros, identities, axes and constructor macros mean what they say",
 "Zero values are neutral for addition, identity matrices are neutral for multiplication, the is-zero test is true exactly of the zero value, the predefined constants and axis vectors equal the corresponding constructors, and the constructor functions and macros place each argument at the position written.",
 "all values, all constructors and constants","Tests cover a fraction of the constants and macros and only sample neutrality.",V+M+Q+D+["src/lib.rs"],[("constructors","zeros/ones/identity/Zero/One/new/new_from/mnn_new!/Vn_zeros")])
p("C13","Slice utilities compute maximum, minimum, dot, norms and projections",
 "On every non-empty slice the maximum/minimum search returns the true extremes with their first positions, the dot product and norms equal the mathematical ones, normalisation divides every element by the norm, the projection coefficient is x.y/y.y and the element check is true exactly when some element is within tolerance of zero.",
 "all slices of lengths one to six in every order of magnitudes, longer ones with the deciding elements at every place","Order of the elements decides which path runs; tests use sorted samples.",S,[("slice functions","find_max_min, norm_inf, norm_l, norm2, dot, normalize, project_x_over_y, check_elements")])
p("C14","Comparison helpers are sound equality and rotation predicates",
 "The tolerance comparisons are symmetric and reflexive and accept two values exactly when their difference is below the tolerance, taken relative to the sum of their magnitudes, or absolutely when one of them is zero or both nearly vanish; comparisons of vectors and dual quaternions hold only if every component matches (and the lengths agree); a matrix accepted as a rotation has determinant one and orthonormal columns up to tolerance, and every proper rotation is accepted, also one orthogonal only up to rounding. The distance of a matrix from the rotations is the Frobenius norm of M*Mt - I for a positive determinant and infinite otherwise.",
 "all pairs of finite numbers and positive tolerances, all vectors, all rotations","Tests check a handful of number pairs.",U,[("comparisons","nearly_equal, nearly_zero, compare_floats, compare_vecs, compare_dual_quaternions, is_rotation, is_rotation_h")])
p("C15","Quaternion arithmetic is Hamilton's algebra",
 "Addition, subtraction, negation and scaling are componentwise, multiplication is Hamilton's (i*i = j*j = k*k = i*j*k = -1), so it is associative and distributes, conjugation reverses products, the norm is multiplicative, and for a non-zero quaternion the inverse multiplies to one on both sides and division is multiplication by the inverse; the zero quaternion has no inverse.",
 "all quaternions","Tests check a few products of basis or literal quaternions.",Q,[("operators","impl Add/Sub/Mul/Div/Neg, conj, inverse, dot, abs2, norm2")])
p("C16","A value marked as normalised really has unit norm",
 "No sequence of public operations on quaternions or dual quaternions gives a value that the library treats as normalised (so that normalising or inverting it skips the computation) while its norm differs from one, provided inputs documented to be unit are unit.",
 "all public constructors and operations, all inputs","The flag is private state set by some constructors and dropped by others; tests do not observe it after each operation.",Q+D,[("normalized flag","Quaternion.normalized, DualQuaternion.normalized and every constructor"),("consumers","normalize, inverse, ln, log, is_normalized")],over=("inputs","histories"))
p("C17","Quaternion rotation agrees with its rotation matrix",
 "For a unit quaternion, rotating a vector directly, by the sandwich product q*v*conj(q), and by the quaternion's rotation matrix give the same vector; that matrix is orthogonal with determinant one, and the matrix of a product is the product of the matrices.",
 "all unit quaternions and all vectors","Tests rotate a few sample vectors.",Q,[("rotation action","Mul<V3> for Quaternion, to_rotation")])
p("C18","Rotation matrix to quaternion and back is the identity",
 "For every rotation matrix the extracted quaternion has unit norm and its rotation matrix is the original, whichever of the four numerically distinguished cases applies; each case divides by the root of a number that is well above zero, so rounding is not magnified.",
 "all rotation matrices, in every branch of the extraction","The source says 'TODO: test all the cases for this method'; tests reach only some branches.",Q,[("from_rotation","Quaternion::from_rotation")])
p("C19","Axis-angle construction and extraction agree",
 "The quaternion built from an angle and a non-zero axis has real part cos(angle/2) and imaginary part sin(angle/2) times the unit axis; the norm-encoded form uses the vector's length as angle and gives the identity for the zero vector; the extracted axis and angle rebuild the same quaternion, and an identity rotation has no axis.",
 "all angles, all axes","Tests use a few literal angles about coordinate axes.",Q,[("rotation, rotation_norm_encoded, get_angle, get_axis, axis_angle","src/quaternion.rs")])
p("C20","Euler-angle conversions implement their named rotation sequence",
 "Elementary rotations about x, y, z are the standard matrices, each named Euler sequence composes exactly those elementary rotations in the order of its name with the angles in argument order, the default is z-y-x, the quaternion built from the same three angles represents the same rotation, and extracting angles from a z-y-x rotation matrix or quaternion and rebuilding it gives the same rotation.",
 "all angles, all eleven sequences, regular and gimbal-lock cases","Tests cover the default sequence and few others at a few angles.",T+Q,[("euler conversions","rotx/roty/rotz/rot2/euler_to_rotation/rotation_to_euler/from_euler_angles/to_euler_angles")])
p("C21","Spherical interpolation follows the shortest great arc",
 "Interpolating two unit quaternions gives the first at zero and the second's rotation at one, a unit quaternion in between that makes an angle with the first proportional to the parameter, and takes the shorter of the two arcs; nearly parallel operands are interpolated component by component.",
 "all pairs of unit quaternions and all parameters in [0,1]","Tests interpolate between one pair; the near-parallel and reversed cases are not reached.",Q,[("slerp","Quaternion::slerp")])
p("C22","Quaternion exponential, logarithm, powers and derivative are consistent",
 "The exponential is exp(real) times cosine and axis-sine of the imaginary norm, the logarithm inverts it on the principal branch, the square root multiplied by itself gives the argument, powers are the exponential of the exponent times the logarithm, sine and cosine are the exponential combinations, and the derivative is half the angular rate (as a pure quaternion) times the quaternion.",
 "all quaternions in the functions' domains","Tests compare a few digits for literal quaternions.",Q,[("transcendental functions","exp, ln, sqrt, pow, sin, cos, derivative, argq, normalize_q")])
p("C23","Homogeneous transforms compose, split and invert as rigid motions",
 "A homogeneous matrix built from a rotation (matrix or quaternion) and a translation applies rotation then translation, splitting returns the same parts, the planar and pure-translation constructors are their special cases, the inverse composed with the transform is the identity, and transforming a vector with the inverse undoes the transform.",
 "all rotations, translations and points","Tests use one sample pose.",T,[("homogeneous_*","homogeneous_from_rotation/_from_quaternion/get_parts/get_parts_raw/homogeneous_inverse/_inverse_transform/ksi/translation_*")])
p("C24","Hat/vee maps, adjoint and screw axes satisfy the Lie-algebra identities",
 "The hat map of a 3-vector is the skew matrix whose product with a vector is the cross product and vee inverts it; the 6-vector hat and its inverse agree, the 2-d versions likewise; the adjoint is the block matrix [R 0; [p]R R], so the adjoint of a product is the product of adjoints; a screw axis is (s, q x s + h s), and the extracted axis times its angle is the input.",
 "all vectors, twists and rigid transforms","Tests use one literal value for each.",T,[("skew_*, vex, twist_to_se3, se3_to_twist, adjoint, screw_to_axis, axis_angle6","src/transformations.rs")])
p("C25","Exponential maps give the rigid motion of the twist",
 "The exponential of a skew matrix is the Rodrigues rotation (orthogonal, determinant one, identity at zero) and agrees with the axis-angle form; the exponential of a twist has that rotation and the translation (theta I + (1-cos)W + (theta-sin)W^2)v/theta, and a pure translation for zero rotation.",
 "all twists, including zero rotation","Tests use a few literal twists and no pure translation.",T,[("matrix_exponential, rotation_from_axis_angle, matrix_exponential6","src/transformations.rs")])
p("C26","Logarithm maps invert the exponential maps",
 "The logarithm of the rotation about a unit axis by an angle in (0, pi), up to a millionth of the cosine short of a half turn (closer ones may count as half turns, by tolerance), is that angle times the axis' skew matrix, of the identity zero, of a half turn pi times a skew matrix whose exponential is the half turn, its axis read off a column that is not small; the logarithm of a rigid motion has the same rotation part and a translation part whose exponential restores the motion.",
 "all rotations including half turns in each of their three cases, all rigid motions","Tests use single literal rotations; the half-turn cases are not reached.",T,[("matrix_log, matrix_log6","src/transformations.rs")])
p("C27","Dual-quaternion arithmetic is the dual-number extension",
 "Sum, difference, negation and scaling are partwise; the product is (ac, ad+bc), associative with unit one; the three conjugations negate the parts they name and the product conjugations reverse order; the inverse multiplies to one on both sides and division by an invertible dual quaternion undoes the multiplication.",
 "all dual quaternions","Tests multiply a few literal values.",D,[("operators","impl Add/Sub/Mul/Div/Neg, conj*, inverse, norm")])
p("C28","Dual quaternions represent exactly their rigid motion",
 "A dual quaternion built from a unit rotation and a translation (or from a homogeneous matrix, rotation, translation, or array) yields the same rotation and translation when split or converted to a homogeneous matrix, transforms points as that matrix does, and the product of two represents the composition of their motions.",
 "all rotations, translations and points","Tests use one or two sample poses.",D,[("construction and extraction","new_from_*, to_*, get_translation, transform_point")])
p("C29","Screw parameters, powers and screw interpolation are one motion",
 "The screw parameters of a rigid motion rebuild it, raising to the power one returns it and powers add their exponents along the same screw, and interpolation gives the begin pose at zero and the end pose at one; a pure translation is scaled; the logarithm is half the angle and distance along that screw and exists for everything built as a unit dual quaternion.",
 "all rigid motions, all exponents and parameters in [0,1]","Tests use one sample screw.",D,[("get_screw_parameters, new_from_screw_parameters, pow, screw_lerp, log","src/dual_quaternion.rs")])
p("C30","Operations do not panic outside their documented preconditions",
 "No public operation panics for finite inputs of the right shape, except indexing out of range, a zero axis/rotation/divisor where the documentation or message says so, empty slices or slices of different length, and an invalid quadrant.",
 "all public operations, all inputs","Absence of a panic on every input and path cannot be sampled.",V+M+Q+D+T+S+U,[("panicking constructs","index expressions, unwrap/expect, assert, arithmetic overflow checks")])
p("C31","Computations are pure: no I/O, allocation, global state or unsafe code",
 "Arithmetic, conversion and formatting functions do nothing observable except return their result, change the receiver they are given mutably or write to the formatter they are given: no output to standard streams, no heap allocation, no global or thread-local state, and the crate contains no unsafe code.",
 "all functions of the crate, in every call path","Tests compare return values; stray output or allocation is invisible to them.",["src/lib.rs"]+V+M+Q+D+T+S+U,[("unsafe ban","#![deny(unsafe_code)]"),("no_std attribute","src/lib.rs")],over=("inputs","programs"))
p("C32","The crate builds without the standard library",
 "With the default features off and the no-std feature on, the crate compiles and depends on nothing from the standard library, offering the same public operations, each with the same code as in the default configuration.",
 "the feature configurations the manifest declares","Tests only build the default configuration.",["src/lib.rs"]+M,[("features","Cargo.toml features, cfg_attr(no_std)")],over=("configurations",))
p("C33","Printing writes every component once, in order, to the given formatter",
 "Formatting a vector, matrix, quaternion or dual quaternion writes each of its components exactly once in row-major order to the destination it was given, writes to nothing else, and reports a failing destination as an error instead of ignoring it or panicking.",
 "all values, all destinations including failing ones","Tests do not format values into failing destinations.",V+M+Q+D,[("Display impls","impl fmt::Display")],over=("inputs","fault_sequences"))
p("C34","Types are copyable value types with a fixed layout and guarded internals",
 "Vectors, matrices, quaternions and dual quaternions are plain copyable values, usable from several threads, exactly as large as their components (plus flags), the mapping between vectors/matrices and arrays is free of conversions, and user code can neither set the normalised flag nor change a quaternion's components behind it, nor mix operands of different dimensions.",
 "all client programs","It is a claim about which programs are accepted, which no run of an accepted program can show.",V+M+Q+D,[("derives and visibility","struct definitions")],over=("programs",))
p("C35","Results are within a moderate multiple of the unit roundoff of the exact ones",
 "In both element types, for well-conditioned operands of moderate size (components up to a few units, diagonally dominant or row-permuted matrices with tiny leading entries, unit quaternions, angles up to half a turn away from singular configurations), the rounding errors of every arithmetic, factorisation, rotation and interpolation operation add up to no more than a fixed moderate multiple of the unit roundoff; norms, normalisation and inverses of vectors and quaternions of any size, and the angles, axes and vector parts of rotations as small as a millionth of a radian, are accurate relative to their own size. No result is computed at a lower precision than that of its operands, or by a formula that cancels what it needs.",
 "all operands in the stated ranges, in both element types, without overflow or underflow; errors to first order in the unit roundoff, for math functions accurate to two units","Tests compare a few round numbers with generous tolerances; rounding depends on every bit of the inputs.",V+M+Q+D+T+S,[("floating-point evaluation order, cancellation, pivoting, atan2 instead of acos","all arithmetic")])
p("C36","No operation leaves the domain of the real functions it uses",
 "For every finite input, also one that is unit or orthogonal only up to rounding, norms, normalisation, inverses, factorisations, quaternion functions, interpolation, and the exponential and logarithm maps never take the square root of a negative number, the logarithm of a non-positive one, an inverse sine or cosine beyond one, or divide by zero (results that are not numbers), except the logarithm of the zero quaternion, division by a zero scalar and projecting on or normalising a zero slice.",
 "all finite inputs, for matrix logarithms and rotation extraction matrices within a thousandth of a rotation","Tests use operands for which every guard holds comfortably; the offending inputs are boundary cases of the guards.",V+M+Q+D+T+S,[("guards before sqrt, acos, ln and division","src/quaternion.rs, src/dual_quaternion.rs, src/transformations.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
