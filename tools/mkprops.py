#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
VB="src/vector/base/"; VO="src/vector/ops/"; MB="src/matrix/base/"; MO="src/matrix/ops/"
CX="src/complex/"; TR="src/transform/"

prop("C01","Every element is moved out or dropped exactly once",
 "Whatever sequence of constructions, conversions, element-wise operations, foldings, transpositions, full or partial iterations and drops a program performs, every element value put into a vector or matrix is handed back to the program or dropped exactly once: none is duplicated, leaked or read before it was written. If a closure, iterator or element operation supplied by the user panics midway, no element is dropped twice or used after its drop (leaking is then permitted).",
 ["programs","fault_sequences","inputs"],
 "all element types that need dropping, all shapes, all source lengths (short, exact, long), all points at which user code may panic, all points at which an iterator is abandoned",
 "The suite only counts references once for a few shapes with Rc and never makes user code panic, abandons an iterator midway or supplies a source of every length.",
 [VB+"init.rs",VB+"iter.rs",MB+"init.rs",MB+"iter.rs",MB+"convert.rs","src/matrix/transpose.rs"],
 [("MaybeUninit buffers and assume_init",VB+"init.rs"),("try_from_iter drop of the filled prefix",VB+"iter.rs"),("unzip writing two buffers",VB+"iter.rs"),("transpose by bitwise swap of a forgotten source","src/matrix/transpose.rs")],
 [("element ownership","for each element: in the source, in a container, handed to user code, or dropped","the elements themselves")],
 ["element constructors and destructors of a user type","results of the public calls"])

prop("C02","Sequences are consumed by count and filled in row-major order",
 "Building a vector or matrix from an iterator succeeds exactly when the iterator yields at least as many items as there are elements, places the items in order (row by row for matrices) and takes no further item from the iterator; building from a slice succeeds exactly when the length matches. Grouping an iterator yields the consecutive complete groups in order and ends once a complete group is not available.",
 ["inputs","histories"],
 "all shapes with at least one column, all source lengths and contents, all later uses of the same iterator",
 "Tests use one or two lengths per shape and never look at what is left in the iterator.",
 [VB+"iter.rs",MB+"convert.rs",MB+"iter.rs"],
 [("try_from_iter counting",VB+"iter.rs"),("GroupIter over a borrowed iterator",VB+"iter.rs"),("TryFrom length checks",MB+"convert.rs")],
 [("source position","how many items of the source iterator have been taken","the iterator passed by the user")],
 ["returned Option/Result","next item of the borrowed source"])

prop("C03","Traversals and combinators visit every element once, in order",
 "Iterating (by value, reference or mutable reference), mapping, zipping, unzipping, enumerating, folding, folding without a seed, scanning, generating by a closure and for-each visit the elements exactly once in increasing index order (row-major for matrices) and return results in matching positions. Flattening an iterator of sequences yields exactly the concatenation of the inner sequences, even when some of them are empty.",
 ["inputs","programs"],
 "all element types, shapes and stateful closures",
 "Tests use symmetric or tiny data and closures without state, so visiting order and pairing are not observed.",
 [VB+"iter.rs",VB+"init.rs",MB+"iter.rs",MB+"init.rs"],
 [("map/zip/unzip/fold/scan",VB+"iter.rs"),("FlatIter",MB+"iter.rs"),("nested map/zip/fold/scan",MB+"iter.rs")],
 [("visit log","sequence of elements handed to user code so far","the user's closure")],
 ["arguments the closure receives","results"])

prop("C04","Views, accessors and conversions all denote the same elements",
 "Every read accessor, index, named component, row, column, pointer, slice, nested-array and reference view of a vector, matrix, complex number, quaternion or Moebius object shows the same current element values in the documented position, and a write through any mutable view is seen through all of the others and changes nothing else. Conversions to and from arrays, tuples, vectors and matrices preserve every component and compose to the identity in both directions, transposition exchanges the two indices, and an index outside the shape panics instead of returning a value.",
 ["histories","inputs"],
 "all element types and shapes and all sequences of writes through mutable views interleaved with reads through the others",
 "Each accessor is exercised at most once on one value and never after a write through a different view.",
 [VB+"init.rs","src/vector/spec.rs",MB+"init.rs",MB+"convert.rs","src/matrix/transpose.rs",CX+"complex_.rs",CX+"quaternion.rs",CX+"moebius.rs"],
 [("repr(transparent) and pointer casts between nested and flat storage",MB+"convert.rs"),("unchecked named components","src/vector/spec.rs"),("row/col/transpose",MB+"init.rs")],
 [("storage","the current element values of one object","the object itself")],
 ["every accessor after every write"])

prop("C05","Operators act independently on each component",
 "Every arithmetic, remainder, bitwise, comparison, flooring-division and assigning operator between vectors or matrices of one shape, and every operator with a scalar on either side that the library offers, gives in each position exactly the scalar operator applied to the operands of that position in written order; assigning forms leave the target equal to the corresponding non-assigning result. Any/all of a boolean container are the disjunction/conjunction of its elements, and an operation whose scalar form panics on some component panics.",
 ["inputs"],
 "all shapes, all element types (including ones with non-commutative operators) and all component values",
 "Tests check one or two value pairs per operator, on few shapes, mostly with commutative integer entries.",
 [VO+"base.rs",VO+"bit.rs",VO+"int.rs",VO+"vcmp.rs",MO+"base.rs",MO+"bit.rs",MO+"int.rs",MO+"vcmp.rs"],
 [("operator implementations",VO+"base.rs"),("reverse multiplication macro",VO+"base.rs")],
 [], ["operator results"])

prop("C06","Math functions act on each component; second arguments broadcast",
 "Every floating-point math method of vectors and matrices returns in each position the scalar function of the same name applied to that position's arguments, in the documented argument order. A scalar second or third argument is used for every component, a row vector for every row of a matrix, and a same-shape argument position by position; clamp limits each component to its own bounds and sin_cos returns the sines and the cosines as two containers.",
 ["inputs"],
 "all shapes, all 40 functions, every broadcast form of every argument and all component values including negative, huge, tiny, infinite and NaN",
 "No existing test calls the math functions or broadcasting.",
 ["src/vector/math.rs","src/matrix/math.rs"],
 [("map/zip with the scalar function","src/vector/math.rs"),("Broadcast implementations","src/matrix/math.rs")],
 [], ["results of the methods"])

prop("C07","Reductions, norms and normalisation combine every component",
 "Sum, minimum, maximum, the L1, L2 and maximum norms, (squared) length, sums and products over iterators of containers, zero and its test take every component of the container into account exactly once and no other value, for every non-empty shape. The test for zero holds only when every component is zero, and normalising a non-zero value (whose squared length neither over- nor underflows) yields the same direction with unit length.",
 ["inputs"],
 "all shapes and all component values, in particular negative ones, ties and extremes in any position",
 "Tests check a single container per reduction, whose distinguishing element often sits in a fixed position.",
 [VO+"base.rs",VO+"iter.rs","src/vector/dot.rs",MO+"base.rs",MO+"iter.rs",CX+"complex_.rs",CX+"quaternion.rs"],
 [("fold_first based sum/min/max",VO+"base.rs"),("norms as map then reduce",VO+"base.rs"),("Sum/Product folds",VO+"iter.rs")],
 [], ["results of the reductions"])

prop("C08","Dot, cross, outer and matrix products follow linear algebra",
 "The dot product, the two-, three- and four-component cross products, the outer product and the matrix-vector, vector-matrix and matrix-matrix products equal their textbook sums of products for every combination of compatible shapes, with the left operand's entry as left factor of each term. Hence products are bilinear and associative, transposition reverses them, and the identity matrix is neutral.",
 ["inputs","configurations"],
 "all compatible shapes (square or not) and all entries, including entries with non-commutative multiplication",
 "Tests evaluate one product per shape with small commutative integers.",
 ["src/vector/dot.rs","src/vector/spec.rs","src/matrix/product.rs","src/matrix/square.rs"],
 [("Dot/Outer implementations by row and column","src/matrix/product.rs"),("cross","src/vector/spec.rs")],
 [], ["product results"])

prop("C09","Determinant, cofactors, adjugate and inverse of any square matrix",
 "For a square matrix of any size over a commutative scalar type, the determinant is the signed sum over all permutations, the cofactor for a position is the signed determinant without that row and column, the adjugate is the transposed cofactor matrix, and whenever the determinant is invertible the inverse multiplies the matrix to the identity on both sides. Diagonal construction puts the given entries on the diagonal and zero elsewhere, and asking for a cofactor outside the matrix panics.",
 ["inputs","configurations"],
 "all sizes and all entries, singular or not",
 "Tests check a handful of matrices up to 4x4 and random inverses of 3x3 only, where many sign and index mistakes of larger or structured matrices do not show.",
 ["src/matrix/square.rs"],
 [("recursive expansion with row and column masks","src/matrix/square.rs")],
 [("row/column masks","rows and columns excluded at the current expansion depth","src/matrix/square.rs")],
 ["det, cofactor, adj, inv results"])

prop("C10","Complex numbers form the complex field",
 "Complex addition, subtraction, multiplication, division, inversion, conjugation, negation, remainder-free powers, scalar-on-either-side and assigning operators, dot product, squared norm, sums and products over iterators, constants and the conversion to a 2x2 real matrix agree with the complex numbers over any commutative scalar type. In particular the matrix form turns products into matrix products, the squared norm is multiplicative, and dividing by a non-zero-norm value and multiplying it back returns the original.",
 ["inputs"],
 "all component values and every operand combination (complex/complex, complex/scalar, scalar/complex)",
 "Tests check a few random products and inverses in floating point; most mixed and assigning operators are never called.",
 [CX+"complex_.rs"],
 [("component formulas",CX+"complex_.rs"),("reverse operator macros",CX+"complex_.rs")],
 [], ["operator results"])

prop("C11","Quaternions form the quaternion algebra, mixing with complex numbers",
 "Quaternion addition, subtraction, multiplication, right division, inversion, conjugation, negation, assigning operators, dot product, squared norm, sums and products, basis constants and the conversion to a 4x4 real matrix agree with Hamilton's quaternions over any commutative scalar type, operand order included. Mixing with a scalar or with a complex number (read as real part and first imaginary component) on either side gives what converting that operand to a quaternion first would give.",
 ["inputs"],
 "all component values and every operand combination (quaternion, complex, scalar on either side)",
 "Tests check identities on random floating-point samples for a few operators; the mixed operators and assigning forms are barely exercised.",
 [CX+"quaternion.rs"],
 [("component formulas",CX+"quaternion.rs"),("reverse operator macros",CX+"quaternion.rs")],
 [], ["operator results"])

prop("C12","Transformations compose, invert and have an identity",
 "For shifts, scalings, linear maps, two- and three-dimensional rotations (given by unit complex numbers or quaternions), and their two-element chains in either order: applying a composition equals applying the right operand and then the left one, applying an inverse undoes the map on both sides, and the identity changes no point. Swapping the order of a shift and a linear-type map preserves the composite map, and these laws survive any sequence of compositions and inversions.",
 ["programs","inputs"],
 "all transformation kinds and dimensions, all parameters for which the map is invertible, all points, all finite sequences of compositions, inversions and reorderings",
 "Tests cover linear-after-shift chains on random floats with single compositions; scalings, rotations inside chains, reversed chains and long histories are untested.",
 [TR+"chain.rs",TR+"shift.rs",TR+"linear.rs",TR+"scale.rs",TR+"rotation.rs",TR+"affine.rs"],
 [("Chain via Reorder",TR+"chain.rs"),("Reorder implementations",TR+"linear.rs")],
 [("denotation","the affine map x -> A x + b an object stands for","each transformation value")],
 ["images of points"])

prop("C13","Derivatives and directions transform by the map's linear part",
 "For every non-Moebius transformation the derivative at any point along a direction equals the map's linear part applied to that direction, so it is independent of the point for these maps, linear in the direction, and obeys the chain rule. Transforming a unit direction gives the unit vector along its derivative, and transforming a unit surface normal gives the unit vector along the inverse-transposed linear part applied to it, so that a normal stays perpendicular to, and on the same side of, the transformed surface.",
 ["inputs","programs"],
 "all shifts, scalings of non-zero magnitude, linear maps, rotations and chains of them, all points, directions and normals of unit length",
 "No test calls the direction or normal methods, and derivatives are checked only for affine maps at the origin.",
 [TR+"mod.rs",TR+"chain.rs",TR+"shift.rs",TR+"linear.rs",TR+"scale.rs",TR+"rotation.rs"],
 [("deriv/apply_dir/apply_normal",TR+"linear.rs"),("normal_transform",TR+"linear.rs")],
 [], ["deriv, apply_dir, apply_normal results"])

prop("C14","Rotations are isometries with the stated angle, axis and target",
 "A rotation built from an angle (and a unit axis in three dimensions) preserves lengths and orientation, fixes its axis, turns by the given angle counter-clockwise (right-handed about the axis), reports an angle and axis that describe the same rotation, and its linear form maps every point identically. Look-at constructions give orientation-preserving isometries that take the viewing direction (0,0,-1) to the requested unit direction, for every direction, with the up vector in the upper half plane where one is given.",
 ["inputs"],
 "all angles of any sign and size, all unit axes and all unit directions including the coordinate axes and poles",
 "Tests draw random directions and angles, which never hit the poles, axes and branch boundaries of the look-at code.",
 [TR+"rotation.rs",TR+"linear.rs"],
 [("half-angle quaternion",TR+"rotation.rs"),("look_at branch selection",TR+"rotation.rs"),("to_linear",TR+"rotation.rs")],
 [], ["images of points, angle, axis, matrix entries"])

prop("C15","Moebius maps act as fractional linear maps with consistent calculus",
 "A Moebius object maps x to (ax+b)/(cx+d) for real, complex and quaternion points wherever the denominator is invertible; composing multiplies coefficient matrices and agrees with applying one after the other, the inverse undoes the map, the identity fixes every point, and normalising does not change the map. Its derivative at a point along a direction is the true directional derivative of that map, for complex and quaternion points alike, and the transformed direction is that derivative scaled to unit length.",
 ["inputs","programs"],
 "all coefficient matrices with invertible determinant, all points away from the pole, all directions, all finite compositions and inversions",
 "Tests check random floating-point samples with finite differences of one map; composition histories, exact algebra, normalisation and direction methods are not covered.",
 [CX+"moebius.rs",TR+"moebius.rs"],
 [("apply/chain/inv/deriv/deriv_dir",CX+"moebius.rs"),("Transform and Directional implementations",TR+"moebius.rs")],
 [("denotation","the coefficient matrix up to a common factor","the Moebius value")],
 ["images of points, derivatives"])

prop("C16","Random samples satisfy what their distribution promises",
 "Sampling a container with a component distribution fills every component with its own draw; non-zero samples have length above the scalar type's epsilon, unit samples are normalised non-zero samples, invertible samples have a determinant that is not epsilon-small, and a draw that fails its condition is discarded and redrawn rather than returned. Uniform rotations have unit norm and reach the whole range of angles, and the scalar normal distribution is standard normal (mean 0, variance 1, symmetric).",
 ["inputs","histories"],
 "all sequences of underlying random draws, including those that force any number of rejections",
 "Ordinary generators practically never produce a rejected draw, so the retry loops are not exercised, and sample statistics are not checked.",
 ["src/distr.rs","src/vector/distr.rs","src/matrix/distr.rs",CX+"distr.rs",TR+"rotation.rs",TR+"affine.rs",TR+"linear.rs",TR+"shift.rs",TR+"scale.rs"],
 [("rejection loops","src/vector/distr.rs"),("Box-Muller","src/distr.rs"),("delegating distributions",CX+"distr.rs")],
 [("draw position","how many underlying draws have been consumed","the random source")],
 ["samples, number of draws consumed"])

prop("C17","Text output shows the type, shape and every component in order",
 "Formatting a vector, matrix, complex number or quaternion, in display or debug form, writes the type name (with its shape for vectors and matrices), then every component in order using that component's own display or debug form, with the fixed separators and line structure. No component is omitted, repeated or reordered for any shape of at least one element.",
 ["inputs"],
 "all shapes of at least one element and all component types and values",
 "Tests compare one string per type.",
 [VB+"format.rs","src/matrix/format.rs",CX+"format.rs"],
 [("fmt implementations",VB+"format.rs")],
 [], ["formatted text"])

prop("C18","Approximate equality is component-wise within the given tolerance",
 "Two vectors, matrices, complex numbers, quaternions, Moebius objects or transformations are approximately equal for a tolerance exactly when each pair of corresponding components is approximately equal for that same tolerance, for every component and every tolerance. The default tolerance is that of the component type.",
 ["inputs"],
 "all types, all component pairs and all tolerances, in particular values differing in one component only and by just more or just less than the tolerance",
 "The suite only uses approximate equality as an oracle for equal values; it never checks that different values are told apart.",
 ["src/vector/approx.rs","src/matrix/approx.rs",CX+"approx.rs",TR+"chain.rs",TR+"linear.rs",TR+"scale.rs",TR+"shift.rs",TR+"rotation.rs"],
 [("abs_diff_eq delegating to components","src/vector/approx.rs")],
 [], ["boolean results"])

prop("C19","Primitive numbers implement the shared traits consistently",
 "For every primitive numeric type the library supports, the L1, L2 and maximum norms of a value are its absolute value, the squared norm and the dot product are products of the values, floating-point conjugation is the identity, and a floating-point value counts as epsilon-small exactly when its absolute value is at most the type's machine epsilon.",
 ["inputs","configurations"],
 "all twelve primitive types and all values whose results are representable, NaN and infinities included for floats",
 "No test calls these traits on primitives directly.",
 ["src/traits.rs"],
 [("derive_primitive_* macros","src/traits.rs")],
 [], ["trait method results"])

prop("C20","Shapes with one or zero elements obey the same rules as all others",
 "Every operation that makes sense for a vector or matrix with a dimension of one or zero behaves as the general rule for its shape says: traversals, conversions, element-wise operators, transposition, zero tests, formatting and the empty determinant treat an empty container as one with no elements. Only reductions that need a first element may panic on an empty container.",
 ["configurations","inputs"],
 "all shapes with some dimension equal to 0 or 1",
 "No test instantiates a dimension smaller than two.",
 [VB+"iter.rs",VB+"format.rs",MB+"iter.rs",MB+"convert.rs","src/matrix/square.rs","src/matrix/format.rs"],
 [("FlatIter construction",MB+"iter.rs"),("separator loop",VB+"format.rs")],
 [], ["results for degenerate shapes"])

prop("C21","Complex powers and elementary functions agree with each other",
 "Polar form and Cartesian form convert into each other (norm and argument on the whole plane, argument in the right quadrant); integer powers equal repeated multiplication and division; square and cube roots, exponential and logarithm, power and logarithm to a base, circular, hyperbolic and inverse functions satisfy their defining identities on complex arguments and take their principal values, and operations that delegate to another complex type keep real and imaginary parts and the order of operands.",
 ["inputs"],
 "all finite non-zero complex arguments and exponents of moderate size in all four quadrants",
 "Hardly any of these functions is called by a test.",
 [CX+"complex_.rs"],
 [("delegation through num_complex",CX+"complex_.rs"),("polar form",CX+"complex_.rs")],
 [], ["function results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
