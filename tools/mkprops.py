#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties; edit here)."""
import json, os
V = 'vmmlib/'
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [V + f for f in files], 'state': [dict(name=a, meaning=b, where=V + c) for a, b, c in state],
                          'mechanism': [{'name': a, 'where': V + b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
VEC_STATE = ('array', 'the M components of a vector, in order', 'vector.hpp')
MAT_STATE = ('array', 'the M*N elements of a matrix, column by column', 'matrix.hpp')
p('C01', 'All element accessors of a vector or matrix name the same storage',
  'A matrix is stored column by column, and row/column call syntax, checked access, double subscripts, forward and reverse iterators, '
  'the implicit pointer conversion and the translation-component shortcuts all reach the same element for the same index; for a vector the index, '
  'coordinate-name, colour-name, iterator, pointer and sub-vector accessors likewise agree. Reading through any of them changes nothing, and writing '
  'through any of them changes exactly that one element. Reported sizes and dimensions equal the template dimensions.',
  'every dimension, element type, in-range index, element value and stored contents',
  'Tests read a few elements of 2x2 to 4x4 objects filled with consecutive numbers; they never write through most accessors nor check that nothing else changed.',
  ['vector.hpp', 'matrix.hpp'],
  [('Vector::at, operator(), x..w, r..a, begin/end/rbegin/rend, operator T*, get_sub_vector', 'vector.hpp'),
   ('Matrix::at, operator(), operator[], row_accessor, begin/end/rbegin/rend, operator T*, x/y/z', 'matrix.hpp')],
  observe=['element values seen through each accessor'], state=[VEC_STATE, MAT_STATE])
p('C02', 'Out-of-range accesses are rejected and never touch memory outside objects',
  'With the checked accessors enabled (the debug build), every element, row, column or sub-matrix access whose index or offset does not fit the object '
  'raises an error and leaves all objects as they were; every access that does fit succeeds without an error. Constructing or assigning from a '
  'sequence, in whole or in part, never reads past the end of the given sequence and never writes outside the object.',
  'every dimension, element type and every index value of the index type, including values near its maximum',
  'Tests use only valid indices (the out-of-range case is a handful of constants) and no sanitizer observes the reads.',
  ['vector.hpp', 'matrix.hpp', 'vmmlib_config.hpp', 'exception.hpp'],
  [('VMMLIB_SAFE_ACCESSORS range checks', 'vector.hpp'), ('at, row_accessor, get/set_row, get/set_column, get/set_sub_matrix', 'matrix.hpp'),
   ('iter_set / set(begin,end)', 'matrix.hpp')], observe=['exceptions', 'object contents after a rejected access'], state=[VEC_STATE, MAT_STATE])
p('C03', 'Construction, conversion, copying and assignment preserve every element',
  'Each constructor, assignment, fill, set, cast and copy (component lists, C arrays, sequences of any length in row- or column-major order, vectors of neighbouring '
  'dimension, homogeneous conversions, other element types and other matrix sizes) yields exactly the documented elements in the documented positions: '
  'values that have no source are unchanged by a partial set, zero (or the identity pattern) after construction, and one for an added homogeneous coordinate. '
  'The source object is never modified, and the predefined constants (zero, one, units, identity) have their mathematical values.',
  'every dimension, element type pair, source contents and sequence length',
  'Tests construct a few small objects from consecutive literals; partial ranges, mixed types, non-square layouts and homogeneous division are sampled at one value or not at all.',
  ['vector.hpp', 'matrix.hpp'],
  [('constructors, operator=, set, iter_set, cast_from', 'vector.hpp'), ('constructors, operator=, set, fill, zero, cast_from', 'matrix.hpp')], state=[VEC_STATE, MAT_STATE])
p('C04', 'Vector arithmetic is elementwise and leaves its operands alone',
  'Sum, difference, product, quotient and negation of vectors, and their scalar and in-place forms, compute exactly the component-by-component result for every component; '
  'square roots and reciprocals are likewise elementwise, and the product of all elements is the mathematical product. Operands other than the assigned one are unchanged, also when an object is combined with itself, '
  'and integer element types wrap exactly as their type does.',
  'every dimension, element type and operand values, including aliased operands',
  'Tests check one or two vectors of small consecutive values in dimensions 3 and 4.',
  ['vector.hpp'], [('operator+ - * / and += -= *= /=, operator-, negate, sqrt_elementwise, reciprocal, product', 'vector.hpp')], state=[VEC_STATE])
p('C05', 'Vector products, lengths, normalisation and sphere/plane geometry are exact',
  'Dot and cross product, squared and plain length, distance and norm obey their defining equations; normalising a non-zero vector gives the parallel vector of length one and returns the old length, and a zero vector is left alone. '
  'Rotating about a unit axis, the normal of a triangle, the plane through three points, and projection onto and signed distance to spheres and planes satisfy their geometric definitions.',
  'all real component values for which the quantity is defined, all dimensions',
  'Each is tested on one hand-computed example, mostly axis-aligned; an error in a term that is zero in the example passes.',
  ['vector.hpp'], [('dot, cross, length, distance, normalize, norm, rotate, compute_normal, compute_plane, project_point_onto_*, distance_to_*', 'vector.hpp')], state=[VEC_STATE])
p('C06', 'Vector comparison, search and clamping agree with their definitions',
  'Equality is componentwise equality (within the tolerance for the tolerant form), inequality its negation, and the ordering is the lexicographic one and a strict weak order. '
  'The minimum, maximum and absolute minimum/maximum searches return a valid index of an extreme component, clamping forces every component into the interval leaving those inside untouched, and counting, unit test, safe reciprocal, range scaling and the componentwise minimum/maximum/Manhattan helpers match their definitions.',
  'all component values (finite; signed zeros taken as equal), dimensions and element types',
  'Tests use one vector per function; position-dependent errors, ties and negative values are not covered.',
  ['vector.hpp', 'util.hpp', 'math.hpp'], [('operator==, !=, <, equals, find_*, clamp, nnz, is_unit_vector, reciprocal_safe, scale_to', 'vector.hpp'), ('min, max, manhattan, zero', 'util.hpp'),
   ('abs_less, abs_greater, sign, squared, pythag', 'math.hpp')], state=[VEC_STATE])
p('C07', 'Matrix addition, scaling, negation and comparison are elementwise',
  'Matrix sum, difference, scalar sum, scaling, division, negation and elementwise product compute the elementwise result at every position for every shape, in both value-returning and in-place forms, and do not modify other operands. '
  'Two matrices compare equal exactly when all elements agree (within the tolerance, for the tolerant forms), and unequal otherwise.',
  'every shape, element type and contents, including aliased operands',
  'Tests use a single pair of 4x3 or 4x4 matrices; non-square shapes, negation and single-element differences are hardly reached.',
  ['matrix.hpp'], [('operator+ - * / += -= *= /=, negate, multiply_piecewise, operator==, !=, equals', 'matrix.hpp')], state=[MAT_STATE])
p('C08', 'Matrix products equal their algebraic definitions for every shape',
  'The matrix product (all call forms, in place and into a result), matrix-vector product, homogeneous point transformation with perspective division, outer product, Kronecker and Khatri-Rao product, row covariance, direct sum and border-extending convolution produce exactly the sums of products that define them, for every combination of shapes. '
  'Operands are unchanged, and the in-place product is correct also when a matrix is multiplied by itself.',
  'every combination of shapes, element type and contents, including aliased operands',
  'Tests multiply one 2x3 by 3x2 example and transform one vector; mismatched index ranges cancel in symmetric or square examples.',
  ['matrix.hpp'], [('multiply, operator*, operator*=, operator*(Vector), tensor, kronecker_product, khatri_rao_product, symmetric_covariance, direct_sum, convolve', 'matrix.hpp')], state=[MAT_STATE])
p('C09', 'Transpose, rows, columns, sub-matrices and diagonals move the right elements',
  'Transposing puts element (i,j) at (j,i) for every shape, and extracting or replacing a row, a column, a sub-matrix or a diagonal touches exactly the named elements, in both vector and matrix forms; what was written is what is read back. '
  'All other elements, and the source objects, are unchanged.',
  'every shape, index, offset, element type and contents',
  'Tests extract one row, column or block of one matrix with distinct literals and do not check what must stay unchanged.',
  ['matrix.hpp'], [('transpose_to, transpose, get/set_row, get/set_column, get/set_sub_matrix, diag', 'matrix.hpp')], state=[MAT_STATE])
p('C10', 'Determinants, minors, cofactors and adjugates satisfy their expansions',
  'The determinant of a 1x1 to 4x4 matrix equals the Leibniz expansion; a minor is the matrix with the named row and column removed and its determinant, for every choice of row and column. '
  'The cofactor matrix holds the signed minors and the adjugate its transpose, so that a matrix times its adjugate is its determinant times the identity; the source matrix is never modified.',
  'all real matrices of the supported sizes, every row and column choice',
  'Tests evaluate one or two determinants of sparse matrices, on which most terms of the expansion vanish.',
  ['matrix.hpp'], [('compute_determinant, det, get_minor, get_cofactors, get_adjugate', 'matrix.hpp')], state=[MAT_STATE])
p('C11', 'A matrix reported invertible is really inverted; a singular one is refused',
  'For 2x2, 3x3 and 4x4 matrices inversion reports success exactly when the magnitude of the determinant exceeds the tolerance (and never for a singular matrix), and on success the result multiplied by the original on either side is the identity. '
  'Inversion never changes the source matrix.',
  'all real matrices and non-negative tolerances',
  'Tests invert one matrix per size and compare with stored numbers within a tolerance; sign errors in terms that vanish there pass.',
  ['matrix.hpp'], [('compute_inverse, inverse', 'matrix.hpp')], state=[MAT_STATE])
p('C12', '4x4 affine transformations compose as documented on every matrix',
  'Scaling and coordinate-axis rotations applied to an arbitrary 4x4 matrix equal multiplication from the right by the elementary transformation, pre-rotations multiply the inverse elementary rotation from the left, and rotation about an arbitrary unit axis sets the matrix to that rotation. '
  'Setting, getting and scaling the translation touch exactly the first three elements of the last column, and the create/apply helper functions produce and apply these same elementary transformations.',
  'all angles, axes, factors and prior matrix contents, element types float and double',
  'Tests apply one rotation or scale to the identity at one angle; elements that only mix for a general matrix are never observed.',
  ['matrix.hpp', 'util.hpp'], [('rotate, rotate_x/y/z, pre_rotate_x/y/z, scale, scale_translation, set_translation, get_translation', 'matrix.hpp'), ('create_*, apply_*', 'util.hpp')], state=[MAT_STATE])
p('C13', 'Rotations preserve lengths, angles and orientation',
  'For every angle, rotating the identity about a coordinate axis or any unit axis gives an orthonormal upper 3x3 block with determinant +1 and an untouched last row and column; the axis itself is a fixed point, angle zero is the identity, opposite angles cancel and angles about the same axis add. '
  'Rotating a vector about a unit axis is an isometry that fixes the axis, and turns as the rotation matrix does.',
  'all angles and all unit axes',
  'Tests sample at most one angle per axis against literal matrices.',
  ['matrix.hpp', 'vector.hpp'], [('rotate, rotate_x/y/z, pre_rotate_*', 'matrix.hpp'), ('rotate', 'vector.hpp')])
p('C14', 'Matrix reductions consider every element exactly once',
  'Minimum, maximum, absolute minimum and maximum bound all elements and are attained; counts, sums, norms, column sums and the pairwise row and column sums equal their definitions, and thresholding zeroes exactly the elements below the threshold in magnitude. '
  'The discrete cosine transform matrix is orthonormal with the documented coefficients, and the reduced matrix is not modified by any reduction.',
  'every shape, element type and contents, including all-negative ones',
  'Tests reduce one matrix whose extreme value sits in a convenient place.',
  ['matrix.hpp'], [('get_min/max/abs_min/abs_max, nnz, threshold, sum_elements, frobenius_norm, p_norm, columnwise_sum, sum_rows, sum_columns, set_dct', 'matrix.hpp')], state=[MAT_STATE])
p('C15', 'Quantising and dequantising is monotone and loses at most half a step',
  'Quantising a matrix of floating-point elements to an unsigned integer type of at most 32 bits maps the minimum of the value range to zero and the maximum to the largest code, never leaves the code range, and preserves order; dequantising maps the end codes back to the ends of the range. '
  'A round trip reproduces every element to within half a quantisation step, and reports the true value range.',
  'all matrix contents and all value ranges with minimum below maximum',
  'The one test quantises a single literal matrix and compares stored codes.',
  ['matrix.hpp'], [('quantize, quantize_to, dequantize', 'matrix.hpp')])
p('C16', 'Quaternion arithmetic is Hamilton algebra',
  'Addition, subtraction, scaling, negation, conjugation, dot and cross products of quaternions act on the documented components, the product is the Hamilton product in all its forms (also in place with itself), and it is associative, distributes over addition and multiplies magnitudes. '
  'The inverse times the quaternion is one for every non-zero quaternion, normalising gives magnitude one and the same direction, comparison is componentwise, and combining with a 3-vector treats it as a quaternion with zero real part.',
  'all real components, including aliased operands',
  'Tests use single literal quaternions, so sign errors in terms that vanish there pass.',
  ['quaternion.hpp'], [('operators, conjugate, inverse, normalize, dot, cross, is_akin', 'quaternion.hpp')])
p('C17', 'Quaternion and rotation matrix describe the same rotation, both ways',
  'The matrix of a unit quaternion is orthonormal with determinant +1 and rotates every vector as conjugation by the quaternion does; the product of two unit quaternions has the product of their matrices. '
  'The quaternion taken from a rotation matrix, whatever its trace, is a unit quaternion whose matrix is that matrix; larger target matrices keep their other elements.',
  'all unit quaternions and all rotation matrices, in each of the trace/largest-diagonal cases',
  'Literal examples reach only the positive-trace case, so sign errors in the other branches are invisible.',
  ['quaternion.hpp', 'matrix.hpp'], [('get_rotation_matrix', 'quaternion.hpp'), ('set(Matrix), matrix constructor', 'quaternion.hpp')])
p('C18', 'Spherical interpolation stays on the short arc between its end points',
  'Interpolating between two unit quaternions yields the first (up to sign) at parameter zero and the second at one, and, except for nearly equal inputs, a unit quaternion between them whose angle to the first is the parameter times the total angle, along the shorter arc. '
  'The two inputs are unchanged, and swapping them while complementing the parameter gives the same rotation.',
  'all unit quaternions and all parameters between zero and one',
  'At most a single pair of quaternions at one parameter is compared; no test covers the near-identical or opposite-hemisphere cases.',
  ['quaternion.hpp'], [('slerp', 'quaternion.hpp')])
p('C19', 'Bounding boxes contain exactly what was merged into them',
  'Merging points or boxes into a box yields the smallest box containing both, starting from an empty box too, independent of order; containment tests (full and two-dimensional) hold exactly for the points between the corners inclusive. '
  'Centre, extent, scalar arithmetic, equality, the emptiness test, and construction from corners, centre and size, or a sphere agree with the corner coordinates, and queries do not modify the box.',
  'all corner and point coordinates, element types and merge histories',
  'The test merges one or two literal points; each coordinate and each side is a separate code path.',
  ['aabb.hpp', 'vector.hpp'], [('merge, isIn, isIn2d, isEmpty, set*, operators, getCenter, getDimension', 'aabb.hpp')], over=('inputs', 'histories'),
  state=[('_min, _max', 'the two corners of the box', 'aabb.hpp')])
p('C20', 'Frustum projection matrices map the view volume onto the unit cube',
  'The perspective and orthographic matrices of a frustum map each of its eight corners to the matching corner of the cube [-1,1]^3 and are affine in the documented entries; moving the near plane keeps the view pyramid and the far plane, jitter shifts only the four side planes, and width and height are the side distances. '
  'The perspective set-up is symmetric with the requested aspect ratio and the angle tangent scaled by the near distance, and setting, copying and converting a frustum preserve its six parameters.',
  'all non-degenerate frustum parameters',
  'The tests compare one default frustum with stored matrices.',
  ['frustum.hpp', 'matrix.hpp'], [('compute_matrix, compute_ortho_matrix, adjust_near, set_perspective, apply_jitter, set, get_width, get_height', 'frustum.hpp')],
  state=[('array', 'left, right, bottom, top, near, far', 'frustum.hpp')])
p('C21', 'Frustum culling never drops anything visible nor overstates visibility',
  'A culler set up from a projection matrix or from the eight corners never reports a sphere or box as invisible when it has a point strictly inside the frustum, and never reports it as fully visible unless every one of its points is inside. '
  'Objects are classified by their signed distance to the six unit-normal frustum planes, spheres and axis-aligned boxes alike, and testing changes no state.',
  'all frusta, spheres and boxes',
  'The tests cull a few spheres and boxes near one fixed frustum; a wrong plane coefficient only matters for objects close to that plane.',
  ['frustum_culler.hpp', 'vector.hpp', 'matrix.hpp'], [('setup, test_sphere, test_aabb', 'frustum_culler.hpp'), ('compute_plane', 'vector.hpp')],
  state=[('_left_plane .. _far_plane', 'unit-normal planes pointing inwards', 'frustum_culler.hpp')])
p('C22', 'Ray-sphere intersection returns the first hit exactly when one exists',
  'For every ray and sphere the test reports a hit exactly when some point of the ray at non-negative distance lies on the sphere surface, and then the returned distance is non-negative, that of a surface point, and the smallest such distance (a ray that starts exactly on the surface may instead report where it leaves the sphere). '
  'On a miss the distance argument is unchanged.',
  'all ray origins, non-zero directions and spheres of non-negative radius',
  'The test shoots one or two literal rays; rays starting inside, behind or tangent to the sphere are separate paths.',
  ['intersection.hpp', 'vector.hpp'], [('Intersection::test_sphere', 'intersection.hpp')])
p('C23', 'The low-pass filter is a bounded-memory weighted blend of recent samples',
  'After each added sample the filter value equals the documented recurrence over at most the last M samples, newest first, with powers of the smoothing factor; older samples have no influence. '
  'With a factor between zero and one the value lies between the smallest and largest of those samples, and all read accessors return it unchanged.',
  'all sample histories, positive window lengths and smoothing factors (also changed between samples)',
  'The test samples one history; wrap-around of the window and changes of the factor are not reached.',
  ['lowpass_filter.hpp'], [('add, get, set_smooth_factor', 'lowpass_filter.hpp')], over=('inputs', 'histories'),
  state=[('_data', 'the last min(n,M) samples, newest first', 'lowpass_filter.hpp')])
p('C24', 'QR decomposition factors every full-rank matrix',
  'For a matrix with linearly independent columns the computed factors multiply back to the matrix, the columns of Q that belong to the columns of the matrix are orthonormal, and R is upper triangular with positive diagonal and zeros below it. The input matrix is unchanged.',
  'all full-column-rank matrices',
  'A literal example does not determine every coefficient of the factors.',
  ['qr_decomposition.hpp', 'matrix.hpp', 'vector.hpp'], [('qr_decompose_gram_schmidt', 'qr_decomposition.hpp')])
p('C25', 'Stored matrices and vectors are read back unchanged',
  'Writing a matrix to a raw file and reading it back into an object of the same shape reproduces every element. Writing a vector or matrix to a text stream emits every element once, '
  'row by row, and reading a stream fills the elements in that same order; writing (also with operator<<) changes neither the object nor the formatting flags and precision of the stream, '
  'and reading from a file that does not exist leaves the object unchanged. Files that are opened are closed and memory that is allocated is released.',
  'all contents and shapes',
  'No test round-trips a file, and a literal example fixes neither order nor completeness.',
  ['matrix.hpp', 'vector.hpp'], [('write_to_raw, read_from_raw, write_to_stream, read_from_stream, operator<<', 'matrix.hpp'), ('write_to_stream, read_from_stream, operator<<', 'vector.hpp')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
