#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (author tool)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook,**({'state':state} if state else {}))))
T="The unit tests call each function once or a few times, mostly on one random or hand-picked input in the default SSE2 build; "
I="include/cglm/"
p("C01","Float vector operations compute their documented formulas",
 "For all 2-, 3- and 4-component float vectors, every vector operation (arithmetic, accumulate forms, dot/cross/norms/distances, normalize, scale-as, rotate, project, reflect, refract, face-forward, ortho, swizzle, complex, make/copy/fill, fract/floor/mod/sqrt) produces in every component the mathematically defined value, up to a few float rounding errors of its inputs' magnitude. Degenerate inputs have their documented outcome (vectors too short to normalize give zero, total internal reflection gives false and a zero vector).",
 ["inputs"],"all finite component values, all component positions, all lengths 2-4, including degenerate vectors",
 T+"they do not cover the whole value space, each component independently, nor degenerate thresholds.",
 [I+"vec2.h",I+"vec2-ext.h",I+"vec3.h",I+"vec3-ext.h",I+"vec4.h",I+"vec4-ext.h"],
 [("component-wise and SIMD implementations",I+"vec4.h"),("norm threshold",I+"vec3.h glm_vec3_normalize_to")],["destination vectors and scalar results of glm_vec2_/vec3_/vec4_ calls"])
p("C02","Integer vector operations are exact",
 "For all integer vectors of 2, 3 and 4 components whose exact result fits in an int, every integer vector operation (arithmetic, accumulate forms, division and remainder truncating toward zero, dot, cross, distances, norms, min/max, clamp, abs, comparisons, fill/copy) yields exactly the mathematically defined integer in every component (norms and distances are the float value truncated to int, so they may be one off where float cannot hold the squares exactly).",
 ["inputs"],"all int component values for which no C-level overflow or division by zero occurs, including INT_MIN/INT_MAX where defined",
 T+"negative operands, extreme values and every component are not covered.",
 [I+"ivec2.h",I+"ivec3.h",I+"ivec4.h"],[("component-wise integer code",I+"ivec3.h")],["destination vectors and scalar results of glm_ivec* calls"])
p("C03","Scalar helpers, comparisons and classifications are right on every value",
 "Scalar utilities (degree/radian conversion, min/max/clamp, sign, step, smoothstep, lerp, percent, swap, luminance) and vector comparisons and classifications (exact and epsilon equality, all-equal, min/max element, sign, abs, step, clamp, NaN/Inf/valid tests) return the documented result for every value, at and around every threshold, and for zeros of both signs, subnormals, huge values and infinities; sign of zero or NaN is 0, and NaN/Inf tests look at every component.",
 ["inputs"],"all 32-bit float / int argument values, special values included, in every component position",
 T+"special values are tried in one component of one vector, thresholds are not probed from both sides.",
 [I+"util.h",I+"vec2-ext.h",I+"vec3-ext.h",I+"vec4-ext.h",I+"color.h"],[("scalar helpers",I+"util.h")],["returned scalars / booleans"])
p("C04","Matrix products, transposes and element plumbing are right for every shape",
 "For every supported matrix shape (2x2 to 4x4, square and rectangular), product with a matrix, with a chain of matrices or with a vector, transposition, scaling, trace, bilinear products, row/column swaps, sub-matrix pick/insert, identity/zero/array fills, copies and conversions give the column-major linear-algebra result in every element, up to float rounding of the summed terms.",
 ["inputs"],"all matrices and vectors of finite floats",
 T+"one random matrix per function cannot exclude a wrong element that happens to agree or a wrong SIMD lane in another build.",
 [I+"mat2.h",I+"mat3.h",I+"mat4.h",I+"mat2x3.h",I+"mat2x4.h",I+"mat3x2.h",I+"mat3x4.h",I+"mat4x2.h",I+"mat4x3.h",I+"simd/"],
 [("scalar and SIMD multiply/transpose kernels",I+"simd/sse2/mat4.h")],["destination matrices/vectors"])
p("C05","Determinants and inverses are right for every invertible matrix",
 "For every 2x2, 3x3 or 4x4 matrix the determinant equals the mathematical determinant, and for every well-conditioned invertible matrix the inverse multiplied by the matrix is the identity, both within the rounding error warranted by the matrix's conditioning; the documented fast inverse is within its documented lower (reciprocal-estimate) precision, and the rigid-body inverse inverts every rotation+translation.",
 ["inputs"],"all matrices with finite entries and conditioning that leaves the result meaningful in float",
 T+"the inverse tests use one benign random matrix; sign, zero-minor and permutation structures are not exercised.",
 [I+"mat2.h",I+"mat3.h",I+"mat4.h",I+"affine-mat.h",I+"simd/"],[("cofactor expansion kernels",I+"mat4.h, simd/sse2/mat4.h, simd/neon/mat4.h")],["inverse matrices and determinants"])
p("C06","Quaternion arithmetic obeys the Hamilton algebra in x,y,z,w layout",
 "For all quaternions stored as x,y,z,w: product is the Hamilton product, conjugate/inverse/norm/normalize/add/sub/dot/real/imaginary/axis/angle accessors return their mathematical values, the inverse times the quaternion is the identity, angle-axis constructors produce unit quaternions of half the angle about the normalized axis, and identity/degenerate inputs give their documented outcome.",
 ["inputs"],"all quaternions (not only unit), all angles and non-degenerate axes",
 T+"products are checked on a handful of quaternions.",[I+"quat.h",I+"simd/sse2/quat.h"],[("quaternion product kernels",I+"quat.h glm_quat_mul, simd/*/quat.h")],["destination quaternions and scalars"])
p("C07","All rotation representations describe the same rotation",
 "Converting a rotation between quaternion, 3x3/4x4 matrix (and transposed forms), axis-angle, look directions and vector pairs, and applying it to vectors or matrices by any of the provided routes, always gives the same rotation: unit quaternion to matrix is orthonormal with determinant +1, matrix to quaternion and back is the original, rotation from one vector to another maps the first onto the second, including the half-turn and identity cases.",
 ["inputs"],"all unit quaternions, axes, angles and direction pairs, including every branch of the matrix-to-quaternion conversion",
 T+"which of the trace/diagonal branches is taken depends on the input and most branches see at most one sample.",
 [I+"quat.h",I+"affine.h",I+"vec3.h"],[("matrix to quaternion branches",I+"quat.h glm_mat4_quat / glm_mat3_quat")],["quaternions, matrices and rotated vectors"])
p("C08","Quaternion interpolation stays on the rotation arc and hits its endpoints",
 "For all pairs of unit quaternions and every parameter, lerp/clamped lerp follow the linear formula, normalized lerp returns a unit quaternion on the shorter arc, slerp returns the unit quaternion at constant angular fraction on the shorter arc (the longest-arc form on the longer one), with exact endpoints up to rounding and with nearly equal, identical and opposite inputs handled.",
 ["inputs"],"all unit quaternion pairs incl. near-equal/near-opposite, all t",
 T+"slerp is compared to a copy of itself on random quaternions; threshold branches are not driven.",[I+"quat.h"],[("slerp branches",I+"quat.h glm_quat_slerp")],["interpolated quaternions"])
p("C09","Interpolation, easing and curve functions follow their formulas and endpoints",
 "For every parameter value, scalar/vector lerp, mix, smooth interpolation and smoothstep, all easing functions, cubic Bezier/Hermite evaluation, de Casteljau solving and spline-matrix evaluation return the value of their defining formula; easing starts at 0 and ends at 1, clamped forms stay within their endpoints.",
 ["inputs"],"all parameters t (every easing piece, both sides of every breakpoint), all control values",
 T+"most easing functions are not tested at all; others at single points.",[I+"ease.h",I+"bezier.h",I+"curve.h",I+"util.h",I+"vec2.h",I+"vec3.h",I+"vec4.h"],[("piecewise easing formulas",I+"ease.h")],["returned scalars / vectors"])
p("C10","Euler angle building, extraction and quaternion conversion agree for all orders",
 "For all three angles and each of the six orders, the rotation matrix built from Euler angles is the product of the three elementary rotations in that order, the quaternion built from the same angles describes the same rotation (in the configured handedness), extracting angles from a pure rotation and rebuilding reproduces the matrix, including at gimbal lock, and the order encoding function maps each axis permutation to its order.",
 ["inputs","configurations"],"all angle triples, all orders, both handedness options, gimbal-lock configurations",
 T+"angles are sampled at a few values; gimbal-lock branches need pitch of exactly +-90 degrees.",[I+"euler.h",I+"handed/euler_to_quat_lh.h",I+"handed/euler_to_quat_rh.h"],[("extraction branches on the sine",I+"euler.h glm_euler_angles")],["matrices, angles, quaternions"])
p("C11","3D affine helpers compose exactly the transform they name",
 "Creating, pre- or post-applying a translation, rotation (about any axis, a coordinate axis or a pivot), scale, spin or uniform scale gives exactly the corresponding matrix product with the elementary transform on the documented side, and the optimized affine product/rotation product/rigid inverse equal the general product or inverse on affine inputs; elements outside the transform's effect are untouched.",
 ["inputs"],"all matrices, translations, axes (normalized or not), angles, pivots",
 T+"tests compare one transform against its hand-written matrix.",[I+"affine.h",I+"affine-pre.h",I+"affine-post.h",I+"affine-mat.h",I+"simd/"],[("column-wise updates",I+"affine-pre.h, affine-post.h")],["resulting matrices"])
p("C12","2D affine helpers compose exactly the transform they name",
 "In 3x3 homogeneous form, creating or applying a 2D translation, rotation or (uniform) scale, on the documented side, gives exactly the matrix product with the elementary 2D transform, and the elements it does not concern are untouched.",
 ["inputs"],"all 3x3 matrices, 2D vectors and angles",T+"2D helpers see one input each.",[I+"affine2d.h",I+"affine2d-post.h"],[("column updates",I+"affine2d.h")],["resulting 3x3 matrices"])
p("C13","Transform decomposition recomposes to the original",
 "For every affine matrix made of translation, rotation and non-zero per-axis scale (including mirrored ones), decomposition returns the translation, a proper rotation (orthonormal, determinant +1) and scales such that translation * rotation * scale reproduces the matrix, and scale extraction and uniform-scale detection report the actual column lengths.",
 ["inputs"],"all TRS compositions incl. reflections and uniform/non-uniform scale",T+"one TRS composition is decomposed.",[I+"affine.h"],[("sign fix by determinant",I+"affine.h glm_decompose_rs")],["translation, rotation, scale outputs"])
p("C14","Projection matrices map the view volume onto the configured clip volume",
 "For all valid view volumes, orthographic, frustum and perspective constructors of each clip convention (left/right-handed, depth -1..1 or 0..1), and their box-based and default forms, produce a matrix that maps the near plane, far plane and the four side planes of the volume exactly onto the corresponding clip-volume boundaries with the viewing direction of that handedness.",
 ["inputs","configurations"],"all left/right/bottom/top/near/far, fovy, aspect, boxes, paddings; four clip conventions",
 T+"constants are compared for one parameter set per convention.",[I+"clipspace/",I+"cam.h"],[("per-convention constructors",I+"clipspace/persp_*.h, ortho_*.h")],["projection matrices"])
p("C15","Perspective matrices can be queried and edited consistently",
 "For every perspective or frustum matrix built by the library in a clip convention, extracting near, far, top, bottom, left, right, field of view, aspect and plane sizes in that convention returns the construction parameters, resizing changes only the aspect, and moving the far plane changes only the far distance.",
 ["inputs","configurations"],"all valid projection parameters in each of the four conventions",T+"one projection is decomposed per convention.",[I+"clipspace/",I+"cam.h"],[("closed-form extraction",I+"clipspace/persp_*.h glm_persp_decomp*")],["extracted scalars, edited matrices"])
p("C16","View matrices place the eye at the origin looking down the right axis",
 "For every eye, target or direction and non-parallel up vector, look-at/look/any-up view matrices are rigid transforms (orthonormal, determinant +1) that take the eye to the origin and the viewing direction to the negative Z axis (right-handed) or positive Z axis (left-handed) with the up vector in the upper YZ half-plane, in every clip convention.",
 ["inputs","configurations"],"all eye/center/dir/up, four conventions",T+"one camera per convention is checked.",[I+"clipspace/view_lh.h",I+"clipspace/view_rh.h",I+"cam.h"],[("basis construction",I+"clipspace/view_rh.h")],["view matrices"])
p("C17","Projecting and unprojecting are inverse and honour viewport and depth range",
 "For every invertible model-view-projection, viewport and point, projection yields the window coordinates given by the perspective division and viewport transform of the configured depth range, unprojection recovers the original point from them, the depth-only form equals the third coordinate, and the pick matrix maps the picking rectangle to the full clip square.",
 ["inputs","configurations"],"all matrices, viewports, points; both depth ranges",T+"a few points through one camera.",[I+"project.h",I+"clipspace/project_no.h",I+"clipspace/project_zo.h"],[("viewport mapping",I+"clipspace/project_*.h")],["window / object coordinates"])
p("C18","Frustum planes, corners and boxes describe the same view volume; culling is safe",
 "For every view-projection matrix, the six extracted planes are normalized and contain exactly the points that transform inside the -1..1 clip cube (also when the build overrides the clip-space constants), the eight corners are the pre-images of the clip cube's corners in the documented order, centers, frustum boxes and (for symmetric frusta) the corners at a given distance are derived from them correctly, and box-versus-frustum culling answers false only if the box is completely outside one plane.",
 ["inputs","configurations"],"all invertible view-projection matrices, boxes, distances",T+"one camera; culling is checked on few boxes.",[I+"frustum.h",I+"box.h",I+"plane.h"],[("plane extraction from rows",I+"frustum.h glm_frustum_planes")],["planes, corners, boxes, booleans"])
p("C19","Bounding boxes and spheres behave as point sets",
 "For all axis-aligned boxes (2D and 3D) and spheres/circles, merge (a merged sphere contains both), crop, clamped crop, transform, center, size, radius, diagonal and validity (any box but the invalidated one) follow their geometric definition, a transformed box contains every transformed point of the original and is tight, and every containment or intersection test agrees with the geometric truth, touching cases included.",
 ["inputs"],"all boxes with min<=max, spheres, points, affine transforms, in every relative placement",T+"each predicate is tried on a few fixed placements.",[I+"box.h",I+"aabb2d.h",I+"sphere.h"],[("closest-point distance test",I+"box.h glm_aabb_sphere, aabb2d.h glm_aabb2d_circle")],["boxes, scalars, booleans"])
p("C20","Ray queries report the true intersection",
 "For every ray and triangle or sphere, the query reports a hit exactly when the ray meets the shape (within float rounding of the boundary) and the reported distances satisfy the shape's equation at origin + t * direction (near-parallel triangles, determinant at most 1e-6, and hits closer than 1e-6 count as misses), and ray points are evaluated at the given parameter.",
 ["inputs"],"all rays (in front, behind, inside, grazing, parallel), triangles of both windings, spheres",T+"one hit and one miss per shape.",[I+"ray.h"],[("Moeller-Trumbore / quadratic solve",I+"ray.h")],["hit booleans and distances"])
p("C21","Gradient noise equals the classic Perlin noise definition",
 "For every point, the 2-, 3- and 4-dimensional noise functions return the classic (permutation-polynomial) Perlin noise value: bounded, zero at integer lattice points, continuous across cell borders for positive and negative coordinates, and deterministic.",
 ["inputs"],"all points in a range where the lattice arithmetic is exact in float, all cells including negative ones",T+"three fixed points are compared.",[I+"noise.h"],[("permute / fade / gradient helpers",I+"noise.h")],["noise values"])
p("C22","Inline, linked and struct APIs return the same results",
 "For every function offered in more than one form, calling the inline array form, the linkable library form and the by-value struct form with the same arguments gives the same results and the same choice of which argument is the result, every declared library function can be linked, and alternative names (aliases kept for compatibility) denote the function they stand for; C++ callers get the same results as C callers.",
 ["inputs","programs"],"all functions in all offered forms, all inputs",T+"array and library forms share test bodies but most struct functions are called never or once; the library is tested through a single build.",
 ["src/","include/cglm/call/","include/cglm/struct/"],[("forwarding wrappers","src/*.c, include/cglm/struct/*.h")],["results of glm_*, glmc_*, glms_* calls"])
p("C23","Every instruction-set build returns the same results as plain C",
 "For every function and input, builds that select different code (no SIMD, SSE2, SSE3/SSE4 dot, AVX, AVX2+FMA, unaligned, WebAssembly SIMD, ARM NEON, different compilers and optimization levels) return results equal to each other up to float rounding, and take the same documented outcome on degenerate inputs.",
 ["inputs","configurations"],"all functions, all inputs, all supported instruction sets and build options",T+"the test suite runs on a single instruction set (SSE2) per run.",
 [I+"simd/",I+"vec4.h",I+"mat4.h",I+"mat3.h",I+"mat2.h",I+"quat.h",I+"affine-mat.h"],[("compile-time dispatch to SIMD kernels",I+"mat4.h glm_mat4_mul etc.")],["results of each build for identical inputs"])
p("C24","Functions touch only the memory of their arguments",
 "Every function reads and writes only inside the objects passed to it, never modifies an input-only argument or an element it does not document as written, writes all of its output, never depends on the previous content of a pure output, and requires no more alignment than the type carries in that build.",
 ["inputs","configurations"],"all functions, all placements of arguments (against inaccessible pages on either side, minimally aligned), all builds",T+"stack buffers hide neighbouring overreads/overwrites, and ambient alignment hides alignment assumptions.",
 [I+"simd/",I+"mat3.h",I+"vec3.h"],[("3-component loads/stores in SIMD code",I+"simd/sse2/mat3.h, simd/x86.h glmm_load3/glmm_store3"),("alignment attributes",I+"types.h")],["memory around and inside arguments, page faults"])
p("C25","The destination may be one of the inputs",
 "For every function whose output has the same type as an input, passing the same object as input and output gives the same result as with separate objects in every API form, except for the functions explicitly listed as not supporting it.",
 ["inputs","configurations"],"all functions, each input/output pairing and all inputs equal, all builds",T+"in-place use is tested for a few functions in one build; instruction-set paths differ in when they store.",
 [I+"mat4.h",I+"quat.h",I+"vec3.h",I+"simd/"],[("temporaries before stores",I+"vec3.h glm_vec3_cross, mat4.h")],["results with aliased arguments"])
p("C26","No undefined behaviour on valid input",
 "No function executes undefined behaviour (out-of-bounds or misaligned access, signed overflow, invalid shift, invalid float-to-int conversion, use of uninitialized memory) for any argument values within its documented domain.",
 ["inputs","configurations"],"all functions, inputs drawn over their whole documented domain",T+"the test suite is not run under sanitizers and uses benign inputs.",
 [I],[("plain C arithmetic and SIMD intrinsics",I)],["sanitizer reports (address, undefined, memory)"])
p("C27","Functions are pure: no hidden state, allocation, or environment change",
 "Calling any function, in any order and from any number of threads on distinct outputs, always gives the result of the call in isolation: there are no data races, no writable global state, no heap allocation, and the floating-point environment (rounding mode, exception masks, flush modes) and its interpretation are left unchanged.",
 ["schedules","histories"],"all interleavings of calls from several threads; all call histories",T+"tests are single-threaded and each starts from a fresh process state.",
 [I,"src/"],[("stateless inline functions",I)],["results under concurrency and history permutation, race reports, allocator calls, data segments, MXCSR"])
p("C28","Printing shows exactly the value's elements, in order, on the given stream",
 "For every vector, integer vector, matrix, quaternion and box, the print functions write to the given stream and nowhere else, one line-structured block showing each element once, in its documented row/column position, with aligned columns and the configured precision and decorations; they do not modify the value, and they expand to nothing when printing is disabled.",
 ["inputs","configurations"],"all values (any magnitude, negative, special), all print options",T+"print functions are not tested.",[I+"io.h"],[("column width computation and fprintf",I+"io.h")],["bytes written to the stream"])
p("C29","Clip-space options select the matching convention everywhere",
 "With any combination of the handedness and depth-range options, the generic camera, projection (including the frustum matrix builder), unprojection and Euler-quaternion functions, in all API forms, behave exactly as the explicitly named function of that convention.",
 ["configurations","inputs"],"the four option combinations, all generic functions, all inputs",T+"a build selects one combination, and only the default one is built by the tests.",
 [I+"cam.h",I+"project.h",I+"common.h",I+"struct/cam.h",I+"frustum.h"],[("compile-time dispatch on the configured clip control",I+"cam.h")],["results of generic vs explicit functions"])
p("C30","Struct unions and constants are layout-compatible views of the array types",
 "Every struct type is layout-identical (size, alignment, element order) to its array type, each named member (x,y,z,w, r,g,b,a, real/imag, mRC, col) aliases the corresponding array element, constants and initializer macros hold their named values in both APIs, and the struct namespace option (which drops the type prefix of the functions whose names carry one) renames functions without changing results.",
 ["configurations","inputs"],"all struct types, members, constants, and struct options, in C and C++",T+"tests read a few members of a few types in one configuration.",[I+"types.h",I+"types-struct.h",I+"struct/"],[("anonymous struct unions",I+"types-struct.h")],["member values, offsets, constants"])
p("C31","SIMD register helpers compute their lane-wise definition",
 "In every instruction-set build, each public register-level helper (load/store of 3 or 4 floats, abs, min, max, horizontal add/min/max, dot, norms, division, the four fused multiply-add sign variants in 128 and 256 bits, splats and shuffles) computes its lane-wise definition (loads and stores of three floats need only float alignment; min/max of NaN and of zeros of opposite sign are unspecified), whether or not the hardware has fused instructions.",
 ["inputs","configurations"],"all lane values, all instruction sets",T+"these helpers are only reached indirectly, in one instruction set; several are not called at all.",[I+"simd/x86.h",I+"simd/arm.h",I+"simd/wasm.h"],[("intrinsic wrappers",I+"simd/x86.h")],["register lanes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
