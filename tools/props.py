"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py rewrites both)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, na=None, note=None, seeds=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note))


prop("C01", "Vector and matrix arithmetic equals its component definition",
     "Every vector and matrix operation (sum, difference, scalar product and quotient, negation, matrix-matrix, matrix-vector and "
     "vector-matrix product, transpose, dot and cross product, norm and normalization, trace, diagonal product, linear combinations, row and "
     "column swaps/sums, symmetric/diagonal/triangular predicates, hermitian transpose, identity and diagonal constructors) returns exactly "
     "the value of its component-wise definition, for square and non-square operands, fixed and dynamic sizes, in-place and returning "
     "forms alike. In-place forms change only their target, and operands are never modified.",
     ["inputs", "configurations"], "all finite element values; fixed and dynamically sized types; square and non-square shapes",
     "tests sample a few mostly square matrices with fixed numbers; the existing tests missed aliasing and wrong-shape products of non-square matrices",
     ["src/algebra/algebra.h", "src/algebra/vec.h", "src/algebra/mat.h"],
     [("generic algebra kernels", "src/algebra/algebra.h"), ("vec operators", "src/algebra/vec.h"), ("mat operators", "src/algebra/mat.h")])

prop("C02", "Matrix and vector storage: each index is its own element, resize keeps data",
     "In a matrix or vector of any shape, writing one element changes that element only, and reading it back returns the written value, under "
     "both storage orders. Resizing a dynamic matrix or vector keeps every element whose index exists in both shapes, zeroes the new ones, and copying or "
     "moving preserves shape and contents; no access leaves the allocated memory and nothing is leaked.",
     ["inputs", "histories", "configurations"], "all shapes, element values and sequences of construct/write/resize/copy; row-first and column-first storage",
     "tests read back a handful of square matrices; aliasing of elements and moves on resize need non-square shapes and histories",
     ["src/algebra/mat.h", "src/algebra/vec.h"],
     [("mat<Type>::operator(), resize", "src/algebra/mat.h"), ("vec<Type>::resize", "src/algebra/vec.h")])

prop("C03", "Decompositions, determinants, inverses and solvers satisfy their equations",
     "LU and Cholesky decompositions multiply back to the input with factors of the promised shape, the determinant equals the Leibniz "
     "formula, an inverse times the matrix is the identity, and every linear solver (triangular, LU, Cholesky, general) returns x with A x = b. "
     "A singular, non-triangular, non-symmetric or wrongly sized input is reported (errno set, NaN result) rather than answered.",
     ["inputs"], "all matrices of the stated kind, including those with zero pivots and permuted rows",
     "tests use random well conditioned matrices, where no pivot is ever exactly zero and a residual tolerance hides wrong branches",
     ["src/algebra/algebra.h", "src/algebra/mat.h"],
     [("decompose_lu, decompose_cholesky", "src/algebra/algebra.h"), ("solve*, inverse, det", "src/algebra/algebra.h")])

prop("C08", "Dual numbers carry the exact first derivative through every operation",
     "For every operation and function of dual numbers, applied to f(t) with derivative f'(t), the result's real part is the real "
     "function of the real parts and its dual part is the exact derivative by the chain rule; in-place operators agree with the returning ones. "
     "Outside the domain of a function (division by zero, asin/acos beyond 1, ln of non-positive values) NaN is returned and errno is set.",
     ["inputs"], "all real and dual parts in (and outside) the domain of each function",
     "tests compare a few functions at sample points with dual part 1, where product and chain rule terms coincide",
     ["src/autodiff/dual.h", "src/autodiff/dual_functions.h"],
     [("dual operators", "src/autodiff/dual.h"), ("dual functions", "src/autodiff/dual_functions.h")])

prop("C09", "Second order dual numbers carry exact first and second derivatives",
     "For every operation and function of second order dual numbers the result holds the value, the exact first derivative and the exact second "
     "derivative (chain and product rule to second order); derivative, second derivative and Laplacian operators built on them are exact. "
     "Outside the domain NaN is returned and errno is set.",
     ["inputs"], "all value, first and second order parts in (and outside) the domain of each function",
     "tests evaluate first-order seeds only, where the second order terms of inputs are zero",
     ["src/autodiff/dual2.h", "src/autodiff/dual2_functions.h", "src/autodiff/autodiff.h"],
     [("dual2 operators", "src/autodiff/dual2.h"), ("dual2 functions", "src/autodiff/dual2_functions.h")])

prop("C10", "Multiduals and the differential operators compute exact derivatives",
     "For every operation and function of multidual numbers the dual vector is the exact gradient by the chain rule, for fixed and dynamic sizes. "
     "The derivative, gradient, directional derivative, divergence, curl, Jacobian and Sturm-Liouville operators return the exact derivatives of the "
     "given function at the given point.",
     ["inputs", "configurations"], "all real parts and dual vectors; fixed and dynamic vector sizes",
     "tests use a few smooth functions at sample points; seeds are unit vectors, so mixed terms and error paths are never visible",
     ["src/autodiff/multidual.h", "src/autodiff/multidual_functions.h", "src/autodiff/autodiff.h"],
     [("multidual operators", "src/autodiff/multidual.h"), ("differential operators", "src/autodiff/autodiff.h")])

prop("C05", "Geometric transformations do what their names say",
     "Rotation matrices (about any axis, the coordinate axes, in the plane) are orthogonal with determinant one and rotate every vector by the "
     "Rodrigues formula; translation, perspective, orthographic and look-at matrices map the view volume, camera and target where projective geometry "
     "says, for fixed and dynamic matrix types of any sufficient size. Undersized matrices or axes are reported (errno set, NaN).",
     ["inputs", "configurations"], "all angles, axes, volumes and matrix sizes",
     "no existing test covers this header; wrong signs and out-of-bounds writes only show for particular axes and sizes",
     ["src/algebra/transform.h"], [("rotation_3d*, translation, perspective, ortho, look_at", "src/algebra/transform.h")])

prop("C06", "Complex arithmetic and functions satisfy their defining identities",
     "Complex sums, products, quotients, conjugate, modulus and inverse satisfy the field definitions for every pair of operands in "
     "returning, in-place and mixed real forms. Functions of a complex variable (square root, exponential, logarithm, trigonometric and "
     "inverse functions) equal their definition on the principal branch, and division by zero is reported.",
     ["inputs"], "all real and imaginary parts, including zero and negative real parts (branch cut)",
     "tests compare a few functions at sample points away from axes and branch cuts",
     ["src/complex/complex.h", "src/complex/complex_analysis.h"],
     [("complex operators", "src/complex/complex.h"), ("complex functions", "src/complex/complex_analysis.h")])

prop("C07", "Quaternions rotate correctly; phasors equal the complex numbers they stand for",
     "Quaternion products, conjugates, norms and inverses satisfy the Hamilton algebra, and rotating a point by an angle about an axis equals the "
     "Rodrigues rotation. Every phasor operation equals the same operation on the complex number it represents, in returning and in-place form.",
     ["inputs"], "all component values, axes, angles and phases",
     "no test covers phasors and only sample products cover quaternions",
     ["src/complex/quat.h", "src/complex/phasor.h"], [("quat", "src/complex/quat.h"), ("phasor", "src/complex/phasor.h")])

prop("C11", "Polynomials form a ring: evaluation, arithmetic, division, calculus agree",
     "Evaluation equals the sum of coefficient times power; sum, difference, product, scalar operations, construction from roots, "
     "derivative, integral and Taylor expansion have exactly the coefficients of the algebraic definition, for operands of different (and zero) length. "
     "Long division leaves a remainder of lower degree than the divisor, trailing null coefficients change no result, "
     "quadratic roots satisfy Vieta's relations, and division by the zero polynomial is reported.",
     ["inputs", "configurations"], "all coefficient values and lengths, empty and null polynomials included",
     "the polynomial test file is empty; length mismatches and null leading coefficients break silently",
     ["src/polynomial/polynomial.h", "src/calculus/deriv.h", "src/calculus/integral.h", "src/calculus/taylor.h"],
     [("polynomial operators", "src/polynomial/polynomial.h"), ("deriv, integral of polynomials", "src/calculus/deriv.h")])

prop("C12", "Integer functions are exact over the whole range of their type",
     "Integer square and cube root, binary logarithm, padding to a power of two, factorials, double factorials, binomial coefficients, falling and "
     "rising factorials, integer powers, bit rotation, bit reversal and the 128-bit product return the exact mathematical "
     "value for every argument whose result is representable. No argument up to the largest value of the type causes a wrap-around, an endless loop or an "
     "out-of-bounds access.",
     ["inputs", "configurations"], "all values of 8 to 64-bit unsigned arguments; all vectors for the bit reversal",
     "tests sample small values; the errors are at the largest integers, at powers of two and at shift amounts of zero",
     ["src/core/real_analysis.h", "src/core/bit_op.h"],
     [("isqrt, icbrt, ilog2, pad2, fact, binomial_coeff", "src/core/real_analysis.h"), ("mul_uint128, bit_rotate, swap_bit_reverse", "src/core/bit_op.h")])

prop("C14", "Dataset reductions and maps equal their definition at every size",
     "Sums (plain, pairwise, compensated), products, sums of squares, of products and of quotients, means (arithmetic, weighted, geometric, harmonic, root mean "
     "square), extremes and concatenation of a dataset have the value of their definition for std::vector, fixed and dynamic vectors of every size, "
     "and elementwise functions and maps apply to each element exactly once. Empty or mismatched datasets are reported, and no element outside of the data is read.",
     ["inputs", "configurations"], "all data values and sizes, the empty dataset included",
     "tests sample one size per function; off-by-one ranges, block boundaries of the pairwise sum and first-element handling need particular sizes",
     ["src/core/dataset.h", "src/core/real_analysis.h"], [("dataset reductions", "src/core/dataset.h")])

prop("C15", "Statistics equal their textbook definition over the whole dataset",
     "Mean, variance, standard deviation, covariance, correlation, autocorrelation, absolute deviation, skewness, kurtosis, "
     "ranges, Chi-squared, scores, covariance matrices and propagated errors equal their definition, with the stated degrees of freedom, for every dataset. "
     "Datasets too small or of different sizes are reported (errno, NaN).",
     ["inputs", "configurations"], "all data values and sizes; std::vector, fixed and dynamic vectors",
     "tests compare against a single dataset, where N and N-1 or wrong centring can hide in the tolerance",
     ["src/statistics/statistics.h", "src/statistics/errorprop.h"],
     [("statistics", "src/statistics/statistics.h"), ("covar_mat, propagation", "src/statistics/errorprop.h")])

prop("C16", "Linear regressions satisfy their normal equations and error formulas",
     "Ordinary, weighted, Deming and through-origin regressions return the parameters that minimize their (weighted) sum of squares, "
     "with the textbook standard errors, covariance, residual error and Chi-squared, for every dataset where they exist. "
     "linear_model reports the same quantities for each kind of given uncertainty, and wrong sizes or degenerate data are reported.",
     ["inputs", "configurations"], "all data and uncertainty values; all numbers of points",
     "tests fit one dataset with loose tolerances; no test covers the through-origin, Deming or per-point uncertainty forms",
     ["src/statistics/regression.h"], [("ols, wls, deming, linear_model", "src/statistics/regression.h")])

prop("C17", "Histograms count every inserted value once, in the bin that contains it",
     "After any sequence of insertions each value inside the range is counted in exactly the bin whose interval contains it, values outside are "
     "not counted, and the number of points, mean, variance, minimum and maximum are those of the counted values. Construction from data spans exactly the data, and no "
     "value (including NaN, infinities and the extremes) causes an access outside of the bins.",
     ["inputs", "histories"], "all double values and all insertion sequences; all ranges and numbers of bins",
     "boundary values, rounding at the extremes and NaN are not sampled; running statistics depend on the whole history",
     ["src/statistics/histogram.h"], [("histogram::insert, index, constructors", "src/statistics/histogram.h")])

prop("C13", "Rounding, absolute value, sign, extremes and clamping hold for every double",
     "floor(x) is the largest integer not above x and fract(x) the rest in [0, 1); abs, sgn, heaviside, max, min and clamp return the value of their definition "
     "for every double in the stated domain, with negative numbers, integers, zeros and infinities. Squares and cubes equal the product of the factors.",
     ["inputs"], "all doubles, bit-precise, and all integers",
     "tests compare a few values; the errors are at negative integers, signed zeros and limits of the range",
     ["src/core/real_analysis.h"], [("floor, fract, abs, sgn, max, min, clamp", "src/core/real_analysis.h")],
     note="bit-precise binary64 and integer contracts for every input, no bound")

prop("C24", "Elementary and special functions satisfy their identities on their domain",
     "Square and cubic roots, n-th roots, logarithms, exponentials, powers, trigonometric, inverse and hyperbolic functions equal the mathematical function up to a "
     "stated tolerance or satisfy its defining identities, with the right branch, sign and symmetry, over their whole domain; Gamma, half Gamma and Beta satisfy "
     "their recurrence and values. Arguments outside of the domain are reported (errno, NaN), special values saturate and named constants have the value of their definition.",
     ["inputs", "configurations"], "all real arguments of each function; x86 and portable implementations",
     "tests sample intervals with random points; branches for big or tiny arguments, range reduction and quadrants are not reached",
     ["src/core/real_analysis.h", "src/core/special.h", "src/core/constants.h"],
     [("elementary functions", "src/core/real_analysis.h"), ("gamma, lngamma, beta", "src/core/special.h")])

prop("C18", "Root finders and minimizers follow their method, never report a false result",
     "Every root finder and minimizer returns a point which satisfies its stopping rule (bracket containing a sign change or an extremum no wider than the "
     "tolerance, residual or step below it) and whose iterates are those of the named method; linear, quadratic and known functions give the exact "
     "result. When the interval does not bracket, or the iterations run out, the result is NaN and errno is set, and finding all roots or extrema of an interval reports each once.",
     ["inputs"], "all functions (uninterpreted), intervals, starting points and tolerances",
     "tests use a few smooth functions which converge at once; exact hits, ignored tolerances, exhausted iterations and empty brackets are not reached",
     ["src/optimization/roots.h", "src/optimization/extrema.h", "src/optimization/multi_roots.h", "src/optimization/multi_extrema.h"],
     [("root_bisect, root_itp, root_newton, ... roots", "src/optimization/roots.h"), ("minimize_goldensection, ...", "src/optimization/extrema.h"),
      ("multiroot_newton", "src/optimization/multi_roots.h"), ("multi_minimize_grad, lingrad", "src/optimization/multi_extrema.h")])

prop("C19", "Quadrature and differentiation rules have their nodes, weights and exactness",
     "The midpoint, trapezoid, Simpson, Romberg and Gaussian quadratures and the finite difference derivatives evaluate the function at the nodes of the rule "
     "with its weights, for any function and number of steps, and are exact for polynomials up to their degree. Impossible requests (no steps, mismatched nodes, "
     "non-convergence) give NaN and an error.",
     ["inputs"], "all functions (uninterpreted) and polynomials with arbitrary coefficients, intervals and steps",
     "tests integrate a few smooth functions with many steps, where a wrong end weight or node is below the tolerance",
     ["src/calculus/integral.h", "src/calculus/gauss.h", "src/calculus/deriv.h"],
     [("integral_*", "src/calculus/integral.h"), ("Gauss tables", "src/calculus/gauss.h"), ("deriv_*", "src/calculus/deriv.h")])

prop("C20", "ODE steps follow their method at its order; solvers cover the whole interval",
     "Each single and multi-step method advances the state by the formula of the named method, for any right hand side, and agrees with the Taylor series of the exact "
     "solution up to its order. A solver starts from the given state at t0, takes steps of the given size, ends exactly at the final time with one state for each time, and "
     "reports an impossible step or interval.",
     ["inputs", "histories"], "all right hand sides (uninterpreted), states, times and step sizes; scalar, fixed and dynamic state vectors",
     "tests compare two methods with loose tolerances on one problem, where a wrong coefficient still converges",
     ["src/calculus/ode.h"], [("step_*, solve_*", "src/calculus/ode.h")])

prop("C21", "Interpolation passes through its data: splines, polynomials, Bezier, lerp",
     "Linear, spherical and smooth interpolation, Bezier curves, natural cubic splines and interpolating polynomials satisfy their defining "
     "conditions for any data: values at the points, continuity of the spline's first and second derivative with null curvature at the extremes, Bernstein form, degree and nodes. "
     "Data which cannot be interpolated (equal abscissas, too few points, parameters out of range) give NaN and an error.",
     ["inputs"], "all data points, equidistant or not, parameters and functions",
     "the existing tests do not cover interpolation beyond a few evaluations; errors for non-equidistant points and out of bounds writes went unnoticed",
     ["src/interpolation/splines.h", "src/interpolation/polynomial.h"],
     [("lerp, bezier, cubic_splines, spline", "src/interpolation/splines.h"), ("lagrange_polynomial, chebyshev_nodes", "src/interpolation/polynomial.h")])

prop("C22", "Random numbers follow their generator, lie in range and sample the right law",
     "Every generator produces the sequence of its recurrence from its seed (same seed, same sequence; discarding n equals drawing n) and a seed never locks it in a degenerate state. "
     "Uniform numbers lie in the stated range, shuffling gives a permutation, and every sampler returns the inverse of the distribution function, the transform or the accepted "
     "point its method prescribes; Metropolis and Monte Carlo estimates follow their acceptance rule and average.",
     ["inputs", "histories"], "all seeds, states, generator outputs (uninterpreted) and parameters",
     "tests are statistical with loose tolerances; wrong ranges, rare degenerate draws and sequences are not seen",
     ["src/pseudorandom/prng.h", "src/pseudorandom/pseudorandom.h", "src/pseudorandom/sampling.h", 
      "src/pseudorandom/montecarlo.h", "src/pseudorandom/quasirandom.h"],
     [("generators", "src/pseudorandom/pseudorandom.h"), ("PRNG", "src/pseudorandom/prng.h"), ("rand_*", "src/pseudorandom/sampling.h"),
      ("metropolis", "src/pseudorandom/sampling.h"), ("integral_crude, hom, quasi", "src/pseudorandom/montecarlo.h")])

prop("C23", "The FFT is the discrete Fourier transform; its inverse undoes it",
     "For every input whose size is a power of two the transform equals the definition of the discrete Fourier transform (sign, order and scale), it is linear, and the inverse transform "
     "of the transform is the input. Other sizes are reported as an error and the index permutations are involutions.",
     ["inputs"], "all complex and real vectors, size by size",
     "tests compare a few random vectors; sign and ordering conventions and sizes which are not powers of two are not checked",
     ["src/signal/fft.h", "src/core/bit_op.h"], [("fft, ifft", "src/signal/fft.h"), ("swap_bit_reverse", "src/core/bit_op.h")])

prop("C25", "Norms and distances equal their definition and satisfy the metric axioms",
     "Every norm and distance equals its definition for real and complex vectors of fixed and dynamic size; distances are symmetric, not negative, null exactly when the "
     "definition says so and never undefined on components where it is not. Vectors of different sizes are reported as an error.",
     ["inputs"], "all vectors with real or complex elements, size by size",
     "tests evaluate a few vectors; null components, complex conjugation and mismatched sizes are not covered",
     ["src/algebra/distance.h"], [("norms and distances", "src/algebra/distance.h")])

prop("C26", "Orthogonal polynomials and Gauss nodes and weights satisfy their definition",
     "Legendre, associated Legendre, Laguerre, generalised Laguerre, Hermite and Chebyshev polynomials have the coefficients of their closed form at every degree, their recurrence step holds for any "
     "index and any two polynomials, and the normalisation constants normalise them. Computed Gauss-Legendre nodes are all the roots, distinct and ordered, and the weights make the rule "
     "exact up to degree 2n - 1.",
     ["inputs"], "all degrees (degree by degree), orders, parameters and arguments",
     "tests check the first degrees or a few evaluations; negative orders, high degrees and repeated roots are not reached",
     ["src/polynomial/orthogonal.h"], [("*_polynomial, *_recurr, *_weights, legendre_roots", "src/polynomial/orthogonal.h")])

prop("C27", "Probability distributions equal their density or mass function",
     "Every distribution returns its density (or probability) for all arguments and parameters of its domain, is null outside of its support, "
     "and likelihoods are products (sums of logarithms) over the sample. The parameter vector form equals the plain one and a wrong number of parameters gives NaN and an error.",
     ["inputs"], "all arguments and parameters; integer parameters value by value",
     "tests evaluate single points; supports, the constant factors and integer overflow for bigger counts are not reached",
     ["src/statistics/distributions.h"], [("distribution::*, stats::likelihood", "src/statistics/distributions.h")])

prop("C04", "Errors are always signalled: NaN and errno, or an exception, as configured",
     "An invalid call returns NaN and sets errno to the code of its error (EDOM, ERANGE, EINVAL), and a valid call leaves errno as it was. With exceptions enabled the same calls throw a "
     "math_exception, which can be caught as std::exception, carries code, function, position and value, and destroys every object alive; in the exceptions-only configuration errno is not touched.",
     ["inputs", "configurations"], "all invalid arguments; the three error configurations",
     "tests run in one configuration and check few error paths; a missing report gives a plausible number",
     ["src/core/error.h"], [("TH_MATH_ERROR, math_exception, th_errcode_to_errno", "src/core/error.h"), ("error paths", "src/core/real_analysis.h")])

prop("C28", "Element-wise evaluation maps every element; ratios follow fraction arithmetic",
     "Every function of the parallel namespace returns, for dynamic, fixed and standard vectors, a vector of the same size whose i-th element is the function of the i-th element and nothing else, "
     "with errors of single elements confined to them. Sums, differences, products and quotients of ratios equal those of the fractions they represent.",
     ["inputs"], "all vectors (size by size), functions and ratios of real, integer and polynomial terms",
     "tests do not cover them; a wrong function or index in one of many similar definitions goes unnoticed",
     ["src/algebra/parallel.h", "src/core/ratio.h"], [("parallel::*", "src/algebra/parallel.h"), ("ratio", "src/core/ratio.h")])
