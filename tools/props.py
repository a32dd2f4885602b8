"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("P01", "Memory layout of arrays never changes a result",
  "Every function of the package gives the same values for the same logical input, whatever the memory layout of the arrays is: positive, negative or zero strides, Fortran order, misaligned or byte-swapped data, read-only views, operands that are the same array or views that overlap, and any strides of a given `out` array.",
  ["inputs", "configurations"], "all functions x all type loops x all layouts of every operand x core lengths",
  "Tests use contiguous arrays and a handful of slices; most functions have separate contiguous and strided code, or raw byte-stride arithmetic, that a test on one layout does not reach.",
  ["src/util/strided.hpp", "src/abssq/abssq_ufunc.cpp", "src/vnorm/vnorm_gufunc.h", "src/bincount/bincount_gufunc.h", "src/means/means_gufunc.c.src", "src/sosfilter/sosfilter_gufunc.h", "src/one_hot/one_hot_gufunc.h", "tools/cxxgen/gufuncgen.py"],
  [("get/set with byte strides", "src/util/strided.hpp"), ("contiguous fast paths", "abssq, vdot, rms, bincount, one_hot, multivariate_logbeta, sosfilter")],
  ["return values of the public functions"])

p("P02", "Broadcasting, axis and out agree with one call per core problem",
  "For every function, a call on arrays with any number of broadcast dimensions, with `axis`/`axes`, `keepdims` or `out` given, equals stacking the results of separate calls on each core slice: no core problem influences another, and shapes and dtypes follow the signature, also when a broadcast dimension is zero.",
  ["inputs", "configurations"], "all functions x batch shapes x axis choices x out",
  "Tests call a few functions with a few fixed shapes; state leaking from one loop iteration to the next, or a wrong outer stride, shows only for particular shape combinations.",
  ["tools/cxxgen/gufuncgen.py", "tools/cxxgen/generate_ufunc_extmod.py", "src/util/ufunc_tools.h", "src/gendot/gendotmodule.c", "src/linear_interp1d/linear_interp1d_gufunc.c.src", "ufunclab/_wrapped.py"],
  [("generated outer loops", "tools/cxxgen/gufuncgen.py"), ("zero-stride fast path", "src/linear_interp1d/linear_interp1d_gufunc.c.src")],
  ["return values of the public functions"])

p("P03", "Calls have no side effects and define every output element",
  "No call changes an input array that is not also given as `out`, nothing outside the `out` array is written, and every output element is determined by the inputs alone (repeating a call, or starting from a different `out` content, gives the same result; `bincount` adds to `out` instead, as documented). Giving an input array as `out`, where shapes and dtypes allow it, gives the same result as an out-of-place call.",
  ["inputs", "histories"], "all functions x inputs x previous contents of out x aliasing of an input with out",
  "Tests look only at returned values of fresh outputs.",
  ["tools/cxxgen/gufuncgen.py", "src/mad/mad_gufunc.h", "src/fillnan1d/fillnan1d_gufunc.h", "src/sosfilter/sosfilter_gufunc.h", "src/percentileofscore/percentileofscore_gufunc.h", "src/nan_to_num/nan_to_num.h", "ufunclab/_wrapped.py"],
  [("copies before sorting", "src/mad/mad_gufunc.h"), ("core functions write all of out", "src/*/*_gufunc.h")],
  ["input arrays, out arrays and their surroundings after each call"])

p("P04", "No input crashes the process or touches memory out of bounds",
  "Whatever values the arrays hold (nan, infinities, extreme integers, out-of-range indices, comparison codes and counts, unsorted data), whatever the array lengths (including 0 and 1) and whatever the layout, a call returns or raises a Python exception: it never reads or writes outside the arrays it was given, and never kills the process. (`sosfilter_ic_contig` is only covered for C-contiguous arrays.)",
  ["inputs"], "all functions x all type loops x arbitrary values, lengths including zero, and layouts",
  "An out-of-bounds read usually does not change a tested result, and tests avoid the inputs that crash.",
  ["src/bincount/bincount_gufunc.h", "src/convert_to_base/convert_to_base_gufunc.h", "src/linear_interp1d/linear_interp1d_gufunc.c.src", "src/tri_area/tri_area_gufunc.h", "src/mad/mad_gufunc.h", "src/gendot/gendotmodule.c", "src/searchsorted/searchsorted_gufunc.c.src", "src/logfactorial/logfactorial.c"],
  [("index validation", "src/tri_area/tri_area_gufunc.h, src/bincount/bincount_gufunc.h"), ("core dimension checks", "nonzero_coredims / process_core_dims_func in src/*/define_cxx_gufunc_extmod.py")],
  ["AddressSanitizer reports and exit status of the process"])

p("P05", "Object arrays follow Python semantics, errors and reference counts",
  "For object arrays, `first`, `argfirst`, `argmin`, `argmax`, `minmax`, `argminmax`, `min_argmin`, `max_argmax`, `searchsortedl`, `searchsortedr`, `ordered`, `peaktopeak`, `all_same`, `cross2` and `cross3` compute what the elements' own Python operators give. An exception raised by an element's operator reaches the caller, and no reference is leaked or lost, whether the call succeeds or fails.",
  ["inputs", "fault_sequences"], "object arrays of ints, Fractions, strings and instrumented objects x the comparison at which an operator raises",
  "Tests use a few object arrays whose operators never fail, and never look at reference counts.",
  ["src/first/first_gufunc.h", "src/minmax/minmax_gufunc.h", "src/searchsorted/searchsorted_gufunc.c.src", "src/ordered/ordered_gufunc.h", "src/peaktopeak/peaktopeak_gufunc.c.src", "src/all_same/all_same_gufunc.h", "src/cross/cross_gufunc.h"],
  [("PyObject_RichCompareBool results checked; Py_INCREF/Py_DECREF pairs", "the object loops in src/*")],
  ["return values, exceptions, sys.getrefcount of the elements"])

p("P06", "Every type loop computes the same function to its own precision",
  "A function's type loops agree with each other: an integer loop equals the exact integer result, and the float32, float64 and longdouble loops give the same value up to the rounding error of their own type, for inputs that all of the types represent. The result dtype is the one the type signature names, and operands of any types that some loop holds run the smallest such loop: float32 operands do not run the float64 loop, longdouble operands are not refused.",
  ["inputs"], "all functions with more than one type loop x values representable in each",
  "Tests check mostly float64, with one tolerance; a loop that computes in a narrower type, or a copy of the code for one type that differs, is not noticed.",
  ["tools/cxxgen/generate_concrete_cfuncs.py", "tools/cxxgen/gufuncgen.py", "src/means/means_gufunc.c.src", "src/searchsorted/searchsorted_gufunc.c.src", "src/normal/erfcx_funcs.cxx", "src/corr/corr_gufunc.h"],
  [("templates instantiated per type", "tools/cxxgen, tools/conv_template.py")],
  ["return values and dtypes"])

p("P07", "Log-gamma functions are accurate over their whole domain",
  "`logfactorial(n)` is log(n!) for every nonnegative integer and nan for negative ones; `loggamma1p(x)` is log(gamma(1 + x)) for x > -1 without cancellation near x = 0; `multivariate_logbeta(x)` is sum(lgamma(x_i)) - lgamma(sum(x_i)) for positive x. Each is correct to a few units of rounding error (of the largest term, for the last one).",
  ["inputs"], "all int32/int64 n; all representable x > -1; all positive vectors of any length",
  "Tests sample some dozens of points; tables, rational approximations and asymptotic branches each cover their own range of inputs.",
  ["src/logfactorial/logfactorial.c", "src/loggamma1p/loggamma1p.c", "src/loggamma1p/loggamma1p_ufunc.c", "src/multivariate_logbeta/multivariate_logbeta_gufunc.h"],
  [("table up to 125 and asymptotic series", "src/logfactorial/logfactorial.c"), ("Pade approximations near 0", "src/loggamma1p/loggamma1p.c")],
  ["return values"])

p("P08", "expint1 and logexpint1 are accurate for all positive x",
  "`expint1(x)` is E1(x) and `logexpint1(x)` is log(E1(x)), to a few units of relative rounding error (relative to max(1, |log E1|) for the logarithm), for all x > 0 of float32 and float64 (longdouble is at least as accurate as float64), including tiny x and x for which E1 underflows. At 0 the value is inf, at inf it is 0 (-inf for the log), and for negative x it is nan.",
  ["inputs"], "all x of float32, float64 and longdouble",
  "Tests sample about a dozen points; series, continued fraction and asymptotic formula each cover a range of x.",
  ["src/expint1/expint1.h", "src/expint1/define_cxxgen_extmods.py"],
  [("series for x <= 1, continued fraction above", "src/expint1/expint1.h")], ["return values"])

p("P09", "debye1 is accurate for all real x",
  "`debye1(x)` is the Debye function D1(x) to a few units of relative rounding error for every finite x, negative x included (D1(-x) = D1(x) + x/2), in float32 and float64.",
  ["inputs"], "all float32 and float64 x",
  "The function is evaluated from over a hundred generated polynomial and rational pieces; tests touch some of them at one point each.",
  ["src/debye1/debye1_generated.c", "src/debye1/generate_debye1_c.py", "src/debye1/debye1_ufunc.c"],
  [("piecewise approximations selected by an interval index", "src/debye1/debye1_generated.c")], ["return values"])

p("P10", "Complex log1p keeps full relative precision near its zeros",
  "`log1p_doubledouble(z)` is log(1 + z) for finite complex z with componentwise relative error of a few rounding units, also where |1 + z| is close to 1; `log1p_theorem4(z)` is log(1 + z) to a few rounding units relative to |log(1 + z)|. Conjugate inputs give conjugate outputs.",
  ["inputs"], "all finite complex64 and complex128 z, in particular near the circle |1+z|=1, near 0, near -1 and at extreme magnitudes",
  "Tests use around 20 points, and the failures are confined to a thin set around the circle.",
  ["src/log1p/log1p_ufunc.c"], [("double-double sum of x*(2+x)+y*y", "src/log1p/log1p_ufunc.c"), ("Goldberg's theorem 4", "src/log1p/log1p_ufunc.c")], ["return values"])

p("P11", "Algebraic element-wise functions are accurate: pow1pm1, hypot3, abs squares",
  "`pow1pm1(x, y)` is (1 + x)**y - 1 for x >= -1 without cancellation; `hypot3(x, y, z)` is sqrt(x*x + y*y + z*z) without spurious overflow or underflow, is symmetric in its arguments and signs, and is inf when any argument is infinite; `abs_squared` and `abssq` are |z|**2 (the rounded x*x for real x) and agree with each other.",
  ["inputs"], "all representable arguments of each floating point or complex type",
  "Tests sample a few points; loss of precision and overflow happen only for particular magnitudes.",
  ["src/pow1pm1/pow1pm1.h", "src/hypot3/hypot3.h", "src/abs_squared/abs_squared.h", "src/abssq/abssq_ufunc.cpp"],
  [("expm1(y*log1p(x))", "src/pow1pm1/pow1pm1.h"), ("scaling or library hypot", "src/hypot3/hypot3.h")], ["return values"])

p("P12", "erfcx and the normal distribution are accurate in both tails",
  "`erfcx(x)` is exp(x**2)*erfc(x), `normal.cdf/sf` are the standard normal distribution function and its complement, and `normal.logcdf/logsf` are their logarithms, with relative error of a few rounding units (growing at most with the condition number x**2 of the tail) for all x, including deep tails where cdf underflows; sf(x) = cdf(-x) and logsf(x) = logcdf(-x).",
  ["inputs"], "all x of float32, float64 and longdouble",
  "The function is evaluated from about 100 Chebyshev pieces per type; tests touch a few of them.",
  ["src/normal/erfcx_funcs.cxx", "src/normal/normal.h", "src/normal/generate_erfcx_code.py", "src/normal/define_cxxgen_extmods.py"],
  [("Chebyshev pieces", "src/normal/erfcx_funcs.cxx"), ("log of the tail from erfcx", "src/normal/normal.h")], ["return values"])

p("P13", "Logistic functions and smooth ramps are accurate and never overflow",
  "`logistic`, `logistic_deriv`, `log_logistic`, `swish(x, beta)`, `hyperbolic_ramp(x, a)` and `exponential_ramp(x, a)` equal their documented formulas, within a small multiple of the conditioning of the formula, for all finite arguments: no intermediate overflow gives nan or inf where the true value is an ordinary number, and a result is flushed to 0 only where the logistic or exponential factor itself underflows. The limits at infinite x hold.",
  ["inputs"], "all finite x (and beta, a > 0) of each floating point type, plus infinite x",
  "Tests sample a few points of moderate size.",
  ["src/logistic/logistic.h", "src/ramp/ramp.h"],
  [("branches on the sign and size of x", "src/logistic/logistic.h, src/ramp/ramp.h")], ["return values"])

p("P14", "Yeo-Johnson is accurate, and its inverse is an inverse",
  "`yeo_johnson(x, lambda)` equals the Yeo-Johnson transformation for all x and lambda, including lambda at or near 0 and 2, to the conditioning of the formula; it is increasing in x, and `inv_yeo_johnson` equals the mathematical inverse wherever it exists, so that a round trip gives back x (where neither (1 + |x|)**lambda nor lambda*x overflows).",
  ["inputs"], "all x, lambda of each floating point type whose results are in range",
  "Tests sample some points; precision is lost only for lambda near 0 or 2 or for tiny x.",
  ["src/yeo_johnson/yeo_johnson.h"], [("log1p/expm1 formulation", "src/yeo_johnson/yeo_johnson.h")], ["return values"])

p("P15", "Step, smoothstep, deadzone and trapezoid match their piecewise definitions",
  "`step`, `linearstep`, `smoothstep3`, `smoothstep5`, `deadzone` and `trapezoid_pulse` equal their documented piecewise definitions: exact in the constant pieces and at the break points, equal to the linear, cubic or quintic polynomial (to rounding) in between, and never outside the range of the end values by more than rounding. `invsmoothstep3(y, a, b, fa, fb)` gives the x in [a, b] with smoothstep3(x, a, b, fa, fb) = y for y between fa and fb.",
  ["inputs"], "all finite arguments with a < b (or a <= b <= c <= d), rising and falling steps, x on, next to and far from the break points",
  "Tests sample one or two parameter sets; break points, falling steps and next-to-break-point values are where implementations differ.",
  ["src/step/step.h", "src/deadzone/deadzone.h", "src/trapezoid_pulse/trapezoid_pulse.h"],
  [("piecewise branches", "src/step/step.h")], ["return values"])

p("P16", "Semivariogram models match their definitions",
  "`semivar.exponential`, `linear`, `spherical` and `parabolic` (h, nugget, sill, rng) equal the documented variogram formulas for all h >= 0: the nugget (for h > 0), the sill for h beyond the range (exactly, for the bounded models), continuous and non-decreasing in h between them when sill >= nugget.",
  ["inputs"], "all h >= 0, nugget, sill >= nugget and rng > 0 of each floating point type",
  "Tests check one set of parameters at a handful of h.",
  ["src/semivar/semivar.h", "src/semivar/define_cxxgen_extmods.py"], [("formulas", "src/semivar/semivar.h")], ["return values"])

p("P17", "Floating point neighbours, nan tests and nan replacement are bit-exact",
  "`next_less` and `next_greater` give the adjacent representable value below or above x (infinities and nan as in nextafter), `nextn_less(x, n)` and `nextn_greater(x, n)` are n successive applications of them; `issnan` is True exactly for signaling nan bit patterns; `nan_to_num(x, r)` replaces exactly the nans and keeps every other bit pattern.",
  ["inputs"], "every bit pattern of float16/32/64 and every longdouble; any n",
  "Tests check a few values; the exceptional patterns (subnormals, zeros of both signs, powers of two, extremes) are sparse.",
  ["src/next/next.h", "src/nextn/nextn_gufunc.h", "src/issnan/issnan_ufunc.c.src", "src/nan_to_num/nan_to_num.h", "ufunclab/_wrapped.py"],
  [("nextafter", "src/next/next.h"), ("bit masks per type", "src/issnan/issnan_ufunc.c.src")], ["bit patterns of the return values"])

p("P18", "first and argfirst find the first match, for every operator and type",
  "`argfirst(x, op, target)` is the smallest index i with `x[i] op target` and -1 if there is none; `first(x, op, target, otherwise)` is x at that index and `otherwise` if there is none; for all six operators of `ufunclab.op` and every supported dtype.",
  ["inputs"], "all arrays (nan, extreme integers, any length from 0) x operators x targets",
  "Each dtype and operator has its own code path; tests cover a few of the combinations.",
  ["src/first/first_gufunc.h", "src/first/define_cxx_gufunc_extmod.py"], [("one loop per operator", "src/first/first_gufunc.h")], ["return values"])

p("P19", "Minimum and maximum functions agree on values and first positions",
  "For nan-free arrays of every supported dtype, `argmin`/`argmax` give the first index of the smallest/largest element, `minmax`, `argminmax`, `min_argmin` and `max_argmax` give exactly the corresponding values and indices, and `peaktopeak` gives max - min without overflow, in the unsigned type of the same width for signed integers.",
  ["inputs"], "all nan-free arrays of length >= 1, with ties anywhere, extreme integers and infinities",
  "Ties, extreme values and lengths 1 and 2 per dtype are not covered by the sampled tests.",
  ["src/minmax/minmax_gufunc.h", "src/peaktopeak/peaktopeak_gufunc.c.src"], [("strict comparisons keep the first position", "src/minmax/minmax_gufunc.h"), ("unsigned subtraction", "src/peaktopeak/peaktopeak_gufunc.c.src")], ["return values"])

p("P20", "searchsorted returns the leftmost and rightmost insertion points",
  "For sorted x, `searchsortedl(x, v)` is the number of elements less than v and `searchsortedr(x, v)` the number of elements not greater than v, as `numpy.searchsorted` with side left and right gives (nan sorts last), for every supported dtype including float16 and object, with full broadcasting of both arguments.",
  ["inputs"], "all sorted arrays of any length, repeated values, infinities, and keys below, between, equal to and above the elements; sequences of keys",
  "Binary searches fail at particular lengths, positions and ties; tests use a few arrays.",
  ["src/searchsorted/searchsorted_gufunc.c.src"], [("binary search per type", "src/searchsorted/searchsorted_gufunc.c.src")], ["return values"])

p("P21", "ordered and all_same decide adjacency predicates exactly",
  "`ordered(x, op)` is True exactly if every adjacent pair satisfies `x[i] op x[i+1]` for the given one of the six operators (True for fewer than two elements), and `all_same(x)` is True exactly if all elements are equal, for every supported dtype.",
  ["inputs"], "all arrays, any length from 0, a single violating pair at any position, nan included",
  "A violation at one particular position, dtype or operator is not sampled by the tests.",
  ["src/ordered/ordered_gufunc.h", "src/all_same/all_same_gufunc.h"], [("pairwise loop per operator", "src/ordered/ordered_gufunc.h")], ["return values"])

p("P22", "percentileofscore matches the SciPy definition for every kind",
  "For nan-free data, `percentileofscore(x, score, kind)` is 100/n times the count for that kind: elements below (STRICT), not above (WEAK), the average of the two (MEAN), or the average with the usual half correction when the score occurs (RANK), for every supported dtype and with `kind` broadcast like the other arguments; an undefined kind gives nan.",
  ["inputs"], "all nan-free arrays of length >= 1, ties with the score, all kinds",
  "Tests use one array; ties and dtype limits matter.",
  ["src/percentileofscore/percentileofscore_gufunc.h"], [("three counters", "src/percentileofscore/percentileofscore_gufunc.h")], ["return values"])

p("P23", "kbnsum is a compensated sum",
  "`kbnsum(x)` differs from the exact sum by at most about one rounding of the result plus n*eps**2*sum(|x|), independently of the order and of cancellation; infinities and nan give what the plain sum gives (inf - inf and nan give nan), and the empty sum is 0.",
  ["inputs"], "all finite vectors with arbitrary magnitudes and cancellation, plus vectors with infinities and nan at any position",
  "Tests check a few sums; lost compensation shows only for particular orders of magnitudes.",
  ["src/kbnsum/kbnsum_gufunc.h"], [("Neumaier compensation; separate handling of inf", "src/kbnsum/kbnsum_gufunc.h")], ["return values"])

p("P24", "Power means are accurate and consistent with each other",
  "`gmean`, `hmean`, `pmean` and their weighted forms equal the mathematical definitions for nonnegative x (and nonnegative weights, not all zero): pmean with p = 1, 0, -1, inf, -inf is the arithmetic, geometric and harmonic mean, the maximum and the minimum; unit weights equal no weights; a zero weight drops a positive finite element; means are homogeneous, non-decreasing in p and lie between min and max, as far as reciprocals, powers and ratios of the elements are representable (for |p| below 2e-6 to the accuracy of a first-order expansion in p). Negative x gives nan for pmean, whatever p is.",
  ["inputs"], "vectors of nonnegative values, weights and exponents p",
  "Tests check a few vectors; special cases of p, zeros in x and zero weights each have their own branch.",
  ["src/means/means_gufunc.c.src"], [("special values of p", "src/means/means_gufunc.c.src")], ["return values"])

p("P25", "meanvar and pearson_corr are accurate for all data",
  "`meanvar(x, ddof)` is the mean and the sum of squared deviations divided by n - ddof, to the backward error of a two-pass computation, for every integer and floating type (no integer overflow or cancellation); `pearson_corr(x, y)` is the correlation coefficient, symmetric, in [-1, 1], exactly 1 or -1 up to rounding for linear data, invariant under positive scaling and shifts, and nan for constant data.",
  ["inputs"], "vectors with large common offsets, extreme integers, any length (>= 2 for the correlation) and ddof",
  "Cancellation and overflow happen only for particular data; tests use small numbers.",
  ["src/meanvar/meanvar_gufunc.h", "src/corr/corr_gufunc.h"], [("update formulas", "src/meanvar/meanvar_gufunc.h")], ["return values"])

p("P26", "mad, rmad and gini equal their definitions in any element order",
  "`mad(x, unbiased)` is the mean of |x_i - x_j| over all n**2 pairs (or over the n*(n-1) pairs of distinct positions when unbiased), `gini` is mad/(2*mean) and `rmad` is twice gini; all are invariant under permutation of x, `mad` under shifts, `gini` and `rmad` under positive scaling.",
  ["inputs"], "all finite vectors (with a nonzero mean for gini and rmad), n >= 1 (>= 2 when unbiased)",
  "Tests check a few vectors; the O(n log n) formula must agree with the O(n**2) definition for every order and tie pattern.",
  ["src/mad/mad_gufunc.h"], [("sum over sorted copies", "src/mad/mad_gufunc.h")], ["return values"])

p("P27", "rms, vnorm and vdot equal their definitions",
  "`rms(x)` is sqrt(mean(|x|**2)), `vnorm(x, p)` is (sum |x_i|**p)**(1/p) for p >= 1 and max |x_i| for p = inf without avoidable overflow or underflow in vnorm, for real and complex x; `vdot(x, y)` is sum x_i*y_i, each to the rounding error of a straightforward summation. A nan in x gives nan and an infinite element gives an infinite norm.",
  ["inputs"], "all finite real and complex vectors, any length from 0, p in [1, inf]; vectors with nan or inf",
  "Special orders, complex types and strided data have separate code; tests cover a few.",
  ["src/vnorm/vnorm_gufunc.h"], [("scaling by the largest magnitude", "src/vnorm/vnorm_gufunc.h")], ["return values"])

p("P28", "wjaccard is the weighted Jaccard index",
  "`wjaccard(x, y)` is sum(min(x_i, y_i))/sum(max(x_i, y_i)) for nonnegative vectors of every supported dtype, symmetric, in [0, 1], equal to 1 exactly for equal nonzero vectors, 0 for disjoint supports, and does not overflow for integer types.",
  ["inputs"], "all nonnegative vectors, integer extremes included",
  "Tests use a few small vectors.", ["src/wjaccard/wjaccard_gufunc.h"], [("two running sums", "src/wjaccard/wjaccard_gufunc.h")], ["return values"])

p("P29", "Backlash and relay follow their state machines and can be resumed",
  "`backlash`, `backlash_sum` and `hysteresis_relay` equal step-by-step simulation of the documented hysteresis: the backlash output moves only when the input leaves a band of width deadband around it, the relay switches only when a threshold is crossed and otherwise holds. Splitting the input at any point and starting the second call from the final state of the first (the last output, or the returned final values) gives the same output as one call.",
  ["histories", "inputs"], "all input sequences, split points and parameters",
  "State errors need a particular history (reversals, values exactly on a band edge or threshold); tests run one or two signals.",
  ["src/backlash/backlash_gufunc.h", "src/hysteresis_relay/hysteresis_relay_gufunc.h"], [("state carried along the loop", "src/backlash/backlash_gufunc.h")], ["return values"])

p("P30", "SOS filters equal the difference equation and can be resumed",
  "`sosfilter(sos, x)` equals the cascade of second order sections in transposed direct form II with zero initial state; `sosfilter_ic` and `sosfilter_ic_contig` do the same from a given state and return the final state, so that filtering in any number of chunks with the state carried over equals filtering at once; the filter is linear in (x, zi) and the three functions agree.",
  ["histories", "inputs"], "all section counts (including 0), coefficient sets with a0 = 1, signals and chunkings",
  "Tests compare a few filters on one signal; state handling errors need chunked histories and several sections.",
  ["src/sosfilter/sosfilter_gufunc.h", "src/sosfilter/define_cxx_gufunc_extmod.py"], [("section state updated in place", "src/sosfilter/sosfilter_gufunc.h")], ["return values"])

p("P31", "unwrap and fillnan1d follow numpy.unwrap and linear interpolation",
  "For period > 0, `unwrap(x, period)` differs from x by multiples of the period, keeps x[0], and has no step larger than half a period, as `numpy.unwrap` gives (up to the choice at steps of exactly half a period), for any size of step; after the first non-finite element every output is nan. `fillnan1d(x)` keeps every non-nan value, fills interior runs of nan by linear interpolation between their neighbours and runs at the ends with the nearest value, and leaves all-nan input as it is.",
  ["inputs"], "all finite sequences and periods, all nan patterns, any length from 0",
  "Tests use a few sequences; runs at ends, adjacent runs, and very large steps are not covered.",
  ["src/unwrap/unwrap_gufunc.h", "src/fillnan1d/fillnan1d_gufunc.h"], [("incremental unwrapping", "src/unwrap/unwrap_gufunc.h")], ["return values"])

p("P32", "linear_interp1d equals linear interpolation on every code path",
  "For strictly increasing xp, `linear_interp1d(x, xp, fp)` equals `numpy.interp` inside [xp[0], xp[-1]] (exactly fp at the knots) and nan outside or for nan x, for every broadcasting arrangement, including those that take the precomputed-index fast path, and both paths agree up to rounding.",
  ["inputs", "configurations"], "all strictly increasing xp (any length from 1), fp, x at, between and outside the knots, and all broadcast shapes",
  "Which path runs depends on strides; tests check two arrangements.",
  ["src/linear_interp1d/linear_interp1d_gufunc.c.src"], [("index search; zero-stride fast path", "src/linear_interp1d/linear_interp1d_gufunc.c.src")], ["return values"])

p("P33", "softmax is a normalised exponential for any magnitudes",
  "`softmax(x)` equals exp(x_i)/sum_j exp(x_j) for all finite x without overflow: values in [0, 1] that sum to 1, in the order of x, invariant under shifts of x. A single inf gives 1 at its position and 0 elsewhere, several give all nan, -inf gives 0.",
  ["inputs"], "all vectors of length >= 1, finite with any magnitudes, with infinities and nan at any position",
  "Tests use three vectors.", ["src/softmax/softmax_gufunc.h"], [("subtraction of the maximum; inf handling", "src/softmax/softmax_gufunc.h")], ["return values"])

p("P34", "Cross products and triangle areas equal their geometric definitions",
  "`cross2` and `cross3` equal the exact 2-d and 3-d cross products for every supported dtype (antisymmetric, orthogonal to both arguments; infinities and nans follow IEEE arithmetic). `tri_area(p)` is the area of the triangle in any dimension n, to the rounding of its edge lengths, is never nan or negative for finite points (degenerate triangles give about 0), does not depend on the order of the vertices; `tri_area_indexed(p, i)` equals tri_area(p[i]), with negative indices counted from the end and out-of-range indices giving nan.",
  ["inputs"], "all vectors and point sets, degenerate triangles, index triples in and out of range",
  "Tests use a few triangles; degenerate ones and index limits are not covered.",
  ["src/cross/cross_gufunc.h", "src/tri_area/tri_area_gufunc.h"], [("area from edge lengths", "src/tri_area/tri_area_gufunc.h")], ["return values"])

p("P35", "bincount counts exactly and accumulates over any history of calls",
  "`bincount(x, m)` counts, along the axis, the occurrences of each value 0..m-1, ignoring negative values and values >= m, for every integer dtype; with weights it adds up the weights; m defaults to max(x) + 1. Repeated calls with the same `out` accumulate, so that any sequence of calls equals one call on the concatenated data.",
  ["histories", "inputs"], "sequences of calls with any integer arrays, m, weights dtypes, axes and out arrays",
  "Tests make single calls with small values; limits of the integer types, and accumulation in any layout, are not covered.",
  ["src/bincount/bincount_gufunc.h", "ufunclab/_wrapped.py"], [("range test before indexing", "src/bincount/bincount_gufunc.h"), ("out not initialised", "ufunclab/_wrapped.py")], ["return values and out arrays"])

p("P36", "convert_to_base and one_hot are exact for all integers",
  "`convert_to_base(k, base, ndigits)` gives the lowest ndigits digits of k, lowest first, each in [0, base), so that sum(d_i*base**i) equals k modulo base**ndigits for k >= 0 and base >= 1, for every integer type (base 0 raises ValueError); with a negative k or base the digits are smaller than |base| in magnitude, their sum is congruent to k modulo base**ndigits, and equal to k if |k| < |base|**ndigits; `one_hot(k, n)` is 1 at index k and 0 elsewhere, all zero if k is outside 0..n-1. Both follow broadcasting, `axis` and `out` like a gufunc with output core dimension n.",
  ["inputs"], "all integers of every dtype, bases, digit counts, axes and out arrays",
  "Tests use a few values.", ["src/convert_to_base/convert_to_base_gufunc.h", "src/one_hot/one_hot_gufunc.h", "ufunclab/_wrapped.py"],
  [("repeated division", "src/convert_to_base/convert_to_base_gufunc.h"), ("out shape computed by the wrapper", "ufunclab/_wrapped.py")], ["return values"])

p("P37", "gendot composes any two compatible ufuncs",
  "`gendot(prodfunc, sumfunc)` is a gufunc with signature (n),(n)->() whose result equals reducing prodfunc(x, y) with sumfunc (with its `reduce` for an element-wise sumfunc, by calling it for an (n)->() gufunc), in the dtype its type list names, for every pair of ufuncs where a sumfunc loop takes and returns the result type of a prodfunc loop (or is an (n)->() gufunc loop that takes it), every type loop, any shapes, and length 0 (the identity, or ValueError if there is none).",
  ["programs", "inputs"], "pairs of NumPy and ufunclab ufuncs x type loops x shapes",
  "Tests compose five pairs for one or two dtypes.",
  ["src/gendot/gendotmodule.c", "ufunclab/_gendot_wrap.py"], [("temporary buffer and inner loops called directly", "src/gendot/gendotmodule.c"), ("type matching", "ufunclab/_gendot_wrap.py")], ["return values, types attribute"])

p("P38", "The public namespace and ufunc_inspector are faithful in any order of use",
  "`dir(ufunclab)` lists every public function and submodule; every name in it can be imported and used in any order and from a fresh interpreter, repeated access gives the same object, `ufunclab.op` holds the codes that the functions use, unknown names raise AttributeError; and `ufunc_inspector(f)` prints the true name, nin, nout, signature, number of loops and loop types of any ufunc, in order, and for anything that is not a ufunc only says so, without an exception.",
  ["programs", "inputs"], "orders of access to the lazily loaded names; all NumPy and ufunclab ufuncs",
  "Tests import names in one fixed order and inspect one ufunc.",
  ["ufunclab/__init__.py", "src/ufunc-inspector/ufunc_inspector.c"], [("module __getattr__", "ufunclab/__init__.py")], ["attributes, standard output of ufunc_inspector"])

p("P39", "Invalid calls are rejected, never answered with garbage",
  "Core dimensions that a function cannot handle (an empty array for functions that need an element, fewer than two for pearson_corr, a wrong fixed dimension) raise ValueError; the wrapped functions raise ValueError (or TypeError) for a wrong dtype and ValueError for a non-integer or negative count or a wrong `out` shape, and AxisError (an IndexError and ValueError) for an axis that does not exist, and leave `out` unchanged; complex or otherwise unsupported dtypes raise TypeError.",
  ["inputs"], "all functions x invalid lengths, axes, counts, out shapes and dtypes",
  "Tests check a few of the error paths.",
  ["src/corr/corr_gufunc.h", "src/util/ufunc_tools.h", "tools/cxxgen/gufuncgen.py", "ufunclab/_wrapped.py"],
  [("nonzero_coredims and process_core_dims functions", "tools/cxxgen/gufuncgen.py"), ("argument checks", "ufunclab/_wrapped.py")], ["exceptions"])

p("P40", "Lengths and strides beyond 32 bits",
  "Every function works for arrays whose strides, byte offsets, number of elements, or core dimension exceed what 32 bits can hold (up to what memory allows): the result is the one that the same values give in a compact array, resp. the one that the definition gives, an index result is the true index, and nothing outside the arrays is touched; where a function needs memory that it cannot get, it raises MemoryError.",
  ["inputs"], "all functions x axes, signs and sizes of strides; core dimensions and numbers of core problems beyond 2**31",
  "Tests use arrays of a few elements.",
  ["src/minmax/minmax_gufunc.h", "src/vnorm/vnorm_gufunc.h", "src/gendot/gendotmodule.c", "tools/cxxgen/gufuncgen.py"],
  [("loop counters and stride arithmetic in every inner loop", "tools/cxxgen/gufuncgen.py"), ("index type of the core loops", "src/minmax/minmax_gufunc.h")], ["return values, no crash"])

p("P41", "Concurrent calls from several threads never disturb each other",
  "Any function may be called by several threads at once, also the same function with operands of other values and lengths, and while other calls raise exceptions: every call gives the result that it gives when it runs alone, and only its own exception; the first use of names of the package by several threads of a fresh interpreter works, without an error or a deadlock, and gives every thread the same objects.",
  ["schedules", "inputs"], "sets of concurrent calls x schedules of the threads; sets of first uses of names",
  "Tests are single-threaded.",
  ["src/gendot/gendotmodule.c", "src/mad/mad_gufunc.h", "src/sosfilter/sosfilter_gufunc.h", "ufunclab/__init__.py"],
  [("temporary buffers of the loops, which run without the GIL", "src/gendot/gendotmodule.c"), ("module __getattr__", "ufunclab/__init__.py")], ["return values, exceptions"])

p("P42", "Well-defined calls signal no floating-point error",
  "A call whose operands and results are all finite sets neither the invalid nor the divide-by-zero state of NumPy: it emits no such RuntimeWarning, it succeeds under `numpy.errstate(invalid='raise', divide='raise')`, and its result does not depend on the error state. The element-by-element functions generated from C++ templates (the ramps, steps, logistic and normal families, expint1, hypot3, ...) leave no floating-point error state at all, whatever the operands.",
  ["inputs", "configurations"], "all functions x loops x finite operands of all magnitudes; the element-by-element functions also with nan, infinities and overflow",
  "Tests never look at the error state.",
  ["src/linear_interp1d/linear_interp1d_gufunc.c.src", "src/mad/mad_gufunc.h", "src/step/step.h", "src/trapezoid_pulse/trapezoid_pulse.h"],
  [("branches that avoid 0/0 and inf-inf in unused intermediate values", "src/mad/mad_gufunc.h"), ("clear_floatstatus at the end of each generated loop", "tools/cxxgen/generate_ufunc_extmod.py")], ["numpy.errstate, return values"])
p("P43", "Ufunc methods and forced signatures give what single calls give",
  "For the element-by-element functions of two arguments, `reduce`, `accumulate`, `reduceat` and `outer` equal the corresponding folds or tables of single calls, for every axis, `keepdims`, `initial`, `where` and `out`, and `at` equals one call after another, also for repeated indices. For every function and type loop, `signature=` runs exactly that loop on the operands cast to its types, whatever the operand types, the memory layout and NumPy's buffer size.",
  ["inputs", "configurations"], "binary functions x methods x axes x options x layouts; all functions x loops x operand types x buffer sizes",
  "Tests call functions directly on arrays; they never use the methods, forced signatures, or arrays longer than a buffer.",
  ["tools/cxxgen/generate_ufunc_extmod.py", "tools/cxxgen/gufuncgen.py", "src/util/strided.hpp"],
  [("inner loops that read their operands before writing, with any steps (0 included)", "tools/cxxgen/generate_ufunc_extmod.py")], ["return values, out arrays, exceptions"])

p("P44", "Wrappers generated by tools/uwrap call the function they wrap faithfully",
  "The module that `tools/uwrap/uwrap.py` writes defines a wrapper for every function of `dir(ufunclab)`; a wrapper takes the parameters named in the heading of the documentation, by position or by keyword in any order, fills in the declared default values, passes out, casting, where, axis, axes, keepdims, signature and dtype on, and returns (or raises) what the function does; the wrappers of the set reductions (all_same, gmean, hmean, mad, peaktopeak, rmad) also take `axis=None` and a tuple of axes and then reduce over all those axes together, for arrays of any size and shape and for nested lists. `uwrap(ufunc, params=..., name=...)` does so for any parameter names and default values and rejects with ValueError a wrong number of parameters, names that ufuncs use themselves, and parameters without default after ones with a default.",
  ["inputs", "configurations", "programs"], "all functions x loops x ways to pass the arguments x options; generated parameter lists",
  "The tests of the tool call five wrappers on a few arrays, and are not among the tests that run.",
  ["tools/uwrap/uwrap.py", "ufunclab/__init__.py"],
  [("axes are moved to the end and flattened", "tools/uwrap/uwrap.py"), ("parameters are passed by position in the order of the declaration", "tools/uwrap/uwrap.py"), ("headings of the documentation", "src")], ["return values of the wrappers, exceptions, generated source"])

p("P45", "The code generators make the ufuncs that are declared",
  "For every valid declaration, `tools/cxxgen/generate_gufunc.py` and `generate_ufuncs.py` write an extension module that compiles and defines ufuncs with the declared name, documentation, (shape) signature and type loops in the declared order; the loop of a type signature calls the core function declared for it, with those types, once per loop index, passing the core dimensions in order of appearance and for each operand its pointer and its own strides. `nonzero_coredims` makes the call raise ValueError exactly if such a dimension is 0, `process_core_dims_func` and `extra_module_funcs` are called, a loop with objects stops at the first exception, ufunc loops leave no floating-point error set, and contradictory declarations are rejected. `tools/conv_template.py` expands (nested) repeat blocks to one copy per value, in order, without the combinations named by `:exclude:`.",
  ["programs", "inputs"], "declarations (shape signatures, types, sources, options) x arrays, layouts, broadcasting; nested templates",
  "The tests exercise only the declarations that the package itself makes; nothing tests the generators on others.",
  ["tools/cxxgen/gufuncgen.py", "tools/cxxgen/generate_ufunc_extmod.py", "tools/cxxgen/generate_concrete_cfuncs.py", "tools/cxxgen/generate_utils.py", "tools/conv_template.py", "src/util/ufunc_tools.h"],
  [("steps of the operands, then of the core dimensions in order", "tools/cxxgen/gufuncgen.py"), ("template parameters are the distinct columns of the type signatures", "tools/cxxgen/gufuncgen.py")], ["return values and attributes of the generated ufuncs, exceptions"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
