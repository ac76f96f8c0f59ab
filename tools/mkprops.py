"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
CORE = "uncertainties/core.py"
UM = "uncertainties/umath_core.py"
NP = "uncertainties/unumpy/core.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Linear propagation with exact tracking of correlations",
 "Whatever sequence of supported operations builds a quantity (any order, grouping, length, sharing of intermediate results, or repetition of the same operand), its nominal value is the same computation done on the nominal values, and its derivative with respect to each independent variable is the one given by the chain rule at the nominal values. Its standard deviation is the square root of the sum of the squares of derivative times standard deviation over the independent variables it depends on, so that correlated parts combine or cancel exactly (x-x is 0 with no uncertainty, x+x equals 2*x) and independent ones add in quadrature. This holds for very long computations (accumulations over thousands of terms) as well.",
 ["programs", "histories", "inputs"], "all programs made of the supported operations over any number of variables, shared subexpressions and any length, at finite nominal values where squares of contributions are representable floats",
 "The tests sample a few hand-written expressions; correlation tracking must hold for every expression graph, sharing pattern and length.",
 [CORE], [("linear combination expansion", CORE+":LinearCombination.expand"), ("operation wrapping", CORE+":wrap"), ("standard deviation", CORE+":AffineScalarFunc.std_dev")],
 [("linear part", "lazily expanded combination of variables' differentials")], "public derivatives, std_dev and nominal_value attributes")

prop("C02", "Arithmetic operators: values, derivatives and reflected forms",
 "For +, -, *, /, //, %, **, unary + and -, and abs(), between two quantities or between a quantity and a real constant on either side (int, bool, float, NumPy number up to double precision), the nominal value equals the result of the same Python operation on the nominal values. The uncertainty is that of the operator's exact partial derivatives at the nominal values with respect to both operands (floor division is locally constant, the modulo follows x - y*floor(x/y) away from its jumps, powers include zero or negative bases and integer exponents). Operations that raise on the nominal values (division by zero, complex power) raise the same kind of exception.",
 ["inputs", "configurations"], "all operand values (signs, zeros, integers, magnitudes; results and derivatives in the range of normal floats), which operand carries uncertainty, the type of the constant and its side",
 "Tests compare with numerical differentiation at a handful of points, mainly with both operands uncertain.",
 [CORE], [("operator derivatives", CORE+":get_ops_with_reflection"), ("operator installation", CORE+":add_operators_to_AffineScalarFunc"), ("constant conversion", CORE+":to_affine_scalar")])

prop("C03", "Mathematical functions: values and derivatives",
 "Each function of the uncertainty-aware mathematical module returns, for plain numbers, exactly what the standard math module returns, and for quantities with uncertainty a result whose nominal value is the standard function of the nominal values and whose derivatives are the function's true partial derivatives there, for every argument position and every combination of certain and uncertain arguments. Functions that are locally constant or that return integers or truth values return plain results without uncertainty, and functions returning several values (such as modf and frexp) do so consistently for each component. Arguments outside a function's domain raise the standard module's exception.",
 ["inputs", "configurations"], "all functions of the module, all argument values inside and outside the domain (results and derivatives in the range of normal floats), all subsets of uncertain arguments",
 "Tests compare with numerical differentiation at random points of few functions; frexp and ldexp are only sampled once, branches of multi-branch derivatives rarely.",
 [UM, "uncertainties/umath.py"], [("derivative table", UM+":fixed_derivatives"), ("locally constant functions", UM+":locally_cst_funcs"), ("several-value functions", UM+":wrapped_modf, wrapped_frexp, wrapped_ldexp")])

prop("C04", "Undefined derivatives give NaN uncertainty, never an error or a wrong number",
 "When a function value is defined at the nominal values but the derivative with respect to an uncertain argument is not (for instance the square root at 0, or arc sine at 1), the operation succeeds, and the resulting standard deviation is NaN if that argument has a non-zero standard deviation. If that argument has a zero standard deviation it contributes nothing: the result's standard deviation, error components and covariances are those of the other variables. (By convention, abs(), fabs() and copysign() have their right-hand derivative at 0.)",
 ["inputs", "histories"], "all functions and operators at singular points of their derivatives, any standard deviation including zero, and any later combination of the result",
 "Tests check a couple of singular points of power only.",
 [CORE, UM], [("error to NaN conversion", CORE+":nan_if_exception"), ("zero standard deviation rule", CORE+":AffineScalarFunc.error_components")])

prop("C05", "Observations and operations never modify their operands",
 "Reading anything from a quantity (derivatives, standard deviation, error components, formatting, comparison, copying, pickling, covariance) and using it in further operations never changes its nominal value, its derivatives, or those of any other quantity. The order and number of observations, including between construction steps, has no influence on any later result: an observed computation gives the same values as an unobserved one.",
 ["histories", "programs"], "all interleavings of constructions, observations and operations over quantities sharing intermediate results",
 "Evaluation is lazy and done in place; tests observe results once, at the end, and rarely re-read operands or shared intermediate results.",
 [CORE], [("in-place lazy expansion", CORE+":LinearCombination.expand"), ("derivatives reading", CORE+":AffineScalarFunc.derivatives"), ("derivatives of wrapped functions", CORE+":wrap")],
 [("linear part", "list of terms or expanded dictionary")])

prop("C06", "Standard deviations are live, validated, and nominal values immutable",
 "Setting the standard deviation of an independent variable is immediately reflected in every quantity that depends on it, and in nothing else: nominal values, derivatives and other variables are unaffected. Setting a negative standard deviation is refused with an exception and leaves everything unchanged; zero, NaN and positive values are accepted. Nominal values cannot be set, and the standard deviation of a derived quantity cannot be set.",
 ["histories", "inputs"], "all sequences of standard deviation updates (valid and rejected) interleaved with constructions and observations of dependent quantities",
 "Tests set a standard deviation once on one variable.",
 [CORE], [("validated setter", CORE+":Variable.std_dev"), ("recomputation", CORE+":AffineScalarFunc.error_components")])

prop("C07", "Identity, independence and copy semantics",
 "Each newly created variable is independent of all others, even with the same numbers and tag, and adding or multiplying by constants keeps dependence. Copying a variable (shallow or deep) gives a new variable with same value, standard deviation and tag but independent of the original, so the difference has the quadrature uncertainty; a shallow copy of a derived quantity keeps depending on the same variables, while a deep copy depends on new independent variables that carry the same values. Updating the standard deviation of a copy never affects the original, and conversely.",
 ["histories", "programs"], "all sequences of creation, copy, deep copy (also inside containers), arithmetic and standard deviation updates",
 "Tests check single copies of one variable and of one function.",
 [CORE], [("copying", CORE+":Variable.__copy__, AffineScalarFunc.__copy__, __deepcopy__"), ("identity hash", CORE+":Variable.__hash__")])

prop("C08", "Pickling preserves values, tags and correlations",
 "A quantity pickled and unpickled with any protocol has the same nominal value, standard deviation and (for variables) tag, and the unpickled quantity can be used in further calculations. Quantities pickled together keep the correlations they have between themselves after unpickling (and identical variables stay identical), while being independent of the originals; attributes added by user subclasses, in instance dictionaries or in slots, are preserved. It holds for computations of any length, whether or not they were observed before being pickled, and pickling leaves the originals unchanged.",
 ["histories", "programs", "configurations"], "all sets of quantities pickled together, all pickle protocols, all observation states, subclass layouts and expression lengths",
 "Tests pickle a few objects with one variable; joint correlation, laziness state and long expressions are not covered.",
 [CORE], [("state capture", CORE+":AffineScalarFunc.__getstate__, __setstate__"), ("linear part state", CORE+":LinearCombination.__getstate__"), ("attributes", CORE+":AffineScalarFunc.__slots__, Variable.__slots__")])

prop("C09", "Comparisons and truth value",
 "For quantities with finite nominal values, x == y holds exactly if the difference x-y has zero nominal value and zero standard deviation (so a variable equals itself, two independent uncertain variables are never equal, and correlated expressions are equal when identical), and != is its negation. The orders < and > compare nominal values, and <= and >= are the disjunction with equality; constants on either side behave as quantities without uncertainty, an object of a foreign type is unequal, and its ordering raises TypeError. The truth value of a quantity is false only when it equals exactly 0 without uncertainty.",
 ["inputs", "histories"], "all pairs of quantities and real constants, correlated or not, including zero standard deviations and updates of standard deviations",
 "Tests compare few constants and a few correlated expressions.",
 [CORE], [("comparison definitions", CORE+":eq_on_aff_funcs, ne_on_aff_funcs, gt_on_aff_funcs, ge_on_aff_funcs, lt, le"), ("coercion of comparison operands", CORE+":force_aff_func_args")])

prop("C10", "Error components decompose the standard deviation",
 "The error components of a quantity associate to each independent variable on which it depends the absolute value of derivative times standard deviation, always non-negative, and their quadratic sum is the square of its standard deviation. Zero-uncertainty variables contribute exactly 0 even when the derivative is undefined, and NaN standard deviations give NaN components. Grouping components by tag gives the contribution of each source of error.",
 ["inputs", "histories"], "all quantities, standard deviations including zero and NaN, and signs of derivatives",
 "Tests check error components of one or two expressions.",
 [CORE], [("error components", CORE+":AffineScalarFunc.error_components"), ("standard deviation", CORE+":AffineScalarFunc.std_dev")])

prop("C11", "Covariance and correlation matrices",
 "For any list of quantities (variables, derived, repeated, plain numbers are allowed to be derived with no variable), the covariance matrix has entry (i,j) equal to the sum over common independent variables of the two derivatives times the variance: it is symmetric, its diagonal holds the variances, and entries of quantities sharing no variable are 0. The correlation matrix is the covariance matrix divided by the products of standard deviations, with 1 on the diagonal of uncertain quantities. The matrices follow the order of the list and change with later standard deviation updates when recomputed.",
 ["inputs", "programs"], "all lists of quantities with any sharing of variables, any order, repetition and standard deviations",
 "Tests use one or two fixed examples.",
 [CORE], [("covariance", CORE+":covariance_matrix"), ("correlation", CORE+":correlation_matrix")])

prop("C12", "Quantities created from a covariance or correlation matrix",
 "Creating quantities from nominal values and a covariance matrix gives quantities with these nominal values (in order) whose covariance matrix is the one given, and likewise from (value, standard deviation) pairs and a correlation matrix, including zero standard deviations and singular (positive semi-definite) matrices. Further calculations on them propagate these correlations. Tags given for the underlying independent variables are carried by these variables.",
 ["inputs"], "all dimensions, valid covariance and correlation matrices (also singular, or with zero variances) and nominal values",
 "Tests use two or three fixed matrices of full rank.",
 [CORE], [("creation", CORE+":correlated_values, correlated_values_norm"), ("diagonalization", "numpy.linalg.eigh use in correlated_values_norm")])

prop("C13", "Wrapping of arbitrary functions",
 "A wrapped function called with plain numbers returns what the original returns, and called with quantities returns a quantity whose nominal value is the function of the nominal values and whose derivatives are the given ones, or numerical ones where none is given (None or missing), for every argument with uncertainty, positional, keyword, or variable positional and keyword. Arguments without uncertainty are passed unchanged, derivative functions are called with the nominal values under the same calling convention as the function, and the original result, numerical or not, is returned when no argument has an uncertainty. Wrapped functions give the name and documentation of the original (name attribute, documentation string), can be called repeatedly with varying call shapes, and neither modify the provided derivative containers nor give different results because of earlier calls.",
 ["inputs", "configurations", "histories"], "all signatures, calling shapes (positional, keyword, variable), derivative sources (list, iterator, missing, None, keyword dictionary) and call sequences",
 "Tests have a dozen fixed call shapes; the binding of arguments to derivatives is combinatorial.",
 [CORE], [("wrapping", CORE+":wrap"), ("list with default", CORE+":IndexableIter"), ("numerical derivatives", CORE+":partial_derivative, NumericalDerivatives")])

prop("C14", "Formatting: digits shown and rounding",
 "A formatted quantity shows its nominal value and standard deviation correctly rounded to one common decimal place, chosen by: the Particle Data Group rule (1 or 2 digits on the uncertainty) when no precision is given, the requested number of significant digits on the uncertainty with the 'u' modifier, and the position implied by the precision as for floats otherwise. It holds for all magnitudes (subnormal floats excepted), including when rounding carries into a new digit (0.0996 -> 0.10), for negative and zero nominal values, and for zero, NaN or infinite nominal values and uncertainties, which are displayed as such. When no position is implied by the uncertainty (zero or non-finite), the nominal value is formatted like a float with the same specification.",
 ["inputs", "configurations"], "all nominal values and standard deviations (finite, zero, NaN, infinite), precisions, presentation types and uncertainty control",
 "Tests have a fixed table of examples (some shadowed by duplicate keys); rounding and carry boundaries are spread over all magnitudes.",
 [CORE], [("digits control", CORE+":PDG_precision, signif_dgt_to_limit, AffineScalarFunc.__format__"), ("first digit", CORE+":first_digit"), ("rendering", CORE+":format_num")])

prop("C15", "Formatting: layout, options and common exponent",
 "The layout of a formatted quantity follows its specification: a common exponent for both parts, factored out, is used for 'e' always and for 'g' or no type exactly when the number would be too small or too large or would show insignificant zeros; '%', 'S' (shorthand), 'P' (pretty-print), 'L' (LaTeX) and 'p' (parentheses) produce the documented notation, alone and combined. Width, fill, alignment, sign, zero padding and the comma option apply to both parts as for floats, and only pad or group: removing the padding gives the unpadded representation. The documented module-level customizations (core.EXP_PRINT: how exponents are printed per notation; core.GROUP_SYMBOLS: the grouping symbols of each notation) change exactly that part of the result. An empty specification is the same as str(), and specifications that are not understood are refused with ValueError.",
 ["inputs", "configurations"], "all combinations of fill, align, sign, zero, width, comma, precision, u, type and options, and all values",
 "The product of the options is large and the tests sample a fixed table.",
 [CORE], [("specification parsing", CORE+":AffineScalarFunc.__format__"), ("layout", CORE+":format_num, robust_align, EXP_LETTERS, PERCENT notation")])

prop("C16", "Parsing of numbers with uncertainty",
 "Every documented string form (plain number, value+/-uncertainty with any documented symbol, shorthand with digits in parentheses or with a decimal point in them, common exponent in e or x10 superscript form, optional enclosing parentheses, nan and inf) is read as the decimal value and uncertainty it denotes, where a number without explicit uncertainty has an uncertainty of 1 on its last digit (up to floating-point rounding, exponents being in the range of floats). Surrounding blanks are ignored. Strings that are not in these forms are refused with ValueError (a negative uncertainty is refused too).",
 ["inputs"], "all strings over the alphabet of number notations: signs, digits, point, parentheses, exponents, plus-or-minus symbols, blanks and Unicode superscripts",
 "Tests have a fixed list of accepted and refused strings.",
 [CORE], [("parsing", CORE+":str_to_number_with_uncert, parse_error_in_parentheses, from_superscript"), ("patterns", CORE+":POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE, NUMBER_WITH_UNCERT_RE_STR, NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH"), ("entry points", CORE+":ufloat_fromstr")])

prop("C17", "Printing and parsing agree",
 "Any quantity with a finite nominal value and non-zero finite uncertainty, printed in any supported text form (all types, precisions, shorthand, pretty-print, with or without parentheses; LaTeX and percent excluded), is read back as the decimal numbers printed, hence within the rounding of the printed digits of the original. The representation given by repr() reads back to exactly the same nominal value and standard deviation for derived quantities and variables.",
 ["inputs", "configurations"], "all finite values, positive uncertainties, and format specifications without LaTeX, percent, filling or comma",
 "The existing test compares within a very loose tolerance on a fixed table.",
 [CORE], [("formatting", CORE+":AffineScalarFunc.__format__"), ("repr", CORE+":AffineScalarFunc.__repr__"), ("parsing", CORE+":ufloat_fromstr")])

prop("C18", "Arrays: element-wise operations, construction and extraction",
 "Arrays and matrices of quantities built from nominal values and standard deviations have exactly these values element by element with independent variables, and extracting nominal values and standard deviations gives back arrays of floats of the same shape (also for mixed or plain-number arrays and for scalars). Array versions of mathematical functions and of arithmetic operators applied to arrays of any shape, plain numbers included, give element by element what the scalar function gives, correlations between elements included, under their NumPy names. Extraction and operations do not modify the arrays; after elements are replaced, everything reflects the current elements.",
 ["inputs", "configurations"], "all shapes, dimensions (0-d and empty included where the underlying function accepts them), contents (quantities, plain numbers or a mix), functions and operators",
 "Tests check a few functions on one-dimensional arrays.",
 [NP, "uncertainties/unumpy/__init__.py"], [("vectorized functions", NP+":define_vectorized_funcs"), ("construction", NP+":uarray, umatrix"), ("extraction", NP+":nominal_values, std_devs, unumpy_to_numpy_matrix")])

prop("C19", "Matrix inverse and pseudo-inverse with uncertainties",
 "The inverse of a matrix of quantities has nominal values equal to the inverse of the nominal values and derivatives -A^-1 dA A^-1 with respect to every variable of any element, including when elements are correlated or shared, some are plain numbers, or the matrix is not symmetric; the product with the original is the identity with no uncertainty. The pseudo-inverse does the same for full-rank rectangular matrices of either orientation, equals the inverse for invertible matrices, and honours its cut-off argument. The result depends on the current elements only, whatever was calculated before. Arrays give arrays and matrices give matrices.",
 ["inputs"], "all well-conditioned matrices of any size, with any pattern of shared, correlated or certain elements",
 "Tests use one or two fixed small matrices.",
 [NP, "uncertainties/unumpy/ulinalg.py"], [("inverse", NP+":inv_with_derivatives, func_with_deriv_to_uncert_func"), ("pseudo-inverse", NP+":pinv_with_derivatives"), ("matrix class", NP+":matrix.getI")])

prop("C20", "Creation of quantities and simple accessors",
 "Creating a quantity from a nominal value, standard deviation and optional tag keeps exactly these numbers (as floats) and tag whatever the numeric type given; the obsolete creation forms (pair, string) give the same result as the current ones with a warning, and creation from a string takes the same tag argument. Negative standard deviations and invalid arguments are refused with an exception. The accessors give nominal value, standard deviation and standard score (x - nominal)/standard deviation consistently, the functions extracting nominal value and standard deviation treat plain numbers as values without uncertainty, and short aliases give the same values as the full names.",
 ["inputs", "configurations"], "all call forms, numeric types, special values (zero, negative, NaN, infinities) and tags",
 "Tests sample a few call forms.",
 [CORE], [("creation", CORE+":ufloat, ufloat_obsolete, Variable.__init__, ufloat_fromstr"), ("accessors", CORE+":nominal_value, std_dev, AffineScalarFunc.std_score, s, n")])

prop("C21", "The code updater rewrites exactly the obsolete calls",
 "Updating user code from the 1.x interface rewrites the documented obsolete calls (creation from a pair or a string with or without a tag, method-call reading and setting of standard deviations, array creation from a pair, calling of array standard deviation extraction) into code that is valid and creates the same quantities under the current interface, wherever they occur and however they are nested, spaced or qualified by a module name. Everything else, including comments, spacing, strings, and similar-looking calls already in the new form, is left unchanged. Updating already updated code changes nothing. The command modifies files only when asked to, and keeps the originals.",
 ["programs"], "all programs built from the obsolete and the current call forms, nested and embedded in arbitrary code (names qualified by at most one module name; comments inside updated calls, code inside strings, and pairs with a trailing comma excluded)",
 "Tests have a fixed list of one-line rewrites.",
 ["uncertainties/lib1to2/fixes/fix_ufloat.py", "uncertainties/lib1to2/fixes/fix_std_dev.py", "uncertainties/lib1to2/fixes/fix_std_devs.py", "uncertainties/lib1to2/fixes/fix_uarray_umatrix.py", "uncertainties/1to2.py"],
 [("creation rewriting", "uncertainties/lib1to2/fixes/fix_ufloat.py"), ("array creation rewriting", "uncertainties/lib1to2/fixes/fix_uarray_umatrix.py"), ("accessor rewriting", "uncertainties/lib1to2/fixes/fix_std_dev.py, fix_std_devs.py")])

prop("C22", "Concurrent use is safe",
 "When several threads concurrently read (derivatives, standard deviation, formatting, comparison) or use in new operations, wrapped functions included, quantities that share intermediate results, each thread obtains the same results as in a sequential run, in every interleaving. Operations of different threads on different quantities (creating, calculating, formatting, parsing, comparing, pickling, matrices and arrays) are independent too: no result depends on what other threads do or on what was done before. Afterwards the quantities and the wrapped functions still have their correct values.",
 ["schedules"], "all thread interleavings of reads and derived operations over shared, not yet evaluated quantities, and of operations on separate quantities",
 "Evaluation mutates shared lazily-built state in place; no test uses threads and schedules cannot be sampled reliably.",
 [CORE], [("lazy in-place expansion", CORE+":LinearCombination.expand"), ("first reading", CORE+":AffineScalarFunc.derivatives"), ("derivatives obtained on first use", CORE+":IndexableIter")],
 [("linear part", "shared by all quantities built from it")])

prop("C23", "Interoperation: refused conversions and foreign operands",
 "A quantity with uncertainty is never silently converted to a number without uncertainty: float(), int(), complex() and standard mathematical functions that need a float raise TypeError on it. Operations with operands of unsupported types (strings, lists, complex numbers, None; NumPy's strings, dates and complex numbers too) raise TypeError, and leave room for the other operand's own reflected implementation. Plain numbers without uncertainty (Python's int, bool and float, their subclasses, and NumPy's up to double precision) are accepted wherever quantities are: constants mixed with quantities behave like quantities with zero standard deviation.",
 ["inputs", "configurations"], "all conversions, operators and operand types on either side",
 "Tests check a few conversions and operand types.",
 [CORE], [("conversion refusal", CORE+":raise_error in no_float_conversion"), ("operand coercion", CORE+":force_aff_func_args, to_affine_scalar"), ("not implemented on foreign operands", CORE+":wrapped operators' NotImplemented handling")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
