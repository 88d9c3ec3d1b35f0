#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
H = "include/hyperjet/hyperjet.h"
B = "python/src/common.h"
M = "python/src/main.cpp"
S = "python/src/bind_sscalar.cpp"
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


DATA = [("packed data", "f, then n gradient entries, then (order 2) the n(n+1)/2 upper-triangle Hessian entries row by row", H + " DDScalar")]

add("C01", "Unary elementary functions propagate exact first and second derivatives",
    "In the C++ library, applying any unary elementary function (sqrt, cbrt, reciprocal, pow with a scalar exponent, cos/sin/tan and inverses, cosh/sinh/tanh and inverses, exp, log, log to a base, log2, log10) to a dense jet at a point where that function is twice differentiable gives the function's value, the gradient phi'(f)*g and the Hessian phi'(f)*H + phi''(f)*g*g^T, up to rounding. "
    "This holds for every number of variables including 0, first and second order, static and dynamic storage, and float, double and long double scalars. "
    "The free function and the member function give the same result.",
    ["inputs", "configurations"],
    "all functions x all jets (values over the whole domain incl. 0, +-1, negative, tiny, huge; arbitrary gradient and Hessian) x order 1/2 x static/dynamic sizes x scalar types",
    "Each function is tested on one operand with 2 or 3 variables; branches, special points, other sizes, orders and scalar types are never reached, and a formula that happens to agree at that operand passes.",
    [H], [("unary chain rule kernel", H + " DDScalar::unary"), ("per-function derivative formulas", H + " DDScalar::pow..log10"), ("free function wrappers", H + " namespace hyperjet")], DATA,
    ["result data of every call, against closed-form derivatives in __float128"])

add("C02", "Binary and ternary operations propagate exact derivatives",
    "In the C++ library, +, -, *, / between two dense jets or between a jet and a plain scalar on either side, unary minus, atan2, and hypot of two or three jets give the value of the operation and the gradient and Hessian prescribed by the sum, product, quotient and chain rules, up to rounding, wherever the operation is twice differentiable. "
    "This holds for every number of variables including 0, first and second order, static and dynamic storage, and float, double and long double scalars, and no operand is modified. "
    "Operands may be the same object.",
    ["inputs", "configurations"],
    "all operations x all operand pairs/triples (signs, zeros, extreme magnitudes, identical operands) x order x storage x sizes x scalar types",
    "Tests use one fixed pair of operands with 2 or 3 variables; special values (zero operands, negative divisors), repeated operands, size 0 and large dynamic sizes are not reached.",
    [H], [("binary/ternary kernels", H + " DDScalar::binary, ternary"), ("operator overloads", H + " DDScalar::operator+ - * /"), ("atan2, hypot", H + " DDScalar::atan2, hypot")], DATA,
    ["operands before/after and result data of every call"])

add("C03", "Compound assignment equals the binary operator, even under aliasing",
    "For dense and sparse jets in C++, after x op= y (op one of + - * /, y a jet or a plain scalar) x holds what x op y returns (value and all derivatives, up to rounding), the expression refers to x itself, and y is unchanged unless y is x. "
    "This also holds when y is x itself or when the scalar y is a reference to one of x's own components. "
    "For SScalar this includes the set of variable names.",
    ["inputs", "histories"],
    "all operators x all operands x all aliasing patterns (distinct, self, scalar reference into the target) and chains of such assignments",
    "Tests apply each compound operator once to distinct operands; self-assignment (x *= x) is reachable from Python and C++ and never exercised.",
    [H], [("in-place operators", H + " DDScalar/SScalar::operator+= -= *= /=")], DATA,
    ["target and right operand before and after each compound assignment"])

add("C04", "Any composed expression yields the true gradient and Hessian",
    "Seeding variables in C++ and evaluating any composition of the supported dense-jet operations (including shared subexpressions, in-place updates, constants and reuse of intermediates) yields, in the result, the value, gradient and Hessian of the composed mathematical function with respect to the seeded variables, up to accumulated rounding. "
    "Rewriting an expression by an algebraic identity does not change the derivatives.",
    ["programs", "inputs"],
    "all expression programs over 1..20 variables, for first/second order, static/dynamic jets",
    "Only single operations are unit-tested; nothing checks the composition of operations, so errors that cancel or only appear for operands with non-trivial Hessians, or state carried from one operation to another, are not seen.",
    [H], [("all dense operations", H + " DDScalar")], DATA,
    ["result of random programs vs an independent high-precision evaluation and vs identity-rewritten programs"])

add("C05", "Order and storage kind do not change results",
    "In C++, evaluating the same program with first-order and second-order jets gives the same value and gradient, and evaluating it with static-size and dynamic-size jets gives the same value, gradient and Hessian, up to rounding. "
    "Seeding a subset of the variables gives the corresponding sub-gradient and sub-Hessian, and renumbering the variables permutes them accordingly.",
    ["programs", "configurations"],
    "all programs x all sizes x {order 1, order 2} x {static, dynamic} x variable subsets and permutations",
    "Tests run a fixed list of single operations on 2 variables; separate code branches per order and storage are otherwise only compiled, not compared.",
    [H], [("if constexpr branches on order and storage", H + " DDScalar"), ("variable, variables", H + " DDScalar::variable")], DATA,
    ["results of one program under several instantiations"])

add("C06", "Gradient, Hessian accessors and matrix forms agree with packed data",
    "For every dense jet in C++, the packed data is the value, then the gradient, then (second order) the upper triangle of the Hessian row by row, and h(i,j) and h(j,i) denote that same stored entry for reading and writing, as does the packed index h(k). "
    "hm('full') is the symmetric Hessian, hm('zeros') its upper triangle with zeros below, set_hm stores the upper triangle, g/ag, adata, f and their setters read and write the same components and nothing else, and building a jet from its parts (create, from_gradient, from_arrays) and reading the parts back is exact. "
    "data_length_from_size and size_from_data_length are mutually inverse on all valid lengths.",
    ["inputs", "configurations", "histories"],
    "all sizes, all index pairs, all read/write sequences",
    "Tests read and write a 2-variable jet (where index formulas are nearly degenerate); other sizes, lower-triangle access and interference between entries are not covered.",
    [H], [("index arithmetic", H + " DDScalar::h(i,j)"), ("matrix conversion", H + " DDScalar::hm, set_hm, from_arrays, from_gradient, create"), ("Eigen maps", H + " DDScalar::ag, adata")], DATA,
    ["every component after every accessor call, compared with a shadow model"])

add("C07", "Constructors and seeds produce exactly the jet they name",
    "In C++, constant, zero, variable, variables, construction from a scalar, from data or from an initializer list, and create give a jet of the requested size whose value is the given value and whose derivatives are all zero, except a unit gradient entry at the requested index for a variable, or exactly the supplied data. "
    "A jet's size and data length always match each other, a dynamic jet built from a plain scalar or without size being a constant of size 0. "
    "Copies are independent of the original.",
    ["inputs", "configurations"],
    "all sizes, orders, storage kinds, indices and values",
    "Tests construct 2-variable jets only and do not exercise the dynamic scalar and initializer-list constructors, nor that all derivatives of a constant are zero.",
    [H], [("constructors", H + " DDScalar::DDScalar"), ("factories", H + " DDScalar::create, empty, zero, constant, variable, variables")], DATA,
    ["size, data length and every component of each constructed jet"])

add("C08", "Padding embeds a jet in a larger variable set without losing anything",
    "In C++, pad_right(n) and pad_left(n) return a jet of n variables with the same value whose old variables are the first (right) or last (left) ones with unchanged first and second derivatives, all other derivatives being zero, and the source is unchanged. "
    "Padding commutes with every dense operation and with further padding, and two jets padded to disjoint blocks combine to the derivative of the joint function. "
    "resize(n) yields a jet of n variables with matching data length that keeps the value and can be overwritten and used like any other jet.",
    ["inputs", "configurations", "histories"],
    "all source sizes, all target sizes >= source size, both orders, arbitrary data",
    "One padding from 2 to 5 variables is tested; source size 0, equal sizes, other heads/tails and interaction with operations are not.",
    [H], [("pad_left, pad_right, resize", H + " DDScalar")], DATA,
    ["padded jet components vs the matrix embedding; operations before/after padding"])

add("C09", "eval is the Taylor polynomial of the jet",
    "For every dense jet in C++ and every displacement d with one entry per variable, eval(d) returns f + g.d for a first-order jet and f + g.d + d^T H d / 2 for a second-order jet, up to rounding. "
    "It does not modify the jet, eval(0) is the value, and for a quadratic function of the seeded variables it reproduces the function exactly up to rounding.",
    ["inputs", "configurations"],
    "all jets and displacements, all sizes including 0, both orders, static/dynamic",
    "One displacement of one 3-variable second-order jet is tested.",
    [H], [("eval walks the packed triangle", H + " DDScalar::eval")], DATA, ["eval result vs dense matrix formula in __float128"])

add("C10", "Incompatible sizes and invalid lengths are refused, never computed with",
    "In C++ with exceptions enabled, every operation combining dynamic jets of different sizes (binary and compound operators, atan2, hypot of two or three jets) throws and leaves all operands unchanged; so do data or initializer lists of a length no size produces (or, for a static jet, not its own), negative sizes, a size argument different from a static jet's size, padding to a smaller size, eval with a wrong number of displacements, and a matrix of the wrong shape or an unknown mode for the Hessian. "
    "The same operations never throw on compatible operands.",
    ["inputs", "fault_sequences"],
    "all pairs/triples of sizes 0..N, all operations, all lengths",
    "Tests check a few static size mismatches through the Python constructors; no operation is ever run with incompatible dynamic operands, where a missing check is silent memory corruption.",
    [H], [("check_equal_size, check_valid_size, size_from_data_length", H + " DDScalar")], DATA,
    ["exception or not, and operand data before/after, for every size combination"])

add("C11", "No in-contract use of the C++ library corrupts memory or is undefined",
    "Any sequence of C++ API calls on dense and sparse jets that respects index ranges executes without out-of-bounds or use-after-free access, leaks, undefined behaviour or a failing internal assertion, including when a call throws and is caught. "
    "Every component of every result of operations on fully initialised jets is itself initialised. "
    "This holds with and without NDEBUG, with and without the Eigen interface.",
    ["histories", "configurations"],
    "all call sequences over pools of jets of mixed sizes, orders, storage, and scalar types",
    "Tests are built without sanitizers and run each operation once; over-reads of a few bytes or uninitialised results do not fail them.",
    [H], [("storage and loops over packed data", H + " DDScalar, SScalar")], DATA,
    ["ASan+UBSan+LSan reports (gcc and clang), valgrind/poison-based uninitialised results, container assertions, over random API histories"])

add("C12", "Sparse jets propagate exact first derivatives",
    "In C++, every operation on sparse jets (SScalar: + - * / with jets or plain scalars on either side, negation, all elementary functions, pow, atan2, hypot of two or three) gives the value of the operation and, for every variable name occurring in any operand, the chain-rule partial derivative, up to rounding, wherever the operation is differentiable. "
    "The free function and the member function give the same result, no operand is modified, and operands may be the same object.",
    ["inputs", "programs"],
    "all operations x all operands with arbitrary (disjoint, overlapping, empty, identical) name sets; float and double; single operations and compositions",
    "Eleven operations are tested on one pair of operands over the names x, y; inverse, hyperbolic, logarithmic functions, atan2 and hypot of SScalar are not tested in C++ at all.",
    [H], [("sparse kernels", H + " SScalar::unary, binary, ternary"), ("formulas", H + " SScalar")],
    [("name to partial map", "derivatives by variable name", H + " SScalar")],
    ["value and every partial of every result"])

add("C13", "Sparse variable names form the union and absent names mean zero",
    "In C++, the names carried by the result of an operation on sparse jets are exactly the union of the operands' names, size() counts them, d(name) is the stored partial and 0 for any other name, and reading never adds a name. "
    "constant and scalar construction carry no name, variable carries exactly its own with derivative 1, and results do not depend on the order in which names were introduced. "
    "eval(d) returns the sum over names present in both the jet and d of partial times increment.",
    ["inputs", "histories"],
    "all name sets (incl. empty string, long, unicode names, hundreds of names) and all operation histories",
    "Tests use the names x, y, z with at most two present.",
    [H], [("map merge", H + " SScalar::binary, operator+= ..."), ("lookup", H + " SScalar::d, eval, size")],
    [("name to partial map", "derivatives by variable name", H + " SScalar")],
    ["size, d(name) for all names ever used, eval, after each operation vs a std::map model"])

add("C14", "Comparison looks only at values; abs keeps value and derivative signs together",
    "For dense and sparse jets in C++, each of == != < > <= >= between two jets, a jet and a scalar, or a scalar and a jet gives exactly the result of comparing the values, whatever the derivatives and including NaN and infinities. "
    "abs(x) is x for positive values and -x (value and all derivatives) for negative ones, at zero one of the two as a whole, as a member and as a free function.",
    ["inputs"],
    "all value pairs (equal, neighbouring, signed zero, NaN, inf) x arbitrary derivatives x mixed forms",
    "Comparisons and abs are not tested in C++ at all.",
    [H], [("comparison operators", H + " DDScalar, SScalar"), ("abs", H + " DDScalar::abs, SScalar::abs")], None,
    ["truth table of all six operators in three mixed forms"])

add("C15", "Jets behave as scalars inside Eigen vectors and matrices",
    "In C++ with Eigen, sums, scalings, dot and cross products, norms (l1, l2, maximum), squared norms, normalisation, extrema, coefficient-wise functions, traces, determinants, inverses, transposes, matrix-vector and matrix-matrix products and the solutions of linear systems by Eigen's decompositions, of vectors and matrices of static-size dense jets, including mixes with plain scalars, give element by element the value, gradient and Hessian obtained by applying the scalar rules to the defining formula, up to rounding. The same holds for dynamic-size jets of one size in the expressions that need no constants of their own (coefficient-wise operations, reductions, small products, determinants).",
    ["programs", "inputs"],
    "fixed- and dynamic-size Eigen expressions over jets of several static sizes and both orders",
    "One dot, cross and norm of one pair of 3-vectors is tested.",
    [H], [("NumTraits and ScalarBinaryOpTraits", H + " namespace Eigen"), ("construction from scalar", H + " DDScalar(TScalar)")], None,
    ["each element of each Eigen result vs reference jets"])

add("C16", "Operations are pure and free of hidden shared state",
    "In C++, evaluating const operations on shared dense or sparse jets from several threads is free of data races and every thread obtains bit for bit what a single-threaded evaluation obtains. "
    "Repeating an operation on equal operands gives bit-identical results whatever was computed in between, including operations that threw, and operands passed as const are never modified. The result depends only on what the operands hold, not on how they came to hold it or on what was asked of them before.",
    ["schedules", "histories"],
    "all interleavings of read-only operations on shared operands; all histories of unrelated operations in between",
    "Tests are single-threaded and evaluate each operation once.",
    [H], [("all state lives in the objects", H + " DDScalar, SScalar")], None,
    ["ThreadSanitizer reports; byte-wise result comparison across threads, repetitions and histories"])

add("C17", "Every Python operation on dense jets computes what its name says",
    "In the Python module, for every dense jet class, each operator (binary, reflected, in-place, unary, power, comparison, abs), each method and its alias (cos, arccos, acos, hypot, log with base, eval, ...), the module-level hypot and the corresponding numpy function return the value, gradient and Hessian of the named mathematical function, with operands unmodified except the target of an in-place operator (the object itself for op= with a jet and for *= and /= with a number). "
    "All classes (first/second order, static 0..16, dynamic) agree with each other.",
    ["inputs", "configurations", "programs"],
    "36 classes x all operators, methods, aliases and ufuncs x operand forms (jet, float, int, numpy scalar; self-aliased) x arbitrary data",
    "Tests exercise four 2-variable classes with one operand each; acos, asin, atan, atan2, abs, pow, comparisons, most aliases and 32 classes are not exercised.",
    [B, H] + ["python/src/bind_ddscalar_*.cpp"], [("binding table", B + " bind<T>"), ("class instantiation", "python/src/bind_ddscalar_*.cpp")], None,
    ["data of each result vs a pure-Python reference"])

add("C18", "The sparse jet in Python computes what its names say",
    "In the Python module, every operator, method, alias and factory of the sparse jet SScalar returns the value and named partial derivatives of the mathematical function it is named after; the names are the union of the operands' names; d() of an absent name is 0; len and size count the names; comparison uses values only. "
    "In-place operators, also on the object itself, equal the binary ones; those with a jet, *= and /= modify the object itself.",
    ["inputs", "histories"],
    "all operators and methods x name sets x values",
    "Two tests use one sum and one power of two jets.",
    [S, H], [("binding table", S)], None, ["f and d(name) of each result vs a dict-based reference"])

add("C19", "Python properties and views are live, exact and keep their owner alive",
    "In Python, writing f, g, data, set_h or set_hm of a dense jet changes exactly that component of that jet, and f, g, data, h, hm, size and len always agree with each other. "
    "g and data are writable views of the jet: writes through the view are seen by the jet, in-place updates of the jet are seen by the view, and a view stays valid after the jet's name is gone. "
    "hm and results of operations are independent copies.",
    ["histories", "inputs"],
    "all classes x all interleavings of reads, writes, view creation, deletion and in-place operations",
    "Tests write 2-variable jets once and never outlive the owner.",
    [B, H], [("def_property return policies", B + " bind<T>"), ("Eigen maps", H + " DDScalar::ag, adata")], None,
    ["all accessors after every step vs a shadow model, under AddressSanitizer"])

add("C20", "Copy and pickle round-trips reproduce the jet and share nothing",
    "In Python, copy.copy, copy.deepcopy and a pickle round trip (every protocol from 2 up) of a dense jet of any class give an object of the same class, size and bit-identical data (including NaN, infinities, signed zero), also inside containers and numpy arrays, and later changes to one are not seen by the other. "
    "A pickle state that is not valid for the class is refused with an exception.",
    ["inputs", "configurations", "fault_sequences"],
    "36 classes x protocols x data x containers x corrupted states",
    "Only copy.copy of 2-variable jets is tested; pickling and deepcopy are not tested at all.",
    [B], [("py::pickle, __copy__, __deepcopy__", B + " bind<T>")], None, ["bytes of data before/after each round trip and mutation"])

add("C21", "No Python call can corrupt memory: bad arguments raise Python exceptions",
    "Whatever arguments a Python program passes to the constructors, methods, properties, factories and functions of the module on properly constructed jets (wrong types, sizes, shapes, lengths, negative or out-of-range indices, incompatible jets, non-finite or huge numbers), each call either succeeds with a well-formed result or raises a Python exception, and the interpreter never reads or writes out of bounds. "
    "After an exception all jets passed in are unchanged and usable. "
    "Repeated calls do not leak.",
    ["inputs", "histories", "fault_sequences"],
    "all callables of the module x argument tuples from a hostile pool x histories",
    "Tests try a handful of wrong sizes in constructors; the module is built with assertions off, so an unchecked index is silent corruption.",
    [B, S, M, H], [("argument casters", B), ("size checks", H + " check_equal_size, check_valid_size, size_from_data_length")], None,
    ["AddressSanitizer/UBSan reports, exception or value, operand data before/after, heap growth"])

add("C22", "variables, f, d and dd seed and extract consistently",
    "In Python, hj.variables(values, order) returns one object per value in order - floats for order 0, jets of the requested order over exactly len(values) variables otherwise - with the given values, unit gradients and zero Hessians, for any number of values, and refuses other orders. "
    "hj.f, hj.d and hj.dd applied to a jet, a number, or any nested array of jets or of numbers return arrays of the same shape holding every element's value, gradient and Hessian (numbers contribute themselves to f, and what has no first or second derivatives contributes an empty gradient or a 0 x 0 Hessian); f also works when jets and numbers are mixed and loses no precision.",
    ["inputs", "configurations"],
    "all lengths 0..40, orders -2..5, shapes up to 3-D, mixed element kinds",
    "Tests use 3 and 20 values and one-dimensional lists of two jets; arrays mixing jets and plain integers (typical of object arrays initialised with zeros) are not tested.",
    [M], [("variables dispatch on length", M + " variables"), ("np.vectorize extractors", M + " f, d, dd")], None,
    ["type, size, data of each seeded object; extracted arrays vs element-wise reads"])

add("C23", "Text output shows the value and, for sparse jets, every partial",
    "Streaming or to_string of a dense jet in C++, and repr/str in Python, give the value formatted as a C++ stream formats it followed by 'hj', irrespective of derivatives. "
    "For a sparse jet the text is the value followed by one signed term 'c*dname' per variable name, each name exactly once. "
    "Formatting changes neither the jet nor the format settings of the stream.",
    ["inputs"],
    "all values incl. negative, tiny, huge, NaN, inf; all name sets; stream format flags",
    "One value of one dense jet is printed in a test.",
    [H, B, S], [("operator<<, to_string", H + " DDScalar, SScalar"), ("__repr__", B + ", " + S)], None, ["parsed text vs components"])

add("C24", "The no-exceptions build computes the same results",
    "Compiling the C++ library with HYPERJET_NO_EXCEPTIONS (with or without NDEBUG) gives, for every program of valid calls on dense and sparse jets, the same results as the default build, and no internal assertion fails. "
    "With assertions on, an operation on dynamic jets of different sizes, a displacement, matrix, data or padded size that does not fit, an index out of range, a negative size, an invalid data length and an unknown matrix mode stop at an assertion instead of computing or throwing.",
    ["configurations", "programs"],
    "all valid programs x {exceptions, no exceptions} x {assert, NDEBUG}",
    "No test is built with HYPERJET_NO_EXCEPTIONS.",
    [H], [("throw_exceptions() branches", H)], None, ["result digests across the four builds; death of invalid calls"])

add("C25", "The Python class family is complete and consistent",
    "In Python, DScalar and DDScalar are dynamic, DnScalar and DDnScalar (n = 0..16) have exactly n variables, and order, is_dynamic, size and len say so; the scalar, data, gradient and Hessian constructors and the empty, zero, constant, variable and variables factories give exactly the requested jet in every class, with positional and keyword arguments and defaults. "
    "pad_left, pad_right and resize exist exactly on dynamic classes, where padding embeds the old variables unchanged. "
    "Second-derivative accessors exist on every second-order class.",
    ["configurations", "inputs"],
    "36 classes x all constructors/factories x argument forms x values",
    "Tests cover D2, DD2, DScalar and DDScalar with two variables.",
    [B, M] + ["python/src/bind_ddscalar_*.cpp"], [("class binding", B + " bind<T>"), ("one file per size", "python/src/bind_ddscalar_*.cpp")], None,
    ["attributes and data of each constructed object in each class"])

add("C26", "numpy array programs over jets equal element-wise evaluation",
    "In Python, numpy programs over object arrays of jets (ufuncs, broadcasting with float arrays, sum, prod, dot, matmul, cross, norm, einsum-free linear algebra, in-place array operators, comparisons, min/max, sorting) give element by element the value and derivatives of evaluating the formula on plain jets, which in turn are the true derivatives of the numpy function. "
    "Input arrays are not changed by out-of-place functions. The same program (also with sum, sorted, min, max, reduce of Python) gives the same values and derivatives with dynamic and static jets of either order and with sparse jets.",
    ["programs", "inputs"],
    "random array programs over arrays of 1..4 dimensions of jets of static and dynamic classes and of sparse jets",
    "Tests call one ufunc at a time on scalars and one np.dot.",
    [B, H], [("method names numpy dispatches to", B + " bind<T>"), ("reflected operators", B)], None,
    ["each element of each result vs reference jets"])

add("C27", "Jets are regular values: copies, moves, swaps and containers preserve them",
    "In C++, copying, copy- and move-assigning (also onto itself, over a jet of another size, or from a jet in the same container), moving, swapping, passing by value and storing dense and sparse jets in standard containers, wrappers and algorithms (vector growth and insertion, sort, rotate, unique, map, optional, variant, ...) leaves every jet with exactly the value, size, names and derivatives it stands for. "
    "Assignment returns its target, a copy shares nothing with its source, and a moved-from jet can be assigned to and destroyed.",
    ["histories"],
    "all histories of copying, moving, swapping and container operations on jets of equal and different sizes, dense static, dense dynamic and sparse",
    "Tests construct jets and compute with them; no test assigns over another size, swaps, sorts or lets a container reallocate.",
    [H], [("implicit special members over size and data", H + " DDScalar m_size, m_data"), ("names and partials", H + " SScalar m_f, m_d"), ("ordering used by algorithms", H + " operator<")], DATA,
    ["every jet of the container against a shadow after each step"])

add("C28", "The value of a result is plain arithmetic on the values, everywhere",
    "In C++ and Python, for dense and sparse jets, the value of the result of every operation, elementary function and compound assignment is what the same operation gives for the plain values, up to rounding, whatever the derivatives of the operands are. "
    "This includes values where the operation has no derivative or is not defined (poles, branch points, arguments outside of the domain, zeros, infinities, NaN), where the result is the same zero, infinity or NaN and nothing is thrown. Sums, differences, products, negation and absolute values are the correctly rounded ones, and roots of squares, logarithms of powers of their base and hypotenuses of Pythagorean triples are exact. "
    "So an algorithm that looks at values only takes the same path with jets as with numbers.",
    ["inputs"],
    "all operations x all values of the scalar type incl. NaN, infinities, subnormals, extremes, outside of the domain x arbitrary derivatives incl. non-finite ones x dense/sparse x C++/Python",
    "Tests stay at ordinary values inside of the domains.",
    [H, B, S], [("value formulas of every operation", H + " DDScalar, SScalar"), ("bindings", B + ", " + S)], None,
    ["value of every result against std:: and numpy on plain numbers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
