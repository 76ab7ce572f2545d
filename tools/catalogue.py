NUMORACLE = ("Runtime monitoring of thousands of seeded random executions of the real code; the oracle is an independent "
             "double/40/80-digit evaluator written for this project (mpmath arithmetic), which reports a difference only "
             "when both precisions agree on it. ")
prop(
    "C01", "Building an expression keeps its mathematical value",
    "For every expression a user writes with numbers, symbols, pi, e and the library's operators and functions (or with "
    "its constructors directly), the automatically normalised object that comes back has the same real value as what was "
    "written, at every real assignment of the symbols where what was written is defined. Building never fails for something "
    "that has a value. (Documented convention kept aside: a power of a power or of a product is rewritten as if its base "
    "were non-negative when an outer exponent is not an integer, and an inverse trig function of the same trig function is "
    "taken to be its argument.)",
    ["inputs"], "all expression trees over the supported operators, and all real points in their domain",
    "the rewriting that happens in constructors depends on the shape of every pair of neighbours; tests fix about a hundred "
    "hand-written shapes and compare printed forms, so no test speaks about an arbitrary tree or a point of its domain",
    [EX], [("constructor normalisation of sums, products and powers", EX + ": Sum/Prod/Power __new__, _combine_like_terms*"),
           ("numeric powers", EX + ": _accumulate_power"), ("Abs, log, trig constructors", EX)],
    "reference-model monitor: independent numeric evaluation of recipe vs built tree",
    NUMORACLE + "Trusts the evaluator and the generator's reach; points where a recorded documented assumption is false are "
    "not used.",
    ["return value of every operator/constructor"])
prop(
    "C02", "Trigonometric functions of every argument are exact",
    "For every argument, a trigonometric or inverse trigonometric function applied to it returns something equal in real "
    "value to the true function: every rational multiple of pi (any size, sign and denominator), sums with multiples of pi, "
    "negated arguments, floats, and compositions such as sin(acos(u)). Where the function has a pole the result is infinite "
    "or undefined, never a finite number.",
    ["inputs"], "all arguments of the nine functions: rational multiples of pi, shifted symbolic arguments, nested inverse functions",
    "tests look up a few special angles; the tables, the period reduction and the composition rules must agree for all "
    "rational multiples and all nine functions at once",
    [EX], [("special value tables, period reduction, composition table", EX + ": TrigFunction"),
           ("parity", EX + ": sin/cos/tan __new__")],
    "reference-model monitor over exhaustively listed angles plus random arguments",
    NUMORACLE + "Quick covers all multiples with denominators up to 24 over several periods for every function.",
    ["return value of the nine constructors"])
prop(
    "C03", "Arithmetic on exact numbers is exact",
    "Arithmetic, powers and comparisons on integers and fractions of any size give the exact mathematical result in lowest "
    "terms: sums, products, quotients and integer powers are single rational numbers, a rational power that has a rational "
    "value becomes exactly that rational, and any other root stays exact (never a rounded value). Comparing and combining "
    "numbers agrees with Python's own exact rational arithmetic.",
    ["inputs"], "all integers and fractions of any magnitude, all exponents, all operation sequences",
    "a rounding error appears only for large numerators, particular perfect powers or sign/parity combinations; tests try a handful of small ones",
    [EX], [("rational operators", EX + ": Rat"), ("folding of constants", EX + ": accumulate, _accumulate_power, _integer_power"),
           ("casting", EX + ": _cast, Const")],
    "reference-model monitor: lockstep with fractions.Fraction and an independent integer-root model",
    "Runtime monitoring of random operation sequences on exact numbers against Python's Fraction and an integer-root model; "
    "assurance is limited to the magnitudes and sequences generated (up to several hundred digits).",
    ["values of numeric nodes"])
prop(
    "C04", "One form per value: order, grouping and like terms do not matter",
    "Adding the same expressions in any order and grouping gives equal results that print the same, and so does multiplying "
    "them (factors with a negative coefficient next to sums, and rational numbers next to their own roots, excepted); like "
    "terms and equal bases are always collected, with exact coefficients and exponents. Every expression any operation "
    "returns is canonical: no sum directly in a sum, no product directly in a product, no zero terms or unit factors, no "
    "uncollected like terms. Equality is symmetric, negated by !=, true for the same thing built twice, and never true of "
    "two expressions with different values.",
    ["inputs", "histories"], "all multisets of operands, all orders and groupings of combining them, all results of public operations",
    "there are n! orders and many groupings of n operands and tests use one; the code elsewhere silently relies on the invariants",
    [EX], [("flattening, like terms, sorting", EX + ": Associative, _combine_like_terms, _combine_like_terms_sum"),
           ("equality", EX + ": dataclass equality, Num.__eq__")],
    "hooked-state invariants on every node plus dictionary reference models and permutation comparison",
    "Runtime monitoring: structural comparison under random permutations/groupings, dictionary models of monomials and "
    "exponents, an invariant walker over all nodes of results, and numeric refutation of wrong equalities.",
    ["structure of every returned tree"])
prop(
    "C05", "Expressions are immutable",
    "No public operation changes an expression that already exists, a list or dictionary the caller passed in, or an "
    "expression held by a table of the library: whatever is computed, in whatever order, every expression obtained earlier "
    "still has the same structure, prints the same, and has the same cached facts as a freshly built copy of it.",
    ["histories"], "all sequences of public operations over shared expressions",
    "sharing bugs need an earlier object to be looked at again after an unrelated later operation; tests build everything fresh",
    [EX, "src/simpy/regex.py", "src/simpy/simplify/simplify.py", "src/simpy/integration.py"],
    [("lists of terms handed from one node to another", EX + ": Sum/Prod __new__, flatten, children"),
     ("cached properties", EX + ": cast, symbols, is_subtraction, repr caches"),
     ("rewriting in place", "src/simpy/simplify/simplify.py, src/simpy/regex.py")],
    "monitor on hooked state: structural fingerprints of all live expressions, argument lists and module tables after every operation",
    "Runtime monitoring of random programs of 12-45 operations over a shared pool; after every step the fingerprints of all "
    "pool members, caller-owned lists and module tables are compared. Assurance is limited to the programs generated.",
    ["every live Expr after every operation"], [("terms / cached attributes", "structure of a node", EX)])
prop(
    "C07", "expand() keeps the value and finishes the job",
    "expand() returns an expression with the same real value as the original wherever the original has one, for sums, "
    "products, integer powers (multinomial) and fractions of sums at any depth; the terms of the result have no sum as a "
    "factor of a numerator and no positive integer power of a sum; for polynomials (and negative powers of symbols) the "
    "result is the exact expanded polynomial, with every coefficient right. When expandable() is false there is nothing to "
    "multiply out. Calling it twice gives the same result, and no symbol appears that was not there.",
    ["inputs"], "all expressions",
    "tests expand about twenty hand-written expressions; a wrong multinomial coefficient or sign appears only at some exponents and shapes",
    [EX, "src/simpy/combinatorics.py"],
    [("distribution", EX + ": Prod.expand, Power.expand, Sum.expand"), ("multinomial coefficients", "src/simpy/combinatorics.py")],
    "reference-model monitor: numeric evaluation and an exact dictionary polynomial model",
    NUMORACLE + "Polynomials are also compared exactly with a dictionary model.",
    ["return value of expand(), expandable()"])
prop(
    "C08", "simplify() and its rewriters keep the value",
    "simplify(), and each of the rewriters it is made of (Pythagorean identities, reciprocal and ratio identities, product to "
    "sum, expand_logs, logarithm and fraction combination), returns an expression with the same real value as the one it "
    "was given wherever that has one (splitting a logarithm may lose points, never gain a wrong value), never invents a "
    "symbol, never changes its input, and never raises on an expression that has a value.",
    ["inputs"], "all expressions",
    "identities hold for every argument and coefficient, and pattern matching may fire on something that only looks similar; "
    "tests check the shapes the patterns were written for",
    ["src/simpy/simplify/simplify.py", "src/simpy/simplify/product_to_sum.py", "src/simpy/regex.py"],
    [("rewriters", "src/simpy/simplify/simplify.py"), ("product to sum", "src/simpy/simplify/product_to_sum.py")],
    "reference-model monitor: numeric evaluation before and after each rewriter",
    NUMORACLE + "Inputs are built around each identity (with perturbed coefficients and arguments) as well as at random.",
    ["return value of simplify and of every named rewriter"])
prop(
    "C09", "factor() keeps the value and pulls out what the terms share",
    "factor() of any sum returns an expression with the same real value wherever the sum has one, with every power of a "
    "symbol that all terms share (the smallest exponent, negative and fractional ones included) pulled out, and the "
    "smallest coefficient pulled out when of any two coefficients one is an integer multiple of the other; it never "
    "invents a symbol, never changes the sum, never raises.",
    ["inputs"], "all sums",
    "common factors depend on every pair of terms, their exponents and signs; tests use one or two terms",
    [EX],
    [("factor", EX + ": Sum.factor"), ("common factors of the terms", EX + ": Sum.factor, Prod/Power helpers")],
    "reference-model monitor: numeric evaluation plus an independent reading of shared factors",
    NUMORACLE, ["return value of factor()"])
prop(
    "C10", "diff() is the derivative",
    "For every expression and every variable, diff() returns the derivative: an expression whose real value is the "
    "derivative of the original wherever the original is differentiable, zero for an expression without the variable, with no new symbols, "
    "whether called as a function or a method; also for a power whose base and exponent both contain the variable. "
    "diff(f, None) differentiates by the only symbol of f and raises ValueError when f has no symbol or several.",
    ["inputs"], "all expressions and variables",
    "chain, product and power rules combine; tests differentiate a dozen expressions",
    [EX], [("diff methods of every node", EX + ": *.diff")],
    "reference-model monitor: forward-mode automatic differentiation of the recipe",
    NUMORACLE + "The reference derivative is computed by dual numbers from the recipe, not from simpy's tree.",
    ["return value of diff"])
prop(
    "C11", "An indefinite integral differentiates back to its integrand",
    "Whenever integrate(f, x) returns an answer, the answer contains no variable that is not in f or x, and its derivative by "
    "x equals f at every real point where f is defined (where the answer passes through the logarithm or root of a negative "
    "number, its complex derivative does). An answer is never wrong: what cannot be solved gives None.",
    ["inputs"], "all integrands, whichever transforms, table entries and search order solve them",
    "the answer is put together by a search over some twenty transforms, each of which must push the solution back right; tests "
    "integrate about seventy fixed integrands and each takes one path",
    ["src/simpy/integration.py", "src/simpy/transforms.py", "src/simpy/integral_table.py", "src/simpy/polynomial.py", "src/simpy/linalg.py"],
    [("search and going back up", "src/simpy/integration.py: Integration, _go_backward"),
     ("transforms", "src/simpy/transforms.py: *.forward/backward"), ("table of standard integrals", "src/simpy/integral_table.py")],
    "reference-model monitor: forward-mode derivative of the answer against the integrand, plus the recorded search tree",
    NUMORACLE + "The derivative is taken by the monitor's own dual-number arithmetic. Integrands come from 14 families the "
    "library is built for, their sums, products of substitution patterns, and random expressions.",
    ["return value of integrate()", "Integration.logger"])
prop(
    "C12", "A definite integral is the signed area under its integrand",
    "integrate(f, (x, a, b)) returns the integral of f from a to b: for numbers a and b between which f is continuous the "
    "value equals the area found by numerical quadrature; swapping the bounds flips the sign, equal bounds give zero, "
    "splitting the interval at a middle point changes nothing; with symbols in the bounds, the derivative by such a symbol is f "
    "at the bound times the bound's derivative. No variable of integration is left in the answer (a symbol of that name inside a bound is a different, free one). Python numbers are accepted as bounds, and "
    "the variable may be left out when it is the only one.",
    ["inputs"], "all integrands and bounds, numeric or symbolic, in either order",
    "the area depends on signs, branches and special values at the bounds; tests compute about ten definite integrals with nice bounds",
    ["src/simpy/integration.py", "src/simpy/transforms.py", EX],
    [("bounds", "src/simpy/integration.py: integrate, integrate_bounds"), ("substituting the bounds", EX + ": subs")],
    "reference-model monitor: Gauss-Legendre quadrature of the integrand with refinement and off-centre splits",
    NUMORACLE + "Quadrature is believed only when refinement and two off-centre splits agree.",
    ["return value of integrate()"])
prop(
    "C13", "Every step of the integrator is an equivalence",
    "Each step the integrator takes from a problem to its sub-problems keeps the integral: the integrand equals the pulled-out constant times the "
    "new integrand at u(x) times du/dx for a substitution or a rewriting, the sum of the sub-problems for a split, and the "
    "derivative of uv plus the remaining integrand for integration by parts; a substitution leaves nothing in the old variable. "
    "This holds for every transform that says it applies and for abandoned branches of the search as well as the ones that led to the answer.",
    ["inputs", "histories"], "all problems a transform accepts, all branches of the search",
    "a wrong step is invisible while another branch gives the answer; the tests only see the branch that won",
    ["src/simpy/transforms.py", "src/simpy/integration.py", "src/simpy/polynomial.py", "src/simpy/linalg.py"],
    [("forward and backward of every transform", "src/simpy/transforms.py: HEURISTICS, SAFE_TRANSFORMS"),
     ("search tree", "src/simpy/integration.py"), ("trig substitution", "src/simpy/transforms.py: InverseTrigUSub, TrigUSub2")],
    "online trace checker: every recorded parent/child step of the search tree is evaluated on both sides",
    NUMORACLE + "A step is read as a black box by pushing the solutions 1 and u back through it, so it does not depend on how "
    "the transform is written. Covers whole searches and single transforms applied directly.",
    ["Integration.logger", "Node tree"], [("Node.children/solution", "sub-problems of the search", "src/simpy/transforms.py: Node")])
prop(
    "C14", "integrate() always answers, and solves the textbook families",
    "For any expression that has a value somewhere, integrate() returns an expression or None, without an exception and within "
    "seconds, and leaves its argument unchanged; when the variable is left out it answers as for the only symbol and raises ValueError if there is not "
    "exactly one. It does solve, whatever the numbers in them are, and whatever sums of them are asked: polynomials and powers of x "
    "and of linear functions, sin, cos, tan, cot, sec and their squares of linear functions, products of powers of sin and "
    "cos, products of sines and cosines of multiples of x, tan^n sec^2, exponentials, x^n times an exponential, sine or cosine, e^x sin bx, "
    "logarithms and inverse trig functions, rational functions over one or two distinct linear factors, 1/(1 + b^2 x^2), sqrt(1 - x^2) and its reciprocal, "
    "and substitutions x^(n-1) f(x^n) and cos(x) f(sin(x)). Renaming the variable or multiplying by a number never changes "
    "whether an integral is solved.",
    ["inputs"], "all expressions; all numeric parameters of the families; all variable names",
    "a search that loses a transform for some coefficients still passes tests that use other coefficients",
    ["src/simpy/integration.py", "src/simpy/transforms.py", "src/simpy/integral_table.py"],
    [("search", "src/simpy/integration.py: Integration._cycle, _get_next_node*"), ("when transforms apply", "src/simpy/transforms.py: *.check"),
     ("table", "src/simpy/integral_table.py")],
    "monitor of outcomes: exceptions, CPU time, solved/unsolved against the family specification and metamorphic partners",
    "Runtime monitoring of seeded random calls; sums of up to three family members in depth-first and breadth-first mode. The correctness of "
    "the answers themselves is C11. A None is confirmed under a slowed clock before it is reported, so a busy machine cannot raise an alarm.",
    ["return value, exceptions and CPU time of integrate()"])
prop(
    "C06", "An answer depends only on the question",
    "What any operation of the library returns (building, simplify, expand, factor, diff, integrate with or without bounds and by any variable, subs, "
    "evalf, printing, LaTeX, equality, pattern matching, replacing, polynomials) depends only on its arguments: it is the same structure and "
    "text whatever was computed earlier in the process, however often the same expression object was used or asked before, with equal expressions "
    "built separately, and whatever the state of the random number generator. (The integrator's time limit is the only exception.)",
    ["histories", "inputs"], "all histories of operations before the question, all random states",
    "caches and shared objects make an answer wrong only after a particular earlier question; tests ask each question once in a fixed order",
    [EX, "src/simpy/integration.py", "src/simpy/transforms.py", "src/simpy/regex.py", "src/simpy/simplify/simplify.py"],
    [("caches on nodes", EX + ": _symbols_cache, _nesting_cache, _expand_cache, _special_values_cache"),
     ("random keys of wildcards", "src/simpy/regex.py: Any_, random_id"), ("tables of patterns", "src/simpy/simplify/simplify.py")],
    "differential monitor: the same question asked of a long-lived process and of a process forked before anything was computed",
    "Runtime monitoring of random programs of questions over shared objects; each compared answer comes from a fresh fork with another random state. "
    "Assurance is limited to the programs generated.",
    ["return value of every public operation in both processes"],
    [("node caches", "answers remembered on an expression", EX)])
prop(
    "C15", "Questions about an expression are answered truthfully",
    "symbols() lists exactly the symbols that occur, each once; contains() and has() say whether a symbol or a class occurs; nesting by a symbol is "
    "zero exactly when it does not occur; an expression does not depend on a symbol it does not contain (derivative zero, substitution without effect); is_int is "
    "true exactly for integers; numerator and denominator of a product have no negative powers or fractions and their quotient is the product; "
    "a constant factor taken out contains no symbol, nothing constant stays behind in a product, and the two multiply to the original; base and exponent give the power back; "
    "eq_with_var recognises an expression with its variable renamed and nothing else. This holds for the result of every operation.",
    ["inputs"], "all expressions, all symbols, all chains of operations producing them",
    "the integrator chooses and checks its steps by these answers; tests ask a few of them on small expressions",
    [EX, "src/simpy/regex.py", "src/simpy/utils.py"],
    [("symbols, contains, has", EX + ": Expr"), ("parts of a product", EX + ": Prod.numerator_denominator, remove_const_factor"),
     ("nesting", EX + ": nesting"), ("up to the variable", "src/simpy/utils.py: eq_with_var, count_symbols")],
    "reference-model monitor: answers recomputed from the tree and from values",
    "Runtime monitoring of seeded random expressions after chains of up to three operations; every answer is recomputed independently.",
    ["return values of the query methods"])
prop(
    "C16", "subs() is simultaneous substitution",
    "subs({name: value, ...}) replaces every occurrence of the named symbols at once: the result has, at every real point, the value the original has "
    "with those symbols set to the values of the replacements (numbers of any Python kind or expressions, which may mention the replaced symbols: swaps "
    "and shifts work); no replaced symbol is left unless a replacement mentions it; other symbols stay; names that do not occur and the identity change nothing; neither the expression "
    "nor the dictionary is modified; it never fails where the result has a value. evalf() with the same mapping puts in the same values, just as simultaneously.",
    ["inputs"], "all expressions and dictionaries",
    "the result is rebuilt through every constructor with new neighbours; tests substitute a few numbers",
    [EX], [("subs of every node", EX + ": *.subs")],
    "reference-model monitor: value of the original at the substituted point",
    NUMORACLE + "Replacements include special values (0, 1, perfect powers, multiples of pi) and swaps.",
    ["return value of subs()"])
prop(
    "C17", "evalf() gives the number",
    "evalf() with every symbol given (as a Python number or an expression) returns a single number equal to the value of the expression up to rounding, wherever "
    "that is real and well-conditioned: for all functions, constants, logarithms to any base, roots and powers; symbols that are not given stay, the others do not, and the "
    "value at any further point is the same.",
    ["inputs"], "all expressions and all points of their domain",
    "each node evaluates itself by a different path (exact folding, floats, constants); tests evaluate a few expressions",
    [EX], [("evalf of every node", EX + ": *._evalf"), ("floats in constructors", EX + ": accumulate, _accumulate_power, log, TrigFunction")],
    "reference-model monitor: independent evaluation in double and 40-digit precision",
    NUMORACLE, ["return value of evalf()"])
prop(
    "C18", "What is printed can be read back",
    "The text an expression prints as (repr/str), read by the ordinary rules of notation (^ before * and /, those before + and -, a leading minus "
    "over its whole term, brackets, |...|, function names, logN( and log[base=...]( ), has the same value as the expression at every real point and the same symbols; so two expressions with different values never print alike. Printing "
    "never fails, and gives the same text every time.",
    ["inputs"], "all expressions that have a real value somewhere",
    "brackets are needed for particular combinations of neighbours; tests compare a few texts",
    [EX], [("__repr__ of every node", EX + ": *.__repr__")],
    "reference-model monitor: an independent reader of the notation and numeric comparison with the tree",
    NUMORACLE + "Expressions put every kind of number, sign, fraction, power, function and name in every position.",
    ["repr()"])
prop(
    "C19", "The LaTeX of an expression means that expression",
    "latex() of every expression (method or function) is well-formed LaTeX (braces, \\left and \\right match, no double superscript, a command takes one character or a braced group) that, "
    "read by the ordinary rules, has the same value as the expression at every real point and the same symbols.",
    ["inputs"], "all expressions that have a real value somewhere",
    "brackets and braces are needed for particular combinations of neighbours; tests compare a few texts",
    [EX, "src/simpy/latex.py"], [("latex of every node", EX + ": *.latex"), ("brackets and groups", "src/simpy/latex.py")],
    "reference-model monitor: an independent LaTeX reader and numeric comparison with the tree",
    NUMORACLE + "Expressions put every kind of number, sign, fraction, power, function and name in every position.",
    ["latex()"])
prop(
    "C21", "Replacing and counting find every occurrence and nothing else",
    "replace(e, old, new), replace_factory, kinder_replace and replace_class return an expression whose value is that of e with every outermost occurrence of "
    "what is looked for given the value of its replacement, at any depth and in every position (terms, factors, bases, exponents, arguments, "
    "logarithm bases); several replacements at once do not see each other's results; count, general_count and general_contains agree with the "
    "tree; what does not occur changes nothing; the argument is never modified.",
    ["inputs"], "all expressions, all things to look for and put in",
    "an occurrence in a rare position (a base of a logarithm, an exponent) is missed silently",
    ["src/simpy/regex.py"], [("replace*", "src/simpy/regex.py: replace, replace_factory_list, kinder_replace_many, replace_class"),
                             ("count", "src/simpy/regex.py: count, general_count, general_contains")],
    "reference-model monitor: evaluation of the original tree with occurrences overridden",
    NUMORACLE, ["return values of replace*, count*"])
prop(
    "C20", "A pattern match is right, and is found",
    "When eq(expr, query) reports a match, putting what every wildcard matched back into the query (times the reported factor when asked up to a factor, plus the reported rest "
    "when asked up to a sum) gives an expression with the value of expr; every wildcard of the query is reported, all its occurrences match the same thing, no term of expr accounts for two "
    "terms of the query, and the rest consists of the remaining terms. A match that is there position by position (up to a sum: with a different term of expr for each term of the query, in any order) is "
    "found, whatever the wildcards are called; so is a product of fixed factors and one factor with wildcards, in whatever order expr has them; and so are 1 + tan^2, 1 - sin^2 and the other Pythagorean patterns up to a factor and a sum. A query without wildcards matches exactly what it equals. The order of the two arguments does not matter and neither is modified.",
    ["inputs"], "all expressions and all queries (up to a factor: queries whose coefficients are 1 and -1)",
    "the matcher divides, collects and reconciles candidate matches; which candidate it meets first depends on term order; tests match a dozen expressions",
    ["src/simpy/regex.py"], [("eq, Eq, consolidate, divide_anys", "src/simpy/regex.py")],
    "reference-model monitor: value of the query with the reported matches put in; an independent position by position matcher with backtracking",
    NUMORACLE, ["return value of eq()"])
prop(
    "C22", "Polynomials and matrices are handled exactly",
    "is_polynomial() accepts every polynomial with rational coefficients in one variable however it is written, to_const_polynomial() gives exactly its coefficients, lowest first, without the variable in them, and polynomial_to_expr() turns them back "
    "into that polynomial; for any other expression either the coefficients given describe it exactly or it is refused; rid_ending_zeros() drops exactly the leading zero "
    "coefficients; invert() gives the exact inverse of a 2x2 matrix and None exactly when it is singular; polynomial division applies exactly when the numerator's degree is at least the "
    "denominator's and gives the quotient and remainder of Euclidean division; partial fractions of a quotient over two different linear factors are found, have constant numerators and the same value. No argument is modified.",
    ["inputs"], "all polynomials, coefficient lists, 2x2 matrices, quotients of polynomials",
    "coefficient bookkeeping goes wrong for particular degrees, gaps, signs and fractions; tests read one polynomial and divide two",
    ["src/simpy/polynomial.py", "src/simpy/linalg.py", "src/simpy/transforms.py"],
    [("reading and writing", "src/simpy/polynomial.py"), ("inverse", "src/simpy/linalg.py"), ("division and splitting", "src/simpy/transforms.py: PolynomialDivision, PartialFractions")],
    "reference-model monitor: exact polynomial arithmetic on lists of Fractions",
    "Expected lists are computed independently from the recipe. ", ["return values of the functions", "sub-problem made by the two transforms"])
prop(
    "C23", "simplify() applies the identities it is for",
    "simplify() turns c sin^2 u + c cos^2 u into c for every u and every common factor c, wherever in an expression it occurs and whatever else is added to it; it turns 1 + tan^2 u, 1 + cot^2 u, 1 - sin^2 u and 1 - cos^2 u (with either sign), "
    "sec^2 u - 1 and csc^2 u - 1 into the square they equal, with further terms added or not, also inside roots, functions, denominators and exponents; it turns negative powers of trigonometric functions into powers of the reciprocal function and "
    "sin/cos, cos/sin, sin sec, cos csc into tan and cot; it applies the addition theorems when they merge two products into one function, sec^2 - tan^2 = 1, and cancels polynomials that are equal. The result has no more terms and functions than the simplified form, and its value.",
    ["inputs"], "all arguments u, common factors c, further terms and enclosing expressions",
    "a rewriter that stops matching for some coefficient, argument or neighbour leaves a correct but unsimplified answer, which equality of answers relies on; tests simplify a dozen fixed expressions",
    ["src/simpy/simplify/simplify.py", "src/simpy/simplify/product_to_sum.py"],
    [("Pythagorean rewriters", "src/simpy/simplify/simplify.py: _pythagorean_perform"), ("reciprocals and ratios", "src/simpy/simplify/simplify.py: _reciprocate_trigs, _combine_trigs"),
     ("product to sum", "src/simpy/simplify/product_to_sum.py")],
    "specification monitor: number of terms and functions of the result against the known simplified form, and numeric comparison",
    NUMORACLE, ["return value of simplify()"])
prop(
    "C24", "Infinite and undefined values are never mistaken for finite ones",
    "Arithmetic on numbers some of which are infinite follows extended real arithmetic, whatever the order and grouping: a finite number plus an infinity is that infinity, "
    "inf - inf and 0 * inf are undefined (nan) and stay so, a product or power with an infinity has the right sign, 1/inf is zero, a non-zero number divided by zero is an infinity of its sign and 0/0 is undefined; comparisons "
    "order -inf below and inf above every number. Substituting an infinity, or a number at which the expression has a pole, by subs() gives the value the expression has in that arithmetic. "
    "An improper integral (an infinite bound on either side, bounds in either order) whose answer is a number is the true area, and is infinite when the area is.",
    ["inputs"], "all arithmetic on finite and infinite numbers, all functions and points, all improper integrals the library answers",
    "each constructor and accumulator has its own branch for infinities; a missing sign or an early cancellation turns a divergent quantity into an ordinary number; tests have four such lines",
    [EX, "src/simpy/integration.py"],
    [("accumulation of infinite numbers", EX + ": accumulate, _accumulate_power, Infinity, NegInfinity, NaN"), ("powers of and to infinities", EX + ": Power.__new__"),
     ("bounds", "src/simpy/integration.py: integrate_bounds")],
    "reference-model monitor: extended real arithmetic written independently, and numerical areas of improper integrals",
    "Runtime monitoring of thousands of seeded executions; results are compared with an extended real arithmetic written for this project (rv/ext.py), improper integrals with "
    "quadrature over growing intervals, believed only when it settles. ", ["return values of operators, comparisons, subs(), integrate()"])
prop(
    "C25", "What is neither a number nor an expression is refused",
    "Wherever an expression is expected (either side of an operator, an operand of a sum, product or power, the argument or base of a function, a value for a symbol in subs or evalf, "
    "an integrand or a bound), something that is neither a number nor an expression (None, text, bytes, a complex number, a list, tuple, set or dict, a function, a class, a Decimal, any other object; truth values are left open) raises an exception at once; "
    "so do malformed bounds. It never ends up inside a result, is never silently read as something else, and no operand is changed by the attempt. The same operation with a number in that place works.",
    ["inputs"], "all operations, all positions, all kinds of foreign values, all expressions as the other operands",
    "a foreign value that slips in surfaces much later, in another operation (a failed integrate() gives None, which must not vanish in a sum); tests try none",
    [EX, "src/simpy/integration.py"], [("casting", EX + ": _cast, cast"), ("bounds", "src/simpy/integration.py: integrate")],
    "specification monitor: every public entry given foreign values in every position; operands fingerprinted before and after",
    "Runtime monitoring of thousands of seeded executions. The foreign values are of 24 kinds; objects that imitate expressions are not tried. ", ["exceptions raised by operators, constructors and public functions"])
prop(
    "C26", "Watching an integration changes nothing and shows what happened",
    "integrate() with debug=True, with a Logger attached, or with its search tree printed gives exactly the answer it gives without, and leaves its argument and the tree as they were; plain integrate() prints nothing. "
    "Printing never fails: with debug=True the tree is shown once and the debugger entered once, every node that the options ask for is shown exactly once, in order, with its depth, expression and transform, "
    "finished or failed branches only when asked for, and the solution when there is one; the same question prints the same lines whatever was printed before. An answer is given only when the search tree is solved and None only when every alternative in it has failed (or time ran out). "
    "A Logger holds one record per integrand with the integrand and a time within the time spent, dump() writes them sorted by time and writes nothing else; debug_repr() gives the structure of an expression, down to its leaves.",
    ["inputs"], "all integrands, breadth first or not, all display options, all sets of logged integrals",
    "the tools walk whatever tree a search left behind, finished or not; tests never call them",
    ["src/simpy/debug/tree.py", "src/simpy/debug/logger.py", "src/simpy/debug/utils.py", "src/simpy/integration.py"],
    [("printing", "src/simpy/debug/tree.py: print_tree"), ("records", "src/simpy/debug/logger.py: Logger"), ("hooks and give up", "src/simpy/integration.py: Integration.integrate")],
    "online monitor: the answer with and without watching, and the printed tree against an independent walk of the search tree",
    "Runtime monitoring of a thousand seeded integrations; the debugger is replaced by a counter, dump() runs in a scratch directory. ", ["return values of integrate()", "standard output", "search tree", "Logger records and dump file"])
