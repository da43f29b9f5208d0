import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
S='src/carl/'
p('C01','Integer and rational number operations return the mathematically exact result',
 'For all integers and rationals, every arithmetic, rounding, division, remainder, gcd/lcm, power, square-root, number-theoretic property and conversion operation offered on exact numbers returns the value its documented mathematical definition prescribes, independent of operand size and sign. Approximate results (roots, conversions to machine numbers) are enclosing or correctly rounded as documented. Printing a number and parsing it back yields the same number, and malformed text is rejected rather than mis-read.',
 ['inputs'],'all signed integers/rationals incl. 0, ±1, word-size boundaries, multi-limb values; all textual forms',
 'Unit tests check a few dozen small literals; sign combinations, limb boundaries and malformed literals are an unbounded input space.',
 [S+'numbers/adaption_gmpxx/operations.h',S+'numbers/adaption_gmpxx/operations.cpp',S+'numbers/adaption_native/operations.h',S+'numbers/operations_generic.h',S+'numbers/parser/parser.h',S+'numbers/conversion'],
 [('thin wrappers over GMP choosing rounding direction and sign convention',S+'numbers/adaption_gmpxx/operations.h'),('spirit grammar for literals',S+'numbers/parser/parser.h')],
 ['return values of free functions on mpz/mpq and machine integers'])
p('C02','Finite-field numbers, primes and factorisations obey their algebra',
 'Arithmetic on residue-class numbers agrees with integer arithmetic modulo the field size for every operand and every operator form, including in-place forms, inverses and comparisons. The prime generator yields exactly the primes in increasing order, and integer factorisation returns primes whose product is the input.',
 ['inputs','histories'],'all residues, primes and prime powers in range, all operator sequences',
 'Tests use one or two small fields and a handful of values; normalisation errors only show after sequences of in-place operations.',
 [S+'numbers/GFNumber.h',S+'numbers/GFNumber.tpp',S+'numbers/GaloisField.h',S+'numbers/PrimeFactory.h',S+'numbers/FactorizationFactory.h',S+'numbers/adaption_native/EEA.h'],
 [('normalisation modulo p after each operation',S+'numbers/GFNumber.tpp'),('extended Euclid inverse',S+'numbers/adaption_native/EEA.h'),('sieve with growing prime list',S+'numbers/PrimeFactory.h')])
p('C03','Monomial arithmetic agrees with exponent-vector arithmetic',
 'Every monomial operation (product, power, quotient, divisibility, gcd, lcm, squarefree/separable part, degrees, derivative, variable removal) has the effect of the corresponding operation on exponent vectors. Comparing monomials is a total order that is compatible with multiplication and ranks the constant monomial lowest.',
 ['inputs'],'all monomials over any set of variables and exponents',
 'Tests compare a few hand-written monomials; the result depends on merge paths over sorted exponent lists that only some variable/exponent overlaps reach.',
 [S+'core/Monomial.h',S+'core/Monomial.cpp',S+'core/MonomialOrdering.h',S+'core/polynomialfunctions/GCD_Monomial.cpp',S+'core/Term.h'],
 [('merge loops over sorted exponent vectors',S+'core/Monomial.cpp'),('graded lexicographic comparison',S+'core/Monomial.h')])
p('C04','Shared monomials are unique and released exactly once',
 'Whatever sequence of creations and releases happens, two monomials are the same shared object exactly when their exponents agree, distinct live monomials never share an identifier, and no memory or identifier is leaked or used after release. When the library is built thread-safe this also holds under every interleaving of threads that create, combine, compare and drop polynomials, without data races.',
 ['histories','schedules','configurations'],'all create/release histories; all thread interleavings in the thread-safe configuration',
 'The one pool test creates two monomials in one thread; races between a dying and a reborn monomial need particular interleavings.',
 [S+'core/MonomialPool.h',S+'core/MonomialPool.cpp',S+'core/Monomial.cpp',S+'util/IDGenerator.h',S+'util/IDPool.h',S+'core/VariablePool.cpp',S+'util/TermAdditionManager.h'],
 [('weak-pointer pool with hash set and mutex',S+'core/MonomialPool.cpp'),('free-list id generator',S+'util/IDGenerator.h')])
p('C05','Polynomial arithmetic is exact in every operand combination',
 'Adding, subtracting, multiplying, negating, scaling and raising multivariate polynomials, in every combination of polynomial, term, monomial, variable and number operands and in both value and in-place form, yields the polynomial whose coefficients are the mathematically correct ones. Every result is in canonical form: no zero or duplicate terms, leading term and constant term reported correctly, equal polynomials compare equal however they were built.',
 ['inputs','histories'],'all polynomials; all sequences of operations producing them',
 'Tests exercise fixed small polynomials; canonical-form and ordering flags depend on the operation history of the operands.',
 [S+'core/MultivariatePolynomial.h',S+'core/MultivariatePolynomial.tpp',S+'core/MultivariatePolynomial_operators.h',S+'core/Term.h',S+'util/TermAdditionManager.h'],
 [('TermAdditionManager coefficient accumulation',S+'util/TermAdditionManager.h'),('lazy ordering flag / makeMinimallyOrdered',S+'core/MultivariatePolynomial.tpp')])
p('C06','Equality, ordering and hashing of algebraic objects are mutually consistent',
 'For every type that can be compared (variables, monomials, terms, multivariate and univariate polynomials, relations between them and plain numbers), equality is an equivalence, less-than is a strict total order whose six operators agree with each other, and equal objects hash equally. Mixed comparisons between different types give the same answer as converting both sides to the more general type first.',
 ['inputs','histories'],'all pairs and triples of objects, including equal objects built along different paths',
 'Operator concept tests only check that the operators compile; order axioms are statements over all triples.',
 [S+'core/Monomial.h',S+'core/Term.h',S+'core/MultivariatePolynomial_operators.h',S+'core/UnivariatePolynomial.h',S+'core/Variable.h',S+'util/pointerOperations.h'],
 [('generated comparison operator families',S+'core/MultivariatePolynomial_operators.h')])
p('C07','Univariate polynomial arithmetic is exact',
 'Sums, differences, products, powers, scalings, shifts, evaluations and coefficient queries of univariate polynomials over integers, rationals, finite fields and polynomial coefficients give the mathematically correct coefficients with no spurious leading zeros. Degree, leading coefficient, content, primitive part, monic and reversed forms describe exactly that polynomial.',
 ['inputs','histories'],'all univariate polynomials over all coefficient rings, all operator forms',
 'Tests use single examples per operator; cancellation of leading coefficients and mixed operand types span an unbounded input space.',
 [S+'core/UnivariatePolynomial.h',S+'core/UnivariatePolynomial.tpp',S+'core/polynomialfunctions/Content.h',S+'core/polynomialfunctions/PrimitivePart.h'],
 [('stripLeadingZeroes after each operation',S+'core/UnivariatePolynomial.tpp')])
p('C08','Polynomial division satisfies the division identity',
 'Whenever division with remainder of two polynomials is performed, dividend equals quotient times divisor plus remainder with the documented degree or reducibility bound, pseudo-division satisfies the identity scaled by the documented power of the leading coefficient, and exact division reports success exactly when the divisor divides the dividend and then returns the true quotient.',
 ['inputs'],'all pairs of univariate and multivariate polynomials incl. constants, zero dividends, dividends of smaller degree',
 'A few textbook divisions are tested; failure needs particular degree gaps, cancellations or non-divisible inputs.',
 [S+'core/polynomialfunctions/Division.h',S+'core/polynomialfunctions/Remainder.h',S+'core/polynomialfunctions/Quotient.h',S+'core/polynomialfunctions/SPolynomial.h'],
 [('leading-term elimination loops',S+'core/polynomialfunctions/Division.h'),('pseudo remainder recursion',S+'core/polynomialfunctions/Remainder.h')])
p('C09','Gcd, squarefree decomposition and factorisation reconstruct their input',
 'The gcd of two univariate polynomials divides both, is divisible by every common divisor, and its Bezout cofactors (when requested) satisfy the linear identity. Squarefree factorisations, factorisations and squarefree/coprime parts multiply back to the input, with each factor having the claimed property. Bezout coefficients of integers satisfy their identity, and a solvable linear Diophantine equation gets a solution.',
 ['inputs'],'all univariate polynomials with rational/integer coefficients, incl. repeated roots, constants and zero content',
 'Tests check one or two products; whether multiplicities and contents are right depends on root structure of the input.',
 [S+'core/polynomialfunctions/GCD_univariate.h',S+'core/polynomialfunctions/GCD.h',S+'core/polynomialfunctions/Factorization_univariate.h',S+'core/polynomialfunctions/SquareFreePart.h',S+'core/polynomialfunctions/CoprimePart.h',S+'core/polynomialfunctions/PrimitiveEuclidean.h',S+'core/DiophantineEquation.tpp'],
 [('Euclidean algorithm and Yun style factorisation',S+'core/polynomialfunctions/Factorization_univariate.h')])
p('C10','Substitution, evaluation and differentiation commute with polynomial meaning',
 'Substituting numbers or polynomials for variables, evaluating (fully, partially or in nested form), differentiating, extracting coefficients, switching between multivariate and univariate views and Horner restructuring give results that agree, at every point, with the function the original polynomial denotes. Reported variable sets, degrees and per-variable information describe exactly the polynomial.',
 ['inputs'],'all polynomials, all (partial) assignments incl. zero, cyclic substitutions and vanishing leading coefficients',
 'Unit tests cover a handful of substitutions; caches of powers and special cases for small exponents are reached only by particular exponent/assignment combinations.',
 [S+'core/polynomialfunctions/Substitution.h',S+'core/polynomialfunctions/Evaluation.h',S+'core/polynomialfunctions/Derivative.h',S+'core/polynomialfunctions/to_univariate_polynomial.h',S+'core/MultivariateHorner.h',S+'core/polynomialfunctions/Degree.h',S+'core/Variables.h',S+'core/VariableInformation.h'],
 [('power caches during substitution',S+'core/polynomialfunctions/Substitution.h')])
p('C11','Root bounds, root counts and sign variations are sound',
 'Every reported root bound encloses all real roots of the kind it speaks about, Sturm-sequence root counts equal the number of distinct real roots in the interval asked about, sign-variation counts follow Descartes\' rule, and eliminating a root or the zero root leaves exactly the remaining roots. Definiteness verdicts and sum-of-squares decompositions are never wrong.',
 ['inputs'],'all univariate (and for definiteness multivariate) polynomials and all intervals incl. endpoints that are roots',
 'Tests check two bounds for one polynomial; multiplicities, endpoint roots and large coefficients need systematic generation.',
 [S+'core/polynomialfunctions/RootBounds.h',S+'core/polynomialfunctions/RootCounting.h',S+'core/polynomialfunctions/SturmSequence.h',S+'core/polynomialfunctions/SignVariations.h',S+'core/polynomialfunctions/RootElimination.h',S+'core/polynomialfunctions/Definiteness.h',S+'core/polynomialfunctions/SoSDecomposition.h'],
 [('Cauchy/Hirst-Macey/Lagrange formulas',S+'core/polynomialfunctions/RootBounds.h'),('Sturm chain',S+'core/polynomialfunctions/SturmSequence.h')])
p('C12','Interval arithmetic never loses a point',
 'For every operation on intervals (sum, difference, product, quotient, extended quotient, scaling, power, root, absolute value, inverse, elementary functions), if each operand point lies in its interval then the exact real result lies in the resulting interval, for rational and floating-point bounds, for open, closed, half-bounded, unbounded and empty intervals. Sum, difference, product, scaling, additive inverse, absolute value and non-negative integer powers of intervals with rational bounds are exactly the hull of the image, with the right bound types; elementary functions are decided up to the accuracy of the platform math library. No operation leaves the floating-point rounding mode changed.',
 ['inputs'],'all interval operands of every bound-type combination, all contained points incl. endpoints, rounding-critical floats',
 'The large interval tests fix bounds and expectations by hand and rarely combine strict, infinite and degenerate bounds; rounding errors need adversarial floats.',
 [S+'interval/Interval.h',S+'interval/Interval.tpp',S+'interval/operators.h',S+'interval/power.h',S+'interval/exponential.h',S+'interval/trigonometric.h',S+'interval/rounding.h'],
 [('bound-type propagation tables and directed rounding',S+'interval/Interval.tpp')])
p('C13','Interval set operations, predicates and samples match point sets',
 'Membership, subset, intersection, union, difference, complement, hull, ordering and equality of intervals agree with the sets of reals they denote, splitting covers the original without overlap in the interior, and every sampled, centred or approximated point of a non-empty interval lies in it. Empty intervals behave as the empty set everywhere.',
 ['inputs'],'all pairs of intervals over all bound-type combinations',
 'Hand-picked interval pairs; correctness at shared endpoints with different strictness is combinatorial.',
 [S+'interval/set_theory.h',S+'interval/sampling.h',S+'interval/Interval.h',S+'interval/operators.h',S+'interval/BoundType.h'],
 [('bounds_connect / strictest bound type helpers',S+'interval/Interval.h')])
p('C14','Interval evaluation and contraction never discard a solution',
 'Evaluating a polynomial over a box yields an interval containing its value at every point of the box. Contracting a box against a constraint, in any order and any number of times, keeps every point of the box that satisfies the constraint and never enlarges the box.',
 ['inputs','histories'],'all polynomials, boxes (incl. unbounded), relations and contraction sequences',
 'Tests contract three fixed boxes; losing one of several sub-intervals only shows for specific sign patterns.',
 [S+'interval/IntervalEvaluation.h',S+'interval/Contraction.h',S+'interval/Contractor.h',S+'interval/evaluate.h',S+'core/MultivariateHorner.h'],
 [('variable-isolation propagation',S+'interval/Contractor.h'),('Newton operator with splitting',S+'interval/Contraction.h')])
p('C15','Gröbner bases generate the same ideal and reduce canonically',
 'For every set of generators added in any order and over any number of incremental calculations, the computed basis generates exactly the same ideal, every S-polynomial of it reduces to zero, and it is the reduced basis independent of insertion order. Reducing a polynomial against an ideal yields a remainder no term of which is divisible by a leading term, which differs from the input by a member of the ideal, and recorded reasons name a set of inputs sufficient for each element.',
 ['inputs','histories'],'all finite generator sets over the rationals, all add/calculate/copy/reset histories',
 'A few textbook ideals are tested; pair-elimination criteria and elimination of generators only misbehave for specific leading-monomial patterns.',
 [S+'groebner/gb-buchberger/Buchberger.tpp',S+'groebner/gb-buchberger/CriticalPairs.tpp',S+'groebner/GBProcedure.h',S+'groebner/Reductor.h',S+'groebner/Ideal.h',S+'groebner/ideal-ds/IdealDSVector.h'],
 [('Buchberger criteria',S+'groebner/gb-buchberger/Buchberger.tpp'),('heap based reduction',S+'groebner/Reductor.h')])
p('C16','Constraints keep their solution set through normalisation and simplification',
 'A constraint built from any polynomial and relation, or from a variable and a bound, is satisfied by exactly the same assignments (integer assignments for integer variables) as the input, is classified consistent or inconsistent only when it truly is, and equal normal forms share one object. Relations, signs and their inversions, negations and evaluation agree with arithmetic comparison.',
 ['inputs','histories'],'all polynomials, relations, bounds and assignments; all creation orders in the pool',
 'Constraint tests check a couple of normal forms; integer tightening and definiteness shortcuts are statements over all assignments.',
 [S+'formula/ConstraintRaw.h',S+'formula/Constraint.tpp',S+'formula/ConstraintPool.tpp',S+'core/SimpleConstraint.h',S+'core/Relation.h',S+'core/Sign.h'],
 [('RawConstraint normalisation',S+'formula/ConstraintRaw.h'),('constraint pool lookup',S+'formula/ConstraintPool.tpp')])
p('C17','Bit-vector values compute modulo two to the width as SMT-LIB prescribes',
 'For every width and every pair of values, arithmetic, signed and unsigned division and remainder, shifts, rotations, extension, extraction, concatenation, repetition, comparison and conversion from big integers give exactly the value the SMT-LIB fixed-size bit-vector theory prescribes.',
 ['inputs'],'all widths (1 up to multi-word) and all value pairs',
 'The unit tests check one or two 8-bit values per operation; sign/size corner cases need exhaustive small widths and multi-word widths.',
 [S+'formula/bitvector/BVValue.h',S+'formula/bitvector/BVValue.cpp'],
 [('bit-serial adder, multiplier, restoring divider, barrel shifter',S+'formula/bitvector/BVValue.cpp')])
p('C18','Bit-vector terms and constraints simplify soundly and are shared uniquely',
 'Building any bit-vector term or comparison, with any mixture of constant and variable operands, yields an object whose value under every assignment of its variables is the SMT-LIB value of the expression, with the right width; substituting and collecting variables agrees with this meaning. Structurally equal terms and constraints are one shared object and different ones are not.',
 ['inputs','programs','histories'],'all well-formed bit-vector expressions and assignments',
 'Tests build a few terms; constant folding and pooling depend on every operator and operand pattern.',
 [S+'formula/bitvector/BVTerm.cpp',S+'formula/bitvector/BVTermPool.cpp',S+'formula/bitvector/BVTermContent.h',S+'formula/bitvector/BVConstraint.cpp',S+'formula/bitvector/BVConstraintPool.cpp',S+'formula/bitvector/BVCompareRelation.h'],
 [('constant folding on creation',S+'formula/bitvector/BVTermPool.cpp'),('hash-consing pool',S+'formula/bitvector/Pool.h')])
p('C19','Sorts, functions and variables are registered once and looked up faithfully',
 'Registering sorts (with parameters, indices, definitions), uninterpreted functions, their instances and variables in any order returns handles that report exactly the registered name, arity, domain, codomain and arguments; the same declaration yields the same handle and different declarations yield different ones. Fresh variables are pairwise distinct, keep the name and type they were given, and ordering and hashing of handles follow their identity.',
 ['histories'],'all registration, lookup and clear histories',
 'Tests register two or three sorts; clashes appear only with particular prefixes, indices or clear/re-register sequences.',
 [S+'formula/SortManager.cpp',S+'formula/SortManager.h',S+'formula/uninterpreted/UFManager.h',S+'formula/uninterpreted/UFInstanceManager.h',S+'core/VariablePool.cpp',S+'core/Variable.h'],
 [('content maps in the managers',S+'formula/SortManager.cpp'),('bit-packed variable ids',S+'core/Variable.h')])
p('C20','Set-cover heuristics return valid covers and the exact one a minimum',
 'For every set-cover instance, the sets selected by a heuristic together with what it reports as remaining cover every element, reductions never change coverability, and the exact procedure returns a cover of minimum cardinality. Conflict cores built from interval coverings cover everything.',
 ['inputs'],'all finite set-cover instances incl. duplicates, empty sets and sparse element ids, and weights',
 'Two fixed matrices are tested; wrong selections need ties, duplicates or essential sets in special positions.',
 ['src/carl-covering/SetCover.cpp','src/carl-covering/TypedSetCover.h','src/carl-covering/heuristics/exact.cpp','src/carl-covering/heuristics/greedy.cpp','src/carl-covering/heuristics/select_essential.cpp','src/carl-covering/heuristics/remove_duplicates.cpp',S+'util/Covering.h'],
 [('bitset based selection',"src/carl-covering/SetCover.cpp")])
p('C21','Container utilities behave as the abstract structures they implement',
 'Under every sequence of operations, the priority heap pops a maximal element, the growable bitset and bit vector behave as (co)finite sets of indices, the tree keeps its shape, order and traversals, identifier pools never hand out a live identifier, and the result cache returns the value stored for an equal key until it is deregistered. No operation sequence corrupts memory or loops forever.',
 ['histories','inputs'],'all operation sequences on each container',
 'Most containers have no tests at all; structural corruption needs particular insertion/removal sequences.',
 [S+'util/Heap.h',S+'util/CompactTree.h',S+'util/carlTree.h',S+'util/Bitset.h',S+'util/BitVector.h',S+'util/Cache.tpp',S+'util/IDGenerator.h',S+'util/IDPool.h'],
 [('implicit binary tree',S+'util/Heap.h'),('index-linked node vector',S+'util/carlTree.h')])
p('C22','Settings and statistics report what was configured and measured',
 'Every quantity or duration accepted on the command line or in a configuration file has exactly the value its number and unit denote, anything else is rejected, command line values win over the configuration file, every registered finaliser runs, and printed quantities never misstate their value. Collected statistics are output once each with the values that were recorded.',
 ['inputs','configurations','histories'],'all option strings, units, option/config combinations and finaliser sequences',
 'Tests cover each unit once with a fixed number; overflow, trailing garbage and several finalisers are not reached.',
 ['src/carl-settings/settings_utils.cpp','src/carl-settings/settings_utils.h','src/carl-settings/SettingsParser.cpp','src/carl-statistics/Statistics.h','src/carl-statistics/StatisticsCollector.cpp','src/carl-statistics/StatisticsPrinter.h'],
 [('spirit grammars for units',"src/carl-settings/settings_utils.cpp")])
p('C23','Printed text denotes the printed object and the string parser reads it back',
 'The text printed for rational numbers, finite-field elements, monomials, terms, polynomials, Horner forms, constraints, intervals, bit-vector terms and constraints, uninterpreted functions and equalities, and standard containers of them denotes exactly the printed object. The string parser for polynomials reads such text, and any other text in its input format, back to the polynomial it denotes, and rejects malformed text with its documented exception instead of crashing, ignoring a part or guessing.',
 ['inputs'],'all printable objects of the listed kinds, all texts in the input format of the string parser and arbitrary other texts',
 'A few fixed strings are parsed in tests; signs, unit and fractional coefficients, exponents and malformed tails interact.',
 [S+'util/stringparser.h',S+'io/streamingOperators.h',S+'core/MultivariatePolynomial.tpp',S+'core/UnivariatePolynomial.tpp',S+'core/Term.tpp',S+'core/Monomial.cpp',S+'interval/Interval.tpp',S+'formula/bitvector/BVTermContent.h'],
 [('stream operators',S+'core/MultivariatePolynomial.tpp'),('string parser',S+'util/stringparser.h')])
p('C24','No supported operation corrupts memory, leaks, or relies on undefined behaviour',
 'Across all parts of the library, every operation sequence on valid inputs completes without out-of-bounds access, use of released memory, memory leak, integer or pointer undefined behaviour, or failed internal consistency check. After all objects are dropped, shared pools hold nothing that belongs to them.',
 ['inputs','histories','configurations'],'all operation sequences across all modules on valid inputs',
 'The test programs run without sanitizers, so silent memory errors pass.',
 [S+'core',S+'numbers',S+'interval',S+'groebner',S+'formula/bitvector',S+'util','src/carl-covering'],
 [('RAII and shared pointers','src/carl'),('internal assertions','src/carl')])
p('C25','Formulas keep their meaning through construction and simplification',
 'Building a formula from any Boolean combination of sub-formulas yields an object whose truth value under every assignment equals that of the requested combination, whatever simplifications are applied on construction. Structurally equal formulas are one shared object and derived properties (variables, negation, propositional or linear flags) describe the formula.',
 ['inputs','programs','histories'],'all Boolean combinations over Booleans and arithmetic atoms, all assignments',
 'Formula tests build a few fixed shapes and are not compiled in the tested configuration at all.',
 [S+'formula/Formula.h',S+'formula/Formula.tpp',S+'formula/FormulaPool.tpp',S+'formula/FormulaPool.h',S+'formula/FormulaContent.tpp'],
 [('simplifying pool constructors',S+'formula/FormulaPool.tpp')])
p('C26','Formula transformations preserve equivalence or satisfiability as promised',
 'Conversion to conjunctive normal form, negation resolution, collection of bounds, substitution and visiting rewrite a formula into one that is equivalent (or equisatisfiable with the original variables\' models preserved, where auxiliary variables are introduced) and of the promised shape.',
 ['inputs','programs'],'all formulas up to the bound, all assignments of their variables',
 'A few examples only, not compiled in the tested configuration.',
 [S+'formula/helpers/to_cnf.h',S+'formula/helpers/FormulaVisitor.h',S+'formula/Formula.tpp'],
 [('Tseitin transformation',S+'formula/helpers/to_cnf.h'),('recursive visitor with substitution',S+'formula/helpers/FormulaVisitor.h')])
p('C27','Real root isolation finds every real root exactly once, in order',
 'For every univariate polynomial (or multivariate one with an assignment making it univariate) and every search interval, the returned list contains each distinct real root in the interval exactly once, in increasing order, and nothing else; polynomials that vanish identically are reported as such.',
 ['inputs'],'all polynomials incl. multiple, clustered, rational and endpoint roots, all intervals',
 'A few polynomials are tested and only with the external algebra library present.',
 [S+'ran/interval/RealRootIsolation.h',S+'ran/interval/ran_interval_real_roots.h',S+'ran/real_roots.h'],
 [('bisection with Sturm/Descartes counts',S+'ran/interval/RealRootIsolation.h')])
p('C28','Real algebraic numbers are compared and evaluated exactly',
 'Comparisons among real algebraic numbers and rationals form a total order that agrees with the real numbers they denote however far each has been refined, sampling and rounding respect that order, and signs of polynomials and truth of constraints evaluated at algebraic points are exact. Refinement never changes the denoted number.',
 ['inputs','histories'],'all algebraic numbers, all refinement histories, all polynomials evaluated at them',
 'Tests compare a few square roots; equality of differently represented roots needs generated pairs.',
 [S+'ran/interval/ran_interval.h',S+'ran/interval/ran_interval_extra.h',S+'ran/interval/ran_interval_evaluation.h',S+'ran/ran_operations.h'],
 [('shared lazily refined interval representation',S+'ran/interval/ran_interval.h'),('resultant-based evaluation',S+'ran/interval/ran_interval_evaluation.h')])
p('C29','Virtual substitution and square-root expressions preserve solutions',
 'Arithmetic, comparison, substitution and evaluation (rounded to the requested side) of expressions with one square root agree with real arithmetic; only where the radicand is the square of a polynomial is the sign of its root left open. The zeros gathered for a constraint or for a comparison with a number of degree at most two are, at parameter values where their side conditions hold, exactly the real zeros in the variable unless the polynomial vanishes there, and virtually substituting a candidate (a number, one infinitesimally above it, plus or minus infinity) yields a condition true exactly at the parameter values where the substituted constraint holds. Splitting products into factors and simplifying such conditions keeps their truth.',
 ['inputs'],'all constraints up to quadratic degree in the eliminated variable, all parameter values',
 'No tests exist for virtual substitution in the tested configuration.',
 [S+'vs/SqrtEx.tpp',S+'vs/substitute.tpp',S+'vs/zeros.h',S+'vs/term.h'],
 [('case distinctions on degree and sign',S+'vs/substitute.tpp')])
p('C30','Model evaluation equals direct evaluation',
 'Evaluating or substituting a model into a formula, constraint, polynomial, bit-vector or uninterpreted atom gives the truth value or value the expression has under the assignment stored in the model, for total and partial models; entries that are polynomial substitutions behave as the value they evaluate to after any sequence of insertions, reassignments, updates, removals and copies, and building a model leaves the inserted values unchanged.',
 ['inputs','histories'],'all formulas and (partial) models, all model update histories',
 'A handful of models are tested and only with the external algebra library.',
 ['src/carl-model/Model.h','src/carl-model/Assignment.tpp','src/carl-model/evaluation/ModelEvaluation_Formula.h','src/carl-model/evaluation/ModelEvaluation_Polynomial.h','src/carl-model/ModelSubstitution.h'],
 [('visitor-based evaluation','src/carl-model/evaluation')])
p('C31','Factorised polynomials and rational functions compute in the field of fractions',
 'Arithmetic, comparison, evaluation and substitution of factorised polynomials and rational functions, and gcd, lcm, quotient and derivative of factorised polynomials, agree with the same operation on fully expanded polynomials and fractions; the stored factors always multiply to the polynomial, operations leave other operands sharing the cache unchanged, no operation yields a zero denominator, and the same value reached by the plain and the in-place form of an operation compares equal.',
 ['inputs','histories'],'all operation sequences on factorised polynomials and rational functions',
 'Tests are not compiled in the tested configuration and cover single steps.',
 ['src/carl-extpolys/FactorizedPolynomial.tpp','src/carl-extpolys/PolynomialFactorizationPair.tpp','src/carl-extpolys/RationalFunction.tpp'],
 [('factor cache with lazy refinement','src/carl-extpolys/FactorizedPolynomial.tpp')])
p('C32','Resultants, discriminants and subresultants are correct',
 'The resultant of two polynomials vanishes exactly at the parameter points where they share a root or both leading coefficients vanish and equals the Sylvester determinant, all computation strategies agree up to the documented normalisation, discriminants detect repeated roots, and principal subresultant coefficients give the gcd degree.',
 ['inputs'],'all pairs of univariate polynomials with polynomial coefficients, all strategies',
 'The resultant tests are not compiled in the tested configuration; degree gaps exercise special branches.',
 [S+'core/polynomialfunctions/Resultant.h',S+'core/polynomialfunctions/GCD_multivariate.h',S+'converter/CoCoAAdaptor.h'],
 [('subresultant chains (Generic, Lazard, Ducos)',S+'core/polynomialfunctions/Resultant.h')])
p('C33','Thread-safe build: shared constraints, bit-vectors and identifiers stay unique',
 'In the thread-safe build, under every interleaving of threads that create, query, compare and release constraints and bit-vector terms, the objects handed out have the content they have in one thread, and two of them are the same shared object exactly when their contents agree. Fresh variables and identifiers are never handed out twice while in use, names stay with their variable, and enumerated primes are right, all without data races or deadlocks.',
 ['schedules','histories','configurations'],'all thread interleavings in the thread-safe configuration',
 'No test uses threads and the tested build is not thread-safe.',
 [S+'formula/ConstraintPool.h',S+'formula/ConstraintPool.tpp',S+'formula/Constraint.h',S+'formula/bitvector/Pool.h',S+'core/VariablePool.cpp',S+'util/IDGenerator.h',S+'util/IDPool.h',S+'numbers/PrimeFactory.h'],
 [('locked pools with weak pointers',S+'formula/ConstraintPool.tpp'),('locked free lists',S+'util/IDGenerator.h')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
