"""Which drivers decide which property."""
DRIVERS = {
    'bvvalue': dict(flavor='asan', sources=['bvvalue.cpp']),
    'mono': dict(flavor='asan', sources=['mono.cpp']),
    'mpoly': dict(flavor='asan', sources=['mpoly.cpp']),
    'num': dict(flavor='asan', sources=['num.cpp']),
    'gf': dict(flavor='asan', sources=['gf.cpp']),
    'upoly': dict(flavor='asan', sources=['upoly.cpp']),
    'div': dict(flavor='asan', sources=['div.cpp']),
    'ugcd': dict(flavor='asan', sources=['ugcd.cpp']),
    'resultant': dict(flavor='asan', sources=['resultant.cpp']),
    'subst': dict(flavor='asan', sources=['subst.cpp']),
    'roots': dict(flavor='asan', sources=['roots.cpp']),
    'cmp': dict(flavor='asan', sources=['cmp.cpp']),
    'ival_arith': dict(flavor='asan', sources=['ival_arith.cpp']),
    'ival_sets': dict(flavor='asan', sources=['ival_sets.cpp']),
    'ival_eval': dict(flavor='asan', sources=['ival_eval.cpp']),
    'groebner': dict(flavor='asan', sources=['groebner.cpp']),
    'constraint': dict(flavor='asan', sources=['constraint.cpp']),
    'util': dict(flavor='asan', sources=['util.cpp']),
    'covering': dict(flavor='asan', sources=['covering.cpp']),
    'settings': dict(flavor='asan', sources=['settings.cpp']),
    'bvterm': dict(flavor='asan', sources=['bvterm.cpp']),
    'sorts': dict(flavor='asan', sources=['sorts.cpp']),
    'monopool': dict(flavor='asan', sources=['monopool.cpp']),
    'monothread': dict(flavor='tsan', sources=['monothread.cpp'], shards=4, cpu=120),
    'poolthread': dict(flavor='tsan', sources=['poolthread.cpp'], shards=4, cpu=120),
    'lifecycle': dict(flavor='asan', sources=['lifecycle.cpp']),
    'realroots': dict(flavor='cocoa', sources=['realroots.cpp']),
    'ran': dict(flavor='cocoa', sources=['ran.cpp']),
    'print': dict(flavor='asan', sources=['print.cpp']),
    'formula': dict(flavor='cocoa', sources=['formula.cpp']),
    'fmtrans': dict(flavor='cocoa', sources=['fmtrans.cpp']),
    'vs': dict(flavor='cocoa', sources=['vs.cpp']),
    'extpoly': dict(flavor='cocoa', sources=['extpoly.cpp']),
    'model': dict(flavor='cocoa', sources=['model.cpp']),
}
CHECKS = {
    'C30': dict(drivers=['model'],
                technique='reference-model oracle (direct evaluation of generated expressions under the assignment a model history has built up) under ASan/UBSan',
                rule='every case applies a random history of changes to a model with numbers, truth values, bit-vectors, sort values, function tables and polynomial substitutions and evaluates formulas, constraints and polynomials after each change; non-trivial: distinct pairs of history and expression',
                note='six arithmetic variables, histories of up to 13 changes after an optional total assignment; algebraic numbers are square roots; the algebra library is replaced by a stand-in that provides gcd and factorisation'),
    'C31': dict(drivers=['extpoly'],
                technique='reference-model oracle (expanded fractions of model polynomials in lock step with operation programs) under ASan/UBSan',
                rule='every case runs a random program of operations over a few factorised polynomials or rational functions sharing one cache and compares every result and every other operand with its expansion; non-trivial: distinct programs',
                note='up to 3 variables and 10 steps per program; the algebra library is replaced by a stand-in that provides gcd and factorisation'),
    'C29': dict(drivers=['vs'],
                technique='runtime monitoring of the real code under generated square-root expressions, constraints and candidates, exact arithmetic in Q(sqrt(u)) as oracle, AddressSanitizer and UBSan',
                rule='values and truth at sampled rational parameter values equal those computed exactly in Q(sqrt(u)); zeros compared as sets',
                note='coefficients of degree up to 2 in up to three parameters, degree up to 3 in the substituted variable, 10-14 parameter values each; CoCoALib replaced by a stand-in'),
    'C26': dict(drivers=['fmtrans'],
                technique='runtime monitoring of the real code under generated formulas, reference evaluation and model-extension search as oracle, AddressSanitizer and UBSan',
                rule='transformed formulas have the promised shape and the same truth value (or extension of the assignment to auxiliary variables) under sampled assignments',
                note='formulas up to depth 4, 12-20 assignments each; quantifiers only in negation, substitution and visiting; CoCoALib replaced by a stand-in'),
    'C25': dict(drivers=['formula'],
                technique='runtime monitoring of the real code under generated construction histories, reference formula trees as oracle, AddressSanitizer and UBSan',
                rule='truth value under sampled assignments equals that of the requested combination; equal formulas are one object; derived properties recomputed from the structure; pool accounting',
                note='formulas over 5 Booleans, 6 arithmetic variables, uninterpreted equalities and 3-bit vectors up to depth 4, 12-20 assignments each; CoCoALib replaced by a stand-in'),
    'C23': dict(drivers=['print'],
                technique='runtime monitoring of the real code under generated workloads, reference readers of the printed text as oracle, AddressSanitizer and UBSan',
                rule='printed text, read by independent readers, denotes the printed object; the string parser agrees with a reference reader on valid and malformed text',
                note='polynomials up to 6 terms, texts up to ~60 characters, bit-vector terms up to depth 3; scientific notation in coefficients not explored'),
    'C28': dict(drivers=['ran'],
                technique='histories of comparisons, refinements, copies, rounding, sampling and evaluation of algebraic numbers executed under ASan/UBSan; oracle: exact arithmetic in a real number field, re-applied to every number after every step',
                rule='seeded elements of eight number fields with random defining polynomials and isolating intervals, rational neighbours, copies sharing one representation, polynomials and constraints at points with one to three coordinates; non-trivial: distinct inputs',
                note='number fields of degree up to 5, resultants of degree up to 40; runs with a stand-in for the CoCoA library'),
    'C27': dict(drivers=['realroots'],
                technique='real root isolation executed on generated polynomials, intervals and algebraic sample points under ASan/UBSan; oracle: Sturm chains over the rationals and over a number field containing the point',
                rule='seeded polynomials (repeated, close, rational and irrational roots, large coefficients, no real roots) with open, closed, half-open, unbounded and empty-side intervals ending at roots; points of one or two algebraic coordinates including vanishing polynomials; non-trivial: distinct inputs',
                note='degree up to 9 (rational coefficients) and up to 3 in the main variable at points of degree up to 6; runs with a stand-in for the CoCoA library'),
    'C24': dict(drivers=['lifecycle'] + [d for d in DRIVERS if DRIVERS[d]['flavor'] == 'asan' and d != 'lifecycle'],
                memory=True, args=['--leak', '1', '--div', '6'], seed_offset=77777,
                technique='the workloads of every module executed under ASan/UBSan with library assertions and checked standard containers, every case repeated under a memory-in-use monitor, monomial pool probed before and after; copies, moves, swaps and containers of every value type',
                rule='a sixth of the cases of every driver with other seeds, plus histories of copies, moves, self-assignments, swaps, insertions and releases over all value types; non-trivial: distinct case contents',
                note='decides memory errors, undefined behaviour, failed assertions, memory that grows with every repetition of a case, and monomials left in the pool; groups that register names for good are exempt from the growth monitor'),
    'C33': dict(drivers=['poolthread'],
                technique='object-identity monitor and per-thread reference verdicts under TSan in the thread-safe configuration',
                rule='every case is a run of 2-4 threads; distinct runs are distinct orders in which the operations of the threads started',
                note='contents of shared objects compared with the single-threaded result and the integer model, identity after every join, data races by ThreadSanitizer on -DTHREAD_SAFE, deadlocks by a progress watchdog; only the interleavings that occurred are decided'),
    'C04': dict(drivers=['monopool', 'monothread'],
                technique='object-identity and pool-accounting monitor under ASan/UBSan (one thread) and under TSan in the thread-safe configuration',
                rule='one thread: every case is a random create/combine/release history; several threads: every case is a run of 2-4 threads, distinct runs are distinct orders in which the operations of the threads started',
                note='uniqueness of objects and identifiers, contents, pool size and identifier reuse after every step or join; data races by ThreadSanitizer on -DTHREAD_SAFE; only the interleavings that occurred are decided'),
    'C19': dict(drivers=['sorts'],
                technique='reference-model oracle (maps of declared names) and identity monitor under ASan/UBSan',
                rule='every case is a random history of declarations, definitions and look-ups; non-trivial: distinct histories',
                note='sorts, uninterpreted functions, instances and variables are registered once and looked up faithfully; variable sets agree with a set model'),
    'C18': dict(drivers=['bvterm'],
                technique='reference-model oracle (SMT-LIB evaluator over mpz) and object-identity monitor under ASan/UBSan',
                rule='every case builds a random term or constraint tree and evaluates it under many assignments; non-trivial: distinct trees',
                note='values of bit-vector terms and constraints under assignments, widths, substitution, variable collection, sharing of equal objects; exhaustive for small widths; trusts GMP and the model'),
    'C22': dict(drivers=['settings'],
                technique='option validators, the settings parser (command line, configuration file, finalisers, printing) and the statistics collector executed on generated inputs under ASan/UBSan; oracle: exact arithmetic over the option grammar, a precedence model and a re-parse of the output',
                rule='seeded option texts (legal, near-legal, around every overflow boundary), command lines, configuration files, finaliser lists and statistics rounds; non-trivial: distinct inputs',
                note='printed quantities are compared after rounding down to the unit shown'),
    'C20': dict(drivers=['covering'],
                technique='every set-cover heuristic, reduction and interval covering executed on generated instances under ASan/UBSan; oracle: brute force over all selections',
                rule='seeded instances with duplicate, empty and essential sets, duplicate and sparse elements, ties and weights; non-trivial: distinct instances',
                note='up to 12 sets and 14 elements (150 intervals for coverings); non-positive weights decided only for termination and coverage'),
    'C21': dict(drivers=['util'],
                technique='reference-model monitors over random operation histories of the util containers, under ASan/UBSan',
                rule='seeded operation histories over several objects of each container, sizes around block and capacity boundaries; non-trivial: distinct histories',
                note='histories of up to 400 operations per container; single-threaded'),
    'C16': dict(drivers=['constraint'],
                technique='constraints built, negated, compared, boxed and dropped in histories under ASan/UBSan; oracle: truth of input and stored constraint at assignments around the boundary of the solution set',
                rule='seeded polynomials (bounds, monomials, sums of squares, integer content, mixed integer/real) with the boundary moved to sampled points; non-trivial: distinct constraint/box/history contents',
                note='up to 6 variables, degree up to 6; each constraint decided at ~25 assignments; integer variables only at integers'),
    'C15': dict(drivers=['groebner'],
                technique='Gröbner basis, ideal and reduction histories executed under ASan/UBSan; oracle: textbook Buchberger on reference polynomials, unique reduced basis, membership of reasons',
                rule='seeded generator sets (dependent, zero and constant ones included) with add/reduceInput/calculate/copy/reset histories; non-trivial: distinct ideals with more than one basis element',
                note='up to 4 variables and 4 generators of degree up to 5, limited to ideals the reference decides within a work budget'),
    'C14': dict(drivers=['ival_eval'],
                technique='polynomials evaluated over boxes and boxes contracted step by step under ASan/UBSan; oracle: exact evaluation at points of the box, points known to satisfy the constraints must survive every step',
                rule='seeded polynomials, boxes of every bound-type combination and contraction histories with a planted solution; non-trivial: distinct polynomial/box/history contents',
                note='up to 4 variables, exponents up to 4, up to 6 contraction steps; contraction over double bounds, evaluation over rational and double bounds'),
    'C13': dict(drivers=['ival_sets'],
                technique='interval set operations, predicates, comparisons, mutators and samplers executed under ASan/UBSan; point-set oracle on all critical points',
                rule='seeded pairs of intervals over shared ends with every bound-type combination incl. empty, point, half-bounded, unbounded; values reached by mutators',
                note='rational and double bounds; order of empty intervals is not decided'),
    'C12': dict(drivers=['ival_arith'],
                technique='interval operations on rational and floating-point bounds executed under ASan/UBSan; exact rational point-set hulls as oracle, long double reference for elementary functions',
                rule='seeded intervals of every bound-type combination (incl. empty, point, half-bounded, unbounded), rounding-critical doubles; programs of interval operations',
                note='bounds up to a few hundred bits; elementary functions within 4 units in the last place; negative exponents not explored'),
    'C06': dict(drivers=['cmp'],
                technique='runtime oracle: order, equality and hash axioms and mixed-type comparisons over generated objects',
                rule='Each generated family of equal and nearly equal objects, built along different routes, must satisfy the equality/order/hash axioms; mixed comparisons must agree with the comparison after conversion to polynomials.',
                note='Families of 5-7 objects per case; polynomials of up to 6 variables; all pairs and triples of a family are decided.'),
    'C11': dict(drivers=['roots'],
                technique='independent Sturm/Descartes computation on rational coefficient lists and sign probing under ASan/UBSan',
                rule='every case draws a polynomial with planted rational, irrational and repeated roots; non-trivial: distinct non-constant inputs',
                note='degree up to ~12; definiteness verdicts probed at ~60 points plus critical points of quadratics'),
    'C10': dict(drivers=['subst'],
                technique='reference-model oracle (exponent-vector polynomials, exact evaluation at rational points) under ASan/UBSan',
                rule='every case draws a polynomial and (partial) assignments, incl. zero, self-referencing and variable-to-variable ones, and checks every substitution/evaluation/derivative/representation entry point; non-trivial: distinct non-constant inputs with a non-empty assignment',
                note='up to 6 variables, exponents up to 6, four Horner strategies; TaylorExpansion.h does not compile and is not covered'),
    'C32': dict(drivers=['resultant'],
                technique='reference-model oracle (Sylvester determinants and Euclid at random rational points) under ASan/UBSan',
                rule='every case draws two polynomials in up to 3 variables, with common factors planted, and checks all three strategies at random points; non-trivial: distinct pairs of positive degree',
                note='degree up to ~6 in the main variable, resultant compared up to a global sign'),
    'C09': dict(drivers=['ugcd'],
                technique='reference-model oracle (Euclid over Q and Z/p, product and squarefreeness of factorisations) under ASan/UBSan',
                rule='every case draws polynomials with planted common/repeated factors; non-trivial: distinct non-constant inputs',
                note='univariate gcd, extended gcd, squarefree part, squarefree and full factorisation; multivariate gcd needs CoCoA'),
    'C08': dict(drivers=['div'],
                technique='reference-model oracle (long division on coefficient lists, exponent-vector polynomials, integers modulo p) under ASan/UBSan',
                rule='every case draws dividend and divisor (exact multiples and perturbed ones included) and checks every division entry point; non-trivial: distinct pairs where at least one reduction step happens',
                note='univariate over Q, Z, Z/p; multivariate over Q in up to 4 variables; pseudo division with polynomial coefficients'),
    'C07': dict(drivers=['upoly'],
                technique='reference-model oracle (coefficient lists over Z, Q, Z/p and reference polynomials) under ASan/UBSan',
                rule='every case builds two polynomials along random construction routes and evaluates every operator form; non-trivial: distinct operand tuples with a non-constant first operand',
                note='degrees up to ~12 (operands), 6 variables for polynomial coefficients'),
    'C01': dict(drivers=['num'],
                technique='definition oracles over GMP integers (identities, enclosures, an independent number recogniser) under ASan/UBSan',
                rule='every case draws operands (small, multi-limb, boundary, perfect powers) and evaluates every operation on them; non-trivial: distinct operands/strings',
                note='trusts GMP +,-,*,/ and comparison; doubles compared via exact mantissa/exponent'),
    'C02': dict(drivers=['gf'],
                technique='reference-model oracle (integers modulo the field size) and trial-division oracle under ASan/UBSan',
                rule='every case draws a field and two operands and evaluates every operator form, or runs a history on prime/factor generators; non-trivial: distinct operand pairs/histories',
                note='fields p^k for 11 primes and k<=4; factorisation inputs below 4000'),
    'C05': dict(drivers=['mpoly'],
                technique='reference-model oracle (exponent-vector maps) with canonical-form monitor under ASan/UBSan, operation histories',
                rule='every case draws polynomials built along random routes and applies every operator form, or runs a history of in-place operations checked after each step; non-trivial: distinct operands/histories',
                note='all operand combinations over rationals and integers, six variables; trusts the naive reference polynomial'),
    'C03': dict(drivers=['mono'],
                technique='reference-model oracle (exponent vectors) plus order-axiom monitor under ASan/UBSan',
                rule='every case draws monomials (related or independent) and applies every operation; non-trivial: distinct operand contents',
                note='monomial and term operations on six variables, exponents up to 1e6; trusts the exponent-vector model'),
    'C17': dict(drivers=['bvvalue'],
                technique='reference-model oracle (mpz two\'s complement) under ASan/UBSan, exhaustive small widths',
                rule='every case fixes widths and operand values and applies all operations; non-trivial: distinct (width, operands)',
                note='SMT-LIB semantics of every bit-vector value operation: exhaustive for widths 1-4, random and boundary values up to multi-word widths; trusts GMP and the 100-line model'),
}
