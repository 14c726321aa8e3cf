#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("P01", "Integer arithmetic is exact and canonical at every magnitude",
 "For all integers of any size, and any sequence of assignments, copies, moves and in-place updates (aliased operands included), integer addition, subtraction, multiplication, truncated division, remainder, gcd, lcm, power, negation and mixed operations with machine integers give the mathematically exact result. Comparison, equality, hashing and conversion to text or to machine integers depend only on the value, never on how the value was reached. Division by zero is reported by an exception and leaves memory and operands intact.",
 ["inputs", "histories"], "all integer values (machine-word and multi-word, and every boundary between the two), all operand aliasings, all operation sequences",
 "Tests check chosen constants around one boundary; exactness at each representation switch, in both directions and under every aliasing, is a statement over unboundedly many values and update histories.",
 ["clpoly/number/ZZ.hh", "clpoly/number.hh"],
 [("small/big tagged representation with overflow checks and demotion", "clpoly/number/ZZ.hh class ZZ")],
 ["return values and in-place results of every integer operator, compared with GMP"])
prop("P02", "Rational arithmetic is exact and always in lowest terms",
 "For all rationals, +, -, *, /, power, comparison, sign, conversion from and to integers and text give the exact value, and every produced rational is in lowest terms with a positive denominator so that equality of values is equality of representation. Dividing by zero raises an exception.",
 ["inputs", "histories"], "all pairs of rationals with small and multi-word parts, all operation sequences",
 "Tests sample a handful of fractions; canonical form must survive arbitrary operation histories.",
 ["clpoly/number/QQ.hh", "clpoly/number.hh"], [("numerator/denominator pair with canonicalisation", "clpoly/number/QQ.hh class QQ")],
 ["numerator/denominator after every operation"])
prop("P03", "Prime-field arithmetic is a field for every word-size prime",
 "For every prime below 2^64 and all residues, modular +, -, *, negation, inverse, division, power and reduction of arbitrary integers agree with exact integer arithmetic modulo the prime and always return a value in [0,p). The next/previous-prime utilities return exactly the adjacent prime, and inverse of a non-zero residue always exists and multiplies back to one.",
 ["inputs", "configurations"], "all primes < 2^64 (one-word products, half-word, just below 2^63 and 2^64), all residues",
 "Tests use a few small primes; overflow of intermediate products and signed/unsigned slips only show for moduli near 2^32, 2^63 and 2^64.",
 ["clpoly/number.hh", "clpoly/number/ZZ.hh"], [("Zp class, 128-bit products, extended Euclid inverse", "clpoly/number.hh class Zp"), ("next/previous prime", "clpoly/number/ZZ.hh next_prime_64, prev_prime_64")],
 ["values of Zp results; returned primes"])
prop("P04", "Polynomial ring operations are exact and canonical",
 "For polynomials over integers, rationals or a prime field, in any number of variables, any degrees and under every supported monomial order, +, -, *, negation, scalar operations and powers give the exact ring element. Every result is in canonical form - terms strictly decreasing in the order, no zero coefficient, no zero exponent, variables sorted - so that equal polynomials compare equal however they were built.",
 ["inputs", "histories", "configurations"], "all polynomials, degrees and variable counts (packed-exponent fast path, its overflow boundary and the generic path), all orders, all operation sequences",
 "Tests use few variables and small degrees; the packed-exponent multiplication switches representation by variable count and degree, and cancellation patterns are unbounded.",
 ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial_.hh", "clpoly/monomial_order.hh", "clpoly/polynomial.hh", "clpoly/upolynomial.hh"],
 [("merge/heap algorithms on sorted term vectors", "clpoly/basic.hh pair_vec_*"), ("packed exponents", "clpoly/monomial_order.hh __monomial_compression")],
 ["terms of each result polynomial"], "optional event counters for the packed/unpacked multiplication paths")
prop("P05", "Monomial orders are admissible and conversions preserve the polynomial",
 "Each monomial order is a total order compatible with multiplication in which 1 is the smallest monomial, and monomial product, quotient, divisibility, gcd and lcm agree with exponent-wise arithmetic. Converting a polynomial between orders, between sparse multivariate and univariate form, or between coefficient rings (including reduction modulo a prime) preserves its value and yields canonical form in the target.",
 ["inputs", "configurations"], "all monomials and polynomials, every order (graded lex, lex, custom-variable-order lex, univariate-priority), every permitted conversion pair",
 "Tests convert a few polynomials; admissibility and loss-free conversion quantify over all monomial pairs and variable orders.",
 ["clpoly/monomial.hh", "clpoly/basic_monomial.hh", "clpoly/monomial_order.hh", "clpoly/polynomial_convert.hh"],
 [("order functors", "clpoly/monomial_order.hh"), ("poly_convert overloads", "clpoly/polynomial_convert.hh")],
 ["results of comparisons and conversions"])
prop("P06", "Division and pseudo-division satisfy their defining identities",
 "Dividing by a non-zero divisor returns quotient and remainder with dividend = quotient*divisor + remainder, where no remainder term is divisible by the divisor's leading term (over a field; over the integers the leading coefficient must divide too), and exact division returns the cofactor. Pseudo-division in a variable returns quotient and remainder with (power of the leading coefficient)*dividend = quotient*divisor + remainder and the remainder of smaller degree in that variable; all results are canonical.",
 ["inputs", "configurations"], "all dividend/divisor pairs, all coefficient rings, orders, main variables; univariate and multivariate; dense and sparse",
 "Tests divide a few multiples; inexact divisions, huge degree gaps and many-variable dividends take other code paths.",
 ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial.hh", "clpoly/polynomial_.hh"],
 [("heap division", "clpoly/basic.hh pair_vec_div"), ("prem/pquo", "clpoly/polynomial.hh")],
 ["quotients and remainders, re-multiplied in an independent model"])
prop("P07", "Evaluation, derivative and structural queries agree with the definition",
 "Substituting values for one or several variables equals evaluating the defining sum; the derivative in each variable is the formal derivative; degree, total degree, first and last variable, leading coefficient, coefficient extraction, variable lists and number tests report exactly what the term list contains. None of them changes its argument, and all returned polynomials are canonical.",
 ["inputs", "configurations"], "all polynomials (zero and constants included), all variables (present or not), all substitution values that cancel terms",
 "Tests evaluate small examples; cancelling substitutions, absent variables and mixed orders are unbounded.",
 ["clpoly/polynomial.hh", "clpoly/basic_polynomial.hh", "clpoly/upolynomial.hh", "clpoly/polynomial_.hh"],
 [("assign", "clpoly/polynomial.hh"), ("derivative", "clpoly/polynomial.hh"), ("degree/leadcoeff/coeff", "clpoly/polynomial.hh")],
 ["returned values, against an independent term-map model"])
prop("P08", "The polynomial GCD is a greatest common divisor, whatever the randomness",
 "For polynomials over the integers (univariate or multivariate, any order) and univariate ones over a prime field, the returned GCD divides every input exactly and is divisible by every common divisor, including integer content. It is independent of argument order up to a unit, of the random evaluation points and primes drawn, and of earlier calls; GCD with zero returns the other argument up to a unit.",
 ["inputs", "schedules", "histories"], "all input pairs and lists, all random draws (including hostile streams that force unlucky primes and points)",
 "Tests use benign random points; unlucky primes, vanishing leading coefficients and degree collapse depend on input and draw together.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc", "clpoly/upolynomial.hh", "clpoly/upolynomial.cc"],
 [("modular multivariate GCD with trial division", "clpoly/polynomial_gcd.hh, clpoly/polynomial_gcd.cc")],
 ["returned gcd versus FLINT and trial division"])
prop("P09", "Extended Euclid returns valid Bezout cofactors",
 "For univariate polynomials over a prime field the extended GCD returns (g,s,t) with s*f + t*h = g, g the monic greatest common divisor, and cofactor degrees within the classical bounds. Over the integers (univariate, and multivariate in a lex order with respect to the first variable) the identity s*f + t*h = g is exact and g is a positive-leading greatest common divisor over the field of fractions of the coefficients. Equal, proportional and constant inputs obey the same identity, for multivariate inputs zero as well.",
 ["inputs", "configurations"], "all pairs of non-zero univariate polynomials, all pairs of multivariate ones, all primes",
 "Tests check a few coprime pairs; degree-drop patterns and degenerate inputs are unbounded.",
 ["clpoly/upolynomial.hh", "clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc"], [("extended polynomial_GCD", "clpoly/polynomial_gcd.hh")],
 ["returned triples"])
prop("P10", "Content, primitive part and squarefree decomposition are correct",
 "Content times primitive part reproduces the input and the primitive part has content one with respect to the chosen variable. Squarefree factorization returns pairwise coprime squarefree factors with multiplicities whose product is the input up to the stated constant, the squarefree test answers exactly, and a squarefree basis of a list has the same zero set with pairwise coprime squarefree members.",
 ["inputs"], "all polynomials including high multiplicities, contents in several variables, constants and zero-free lists",
 "Tests factor a few powers; multiplicity patterns and content interaction across variables are unbounded.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial.hh", "clpoly/realroot.cc"],
 [("squarefreefactorize / squarefreebasis / cont / pp", "clpoly/polynomial_gcd.hh")], ["factors and multiplicities"])
prop("P11", "Univariate integer factorization is exact, complete and irreducible",
 "Factoring a univariate integer polynomial returns a content and primitive, positive-leading, pairwise distinct factors with multiplicities whose product is exactly the input, and every factor is irreducible over the rationals. This holds for any degree, coefficient size, number of modular factors and choice of prime, and the call always terminates.",
 ["inputs", "configurations"], "all univariate integer polynomials: many modular factors with few true factors (lattice path), large leading coefficients, Swinnerton-Dyer and cyclotomic types, high multiplicities",
 "Tests contain chosen families; which recombination path is taken and whether its precision suffices depends on input, prime and lattice shape.",
 ["clpoly/polynomial_factorize_univar.hh", "clpoly/polynomial_factorize_zp.hh", "clpoly/polynomial_factorize.hh"],
 [("Zassenhaus and van Hoeij recombination", "clpoly/polynomial_factorize_univar.hh")], ["factor lists, compared with FLINT's and re-multiplied"])
prop("P12", "Multivariate integer factorization is exact, complete and irreducible",
 "Factoring a multivariate integer polynomial under any monomial order returns a content and primitive, pairwise distinct factors with multiplicities whose product is exactly the input, each irreducible over the rationals. The set of factors is independent of the random draws, of the variable order and of earlier calls, and the call terminates.",
 ["inputs", "schedules", "histories"], "all multivariate integer polynomials: non-monic, shared leading-coefficient factors, sparse and dense, large coefficients, extraneous modular factors; all random streams",
 "Tests sample benign inputs with one fixed random stream; failures need a particular leading coefficient, evaluation point or unlucky prime.",
 ["clpoly/polynomial_factorize_wang.hh", "clpoly/polynomial_factorize.hh"],
 [("Wang leading-coefficient prediction and sparse multivariate Hensel lifting", "clpoly/polynomial_factorize_wang.hh")], ["factor lists, compared with FLINT's and re-multiplied"])
prop("P13", "Rational-coefficient factorization is exact with monic factors",
 "Factoring a polynomial with rational coefficients returns a rational leading constant and monic irreducible pairwise distinct factors with multiplicities whose product is exactly the input, for univariate and multivariate inputs. Scaling the input by a non-zero rational changes only the constant.",
 ["inputs"], "all rational polynomials, any denominators",
 "Tests use small denominators; interaction of denominators, content and sign is unbounded.",
 ["clpoly/polynomial_factorize.hh", "clpoly/polynomial_factorize_wang.hh"], [("factorize for rational coefficients", "clpoly/polynomial_factorize.hh")], ["factor lists"])
prop("P14", "Finite-field factorization is exact, complete and irreducible",
 "Over every prime field, factoring a univariate polynomial returns monic irreducible factors whose product times the leading coefficient is the input; the squarefree stage separates multiplicities (p-th powers included), the distinct-degree stage groups exactly the irreducible factors of each degree, and the equal-degree stage splits them completely. It terminates for every prime, two and other tiny primes included.",
 ["inputs", "schedules", "configurations"], "all primes < 2^63 supported by the library, all univariate polynomials, all internal random splits",
 "Tests use medium primes; p=2, p dividing exponents, p-th powers and large primes are separate paths.",
 ["clpoly/polynomial_factorize_zp.hh"], [("squarefree, DDF, EDF over Zp", "clpoly/polynomial_factorize_zp.hh")], ["factor lists versus FLINT nmod factorization"])
prop("P15", "Dense modular polynomial arithmetic equals schoolbook arithmetic",
 "For dense polynomials modulo any word-size prime, +, -, *, scalar multiplication, division with remainder, GCD and conversions return exactly what the schoolbook definitions give, with normalised length and reduced coefficients. The result does not depend on which size-dependent algorithm (basecase, Karatsuba, Euclid, half-GCD) is selected.",
 ["inputs", "configurations"], "all degrees (below, at and far above every algorithm cutoff, unbalanced), all primes, all degree-sequence shapes of the Euclidean algorithm",
 "Tests compare a few sizes; cut-over boundaries and abnormal remainder sequences inside the recursive algorithms are input-specific.",
 ["clpoly/dense_upoly_zp.hh"], [("Karatsuba, half-GCD", "clpoly/dense_upoly_zp.hh")], ["coefficient vectors versus FLINT nmod_poly and a schoolbook model"])
prop("P16", "p-adic lifting preserves the factorization and its uniqueness",
 "Lifting a coprime modular factorization of an integer polynomial to modulus p^k returns monic factors congruent to the originals mod p whose product times the leading coefficient is congruent to the polynomial mod p^k, for any number of factors, any prime and any target precision. Recombining lifted factors yields the true integer factors.",
 ["inputs", "configurations"], "all squarefree inputs, all good primes, all precisions and factor counts",
 "Tests lift a few examples; correction terms of the quadratic lift matter only at specific precisions and tree shapes.",
 ["clpoly/polynomial_factorize_univar.hh"], [("factor-tree quadratic Hensel lifting", "clpoly/polynomial_factorize_univar.hh __hensel_*")], ["lifted factors re-multiplied modulo p^k"])
prop("P17", "Resultant and discriminant equal their determinant definitions",
 "The resultant of two polynomials in a chosen variable equals the determinant of their Sylvester matrix, sign included, for any degrees and any number of remaining variables; in particular it vanishes exactly when they share a non-constant factor in that variable. The discriminant equals its classical resultant definition and vanishes exactly for polynomials with a repeated factor.",
 ["inputs", "configurations"], "all pairs of polynomials, every elimination variable, both internal methods (few and many variables)",
 "Tests check a few pairs; defective remainder sequences, swapped degrees, constants and many-variable inputs use other paths.",
 ["clpoly/resultant.hh"], [("subresultant PRS and Bezout matrix determinant", "clpoly/resultant.hh")], ["returned polynomial versus Sylvester determinant"])
prop("P18", "The subresultant chain matches the determinantal subresultants",
 "Each entry of the subresultant chain of two polynomials equals, up to the documented convention, the determinantal polynomial of the corresponding Sylvester submatrix, defective gaps included. Consequently the first non-vanishing entry is similar to the GCD in the main variable.",
 ["inputs"], "all pairs with the first degree at least the second, regular and defective sequences, any coefficient variables",
 "Defective chains need special degree structure that a handful of tests does not reach.",
 ["clpoly/resultant.hh"], [("subresultant PRS with gap handling", "clpoly/resultant.hh subresultant")], ["chain entries"])
prop("P19", "Groebner bases are correct, reduced and generate the same ideal",
 "For any finite generator list over the rationals or integers and any supported order, the computed basis generates the same ideal, satisfies the Buchberger criterion, and is reduced: no term of an element is divisible by another element's leading monomial, with monic (rationals) or primitive positive-leading (integers) elements. The result is independent of generator order, duplicates, scaling and zero generators.",
 ["inputs", "configurations"], "all finite generating sets, orders",
 "Tests check known small systems; pair-elimination criteria can wrongly drop a needed pair only for particular systems.",
 ["clpoly/groebner.hh"], [("Buchberger with criteria and inter-reduction", "clpoly/groebner.hh")], ["basis elements; reductions recomputed in an independent model"])
prop("P20", "Ideal membership and normal forms are canonical",
 "An ideal contains exactly the combinations of its generators; the normal form of a polynomial (over the integers: a positive integer multiple of it) differs from it by an ideal element, has no term divisible by a leading monomial of the basis, and is the same, over the integers up to that multiple, for congruent polynomials. S-polynomials cancel the leading terms and lie in the ideal.",
 ["inputs", "histories"], "all ideals and test polynomials, cached-basis reuse across queries and copies",
 "Tests ask a few queries on fixed ideals; caching and reduction order effects are histories.",
 ["clpoly/groebner.hh"], [("normal_form, Ideal with lazily computed basis", "clpoly/groebner.hh")], ["membership answers and normal forms"])
prop("P21", "Characteristic sets are ascending and reduce every input to zero",
 "The characteristic set of a finite polynomial system is an ascending set in the given variable order (or a non-zero constant when the system is contradictory) whose members vanish on every common zero of the system, and every input polynomial has pseudo-remainder zero with respect to it. Basic sets are minimal-rank ascending subsets of their input.",
 ["inputs", "configurations"], "all finite systems, all variable orders",
 "Tests run a few classical systems; rank ties, repeated and contradictory inputs are unbounded.",
 ["clpoly/charset.hh"], [("Ritt-Wu characteristic set", "clpoly/charset.hh charset/Wucharset/basset")], ["returned sets; prem recomputed; ideal membership by independent elimination"])
prop("P22", "Triangular decompositions neither lose nor invent zeros",
 "Decomposing a zero-dimensional system into regular, squarefree or relatively-simple triangular sets yields sets whose zeros together are exactly the zeros of the system (respectively of the input set under its non-vanishing conditions). Every produced set is triangular, with the regularity or squarefreeness that its kind promises.",
 ["inputs"], "all zero-dimensional systems in lex variable orders, multiplicities and splitting included",
 "Splits triggered by non-trivial gcds modulo a triangular set depend on special systems.",
 ["clpoly/charset.hh"], [("wrsd/rsd/sqrfree decomposition", "clpoly/charset.hh")], ["zeros of the outputs counted and compared over finite grids of algebraic points"])
prop("P23", "Real root isolation finds every real root exactly once",
 "For any list of univariate integer polynomials, isolation returns disjoint intervals with rational endpoints (or exact points), one per distinct real root and in increasing order, each containing exactly one root, with none missing and none spurious; multiplicity vectors state the true multiplicity of each root in each polynomial. Refinement to a requested width keeps the same root.",
 ["inputs", "configurations"], "all univariate integer polynomials: clustered and rational roots, roots at interval end points and at zero, roots shared between inputs, huge coefficients",
 "Tests isolate easy polynomials; dyadic roots hitting bisection points and close clusters need constructed inputs.",
 ["clpoly/realroot.hh", "clpoly/realroot.cc"], [("Descartes/Uspensky bisection on a squarefree basis", "clpoly/realroot.cc")], ["returned intervals, checked by Sturm counting"])
prop("P24", "Real algebraic numbers are totally ordered by their value",
 "Comparing two isolated real roots, or a root with a rational, gives the order of the exact real numbers: the relation is a strict total order, equality means equal numbers even when defined by different polynomials or intervals, and it is unaffected by refinement or by earlier comparisons. Comparison always terminates.",
 ["inputs", "histories"], "all pairs of real algebraic numbers, arbitrarily close or equal with different defining polynomials; all refinement histories",
 "Tests compare separated roots; equal numbers with different representations and very close roots are special.",
 ["clpoly/realroot.hh", "clpoly/realroot.cc"], [("uroot comparison with interval refinement", "clpoly/realroot.cc")], ["comparison results versus exact Sturm-based comparison"])
prop("P25", "Chordal completion and elimination orderings are correct on every graph",
 "The graph of a polynomial system joins exactly the variables that occur together. Chordal completion returns a chordal supergraph with the same vertices and no removable fill, perfect elimination orderings are genuine for chordal graphs, simulated elimination and tree heights agree with the definition, and connected components partition the vertices, and the difference score is the Jaccard distance of the edge sets - for every simple graph, disconnected and edgeless ones included.",
 ["inputs", "schedules"], "all finite graphs and vertex labellings, all tie-breaking choices",
 "Tests use a few connected graphs; random tie-breaking and disconnected graphs multiply the cases.",
 ["clpoly/associatedgraph.hh", "clpoly/associatedgraph.cc"], [("MCS-M, MCS, elimination game", "clpoly/associatedgraph.hh, clpoly/associatedgraph.cc")], ["returned graphs and orderings versus brute-force definitions"])
prop("P26", "The variable registry is injective, stable and order-consistent",
 "As long as a name is registered (not deleted), equal names denote the same variable and distinct names distinct ones; names, serial numbers, equality, hashing and order stay consistent as variables are created, copied, looked up or deleted in any sequence. Polynomials built earlier keep printing and comparing the same after new variables are registered.",
 ["histories"], "all sequences of creation, lookup, deletion and use of variable names",
 "Tests create a few names; consistency is a statement about registration histories.",
 ["clpoly/variable.hh", "clpoly/variable.cc"], [("global name/serial tables", "clpoly/variable.hh")], ["names and serials after each registry operation, against a reference map"])
prop("P27", "Printed text denotes the value it was printed from",
 "The text printed for an integer, rational, residue, monomial, polynomial, isolating interval or graph, read by the library where it offers reading or by an independent parser, denotes exactly the same value, for every order and coefficient ring. Printing never changes the object and depends only on its value.",
 ["inputs"], "all numbers and polynomials: unit and negative coefficients, constants, zero, big exponents, many variables",
 "Tests compare a few strings; sign, unit-coefficient and empty cases combine.",
 ["clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/number.hh", "clpoly/basic_monomial.hh", "clpoly/basic_polynomial.hh", "clpoly/monomial.hh", "clpoly/polynomial.hh", "clpoly/upolynomial.hh"], [("stream operators", "clpoly/basic_polynomial.hh, clpoly/number/ZZ.hh, clpoly/number/QQ.hh")], ["stream output and input"])
prop("P28", "Random generators honour their stated parameters",
 "A randomly generated polynomial or graph uses only the given variables or vertices, respects the degree bound, term count or density and coefficient range that were requested, and is canonical; sampling without repetition returns distinct in-range elements. This holds for every random stream, and every admissible monomial, coefficient, edge set and selection can occur.",
 ["inputs", "schedules"], "all parameter combinations and random streams, degenerate ones included",
 "Tests draw a few samples; violating draws may be rare.",
 ["clpoly/random.hh"], [("generators and RandomSample", "clpoly/random.hh")], ["generated objects"])
prop("P29", "No operation reads or writes outside its objects or has undefined behaviour",
 "For all valid arguments and any sequence of public operations - arithmetic, gcd, factorization, resultants, Groebner bases, triangular decomposition, root isolation, graph algorithms - the library performs no out-of-bounds or use-after-free access, no read of uninitialised memory, no double free or leak, and no undefined arithmetic, and does not abort or exhaust the stack.",
 ["inputs", "histories"], "all valid inputs and all call sequences, degenerate inputs (zero, constants, empty lists, single variables, maximal variable counts) included",
 "The test-suite runs without sanitizers on benign inputs; silent memory errors do not fail an assertion.",
 ["clpoly/basic.hh", "clpoly/number/ZZ.hh", "clpoly/monomial_order.hh", "clpoly/dense_upoly_zp.hh", "clpoly/associatedgraph.hh", "clpoly/polynomial_gcd.cc", "clpoly/realroot.cc", "clpoly/polynomial_factorize_wang.hh", "clpoly/polynomial_factorize_univar.hh", "clpoly/charset.hh", "clpoly/groebner.hh"],
 [("manual GMP pointer ownership, hand-written index loops, packed exponents", "clpoly/number/ZZ.hh, clpoly/basic.hh")], ["AddressSanitizer, LeakSanitizer, UBSan and memcheck reports"])
prop("P30", "Results are pure: no input mutation, no dependence on history or aliasing",
 "Every operation taking constant arguments leaves them unchanged, gives the same result when outputs alias inputs where that is allowed, and gives the same answer when repeated, after arbitrary other calls (setting the class-wide default prime of residues included), or under a different random stream. Copies are independent of their originals, and a moved-from object can be reassigned and used.",
 ["histories", "schedules"], "all call sequences, aliasing patterns and random streams",
 "Tests call each function once on fresh inputs.",
 ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/number/ZZ.hh", "clpoly/polynomial_gcd.hh", "clpoly/groebner.hh", "clpoly/realroot.hh"],
 [("value semantics; shared order objects; static caches", "clpoly/basic_polynomial.hh")], ["digests of inputs before and after, digests of outputs across repetitions"])
prop("P31", "Lattice reduction preserves the lattice and returns a reduced basis",
 "Integer lattice reduction returns a basis of exactly the same lattice as its input rows and satisfies the size-reduction and Lovasz conditions for the requested parameter, for any square integer matrix and entry sizes, rank-deficient inputs included. It terminates on every input.",
 ["inputs"], "all integer matrices, from tiny to multi-word entries",
 "Tests reduce a few matrices; precision and swap logic depend on the entries.",
 ["clpoly/polynomial_factorize_univar.hh"], [("exact LLL", "clpoly/polynomial_factorize_univar.hh __lll_reduce")], ["output rows: Hermite form, Gram-Schmidt recomputed exactly"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
