"""Which drivers decide which property, and the stated meaning of a non-trivial execution."""
CHECKS = {}
def check(id, drivers, rule, **kw):
    CHECKS[id] = dict(drivers=drivers, rule=rule, **kw)
def drv(name, src=None, **kw):
    return dict(name=name, src=src or [name + ".cc"], **kw)

GMP = "GMP's mpz/mpq arithmetic is the oracle and is assumed correct"
FLINT = "FLINT 3 is the oracle for irreducibility / gcd and is assumed correct"
check("P01", [drv("zz")], "a distinct operand pair, or a register-machine history in which at least one register switched between one-word and multi-word form", assumptions=[GMP])
check("P02", [drv("qq")], "a distinct operand pair or operation history on rationals, every result compared with GMP and checked for lowest terms", assumptions=[GMP])
check("P03", [drv("zp")], "a distinct (prime, residue pair) with all field operations compared, or a distinct starting point of the prime search", assumptions=["GMP's primality test with 30 rounds is assumed correct"])
check("P04", [drv("ring_zz"), drv("ring_qq"), drv("ring_zp")], "a distinct pair of polynomials with at least two terms each (or a distinct operation history / term list), every result compared with the term-map model and checked for canonical form", assumptions=[GMP])
check("P06", [drv("div_zz"), drv("div_qq"), drv("div_zp")], "a distinct dividend/divisor pair, each with at least two terms (or a pseudo-division of positive degree), with the defining identity re-multiplied in the term-map model", assumptions=[GMP])
check("P05", [drv("order", scale=dict(san=3, rel=8)), drv("convert", scale=dict(san=2, rel=6))], "a distinct pair of different monomials (or list to sort) with order, product, quotient, gcd, lcm and divisibility compared with exponent vectors; or a distinct polynomial with at least two terms converted between orders/rings/forms", assumptions=[GMP])
check("P07", [drv("eval_zz", scale=dict(rel=4)), drv("eval_qp", scale=dict(rel=4))], "a distinct (polynomial with at least two terms, substitution, variable) tuple, every query and derivative compared with the term-map model", assumptions=[GMP])
check("P08", [drv("gcd_m", scale=dict(san=3, rel=20)), drv("gcd_u", scale=dict(san=2, rel=12))], "a distinct pair of polynomials with at least two terms each whose gcd is compared with FLINT (value up to unit) and checked for canonical form", assumptions=[FLINT])
check("P09", [drv("xgcd", scale=dict(san=3, rel=12))], "a distinct pair of polynomials of positive degree (or with two terms each) whose Bezout identity was re-multiplied in the term-map model and whose gcd was compared with FLINT", assumptions=[GMP, FLINT])
check("P10", [drv("sqf", scale=dict(san=3, rel=20))], "a distinct non-constant polynomial whose content, primitive part and squarefree factors were compared with FLINT, or a distinct list whose squarefree basis has at least two members", assumptions=[FLINT])
check("P11", [drv("fac_u", scale=dict(san=0.3, rel=4), limit_ms=dict(san=25000, rel=15000))], "a distinct univariate integer polynomial of degree at least two whose factorization was re-multiplied and whose factors were certified irreducible and complete by FLINT", assumptions=[FLINT])
check("P12", [drv("fac_m", scale=dict(san=0.5, rel=4), limit_ms=dict(san=30000, rel=20000))], "a distinct integer polynomial in at least two variables whose factorization was re-multiplied and whose factors were certified irreducible and complete by FLINT", assumptions=[FLINT])
check("P13", [drv("fac_q", scale=dict(san=0.6, rel=5), limit_ms=dict(san=30000, rel=20000))], "a distinct non-constant rational polynomial whose factorization was re-multiplied exactly, whose factors are monic in the order and were certified irreducible and complete by FLINT", assumptions=[FLINT, GMP])
check("P14", [drv("fac_zp", scale=dict(san=1, rel=6), limit_ms=dict(san=30000, rel=20000))], "a distinct non-constant polynomial over a prime field whose squarefree, distinct-degree, equal-degree and complete factorizations were re-multiplied and compared with FLINT's", assumptions=[FLINT])
check("P15", [drv("dense", scale=dict(san=1, rel=5))], "a distinct pair of dense modular polynomials of positive degree (or a distinct operation history), every operation compared with FLINT and, for products, with a schoolbook double loop", assumptions=[FLINT])
check("P31", [drv("lll", limit_ms=dict(san=15000, rel=10000))], "a distinct integer matrix that reduction actually changed, with lattice equality, unimodular transform, size reduction, Lovasz condition and short-row list checked exactly", assumptions=[FLINT, GMP])
check("P16", [drv("hensel", scale=dict(san=0.7, rel=5), limit_ms=dict(san=30000, rel=20000))], "a distinct (polynomial, prime, precision) lifted to at least p^2 with at least two modular factors, monicity, congruence and product checked; recombinations compared with FLINT", assumptions=[FLINT, GMP])
check("P17", [drv("res_zz", scale=dict(san=0.6, rel=8), limit_ms=dict(san=30000, rel=20000)), drv("res_qp", scale=dict(san=0.6, rel=8), limit_ms=dict(san=30000, rel=20000))], "a distinct pair of polynomials of positive degree in the main variable (or polynomial of degree at least two) whose resultant (discriminant) was compared with the Sylvester determinant, exactly or at random points of a 61-bit prime field", assumptions=[FLINT, GMP])
check("P18", [drv("subres", scale=dict(san=0.6, rel=6), limit_ms=dict(san=30000, rel=20000))], "a distinct pair with second degree at least two whose whole chain was compared, entry by entry and coefficient by coefficient, with the determinants of the Sylvester submatrices at random points of the prime field (a 61-bit one for integers and rationals)", assumptions=[FLINT, GMP])
GBK = dict(scale=dict(san=5, rel=40), limit_ms=dict(san=40000, rel=30000))
check("P19", [drv("gb_q", **GBK), drv("gb_z", **GBK)], "a distinct (order, system) whose reduced basis has several elements and was compared with the one an independent Buchberger algorithm computes exactly over the rationals, and with the basis of rescaled, permuted, repeated generators", assumptions=[GMP])
check("P20", [drv("ideal_q", **dict(GBK, scale=dict(san=3, rel=25))), drv("ideal_z", **dict(GBK, scale=dict(san=3, rel=25)))], "a distinct (ideal, query polynomial with at least two terms) whose membership answer and normal form were compared with an exact rational division by the verified basis", assumptions=[GMP])
check("P21", [drv("charset", scale=dict(san=5, rel=30), limit_ms=dict(san=30000, rel=20000))], "a distinct (order, system) whose characteristic or basic set has several members: ascending, inputs pseudo-reduce to zero in the model, members in the radical of the system modulo a 61-bit prime (independent Groebner basis), basic sets compared with all ascending subsets", assumptions=[GMP, "the random 60-bit prime of the case is good for the system"])
check("P22", [drv("tri_rsd", scale=dict(san=4, rel=25), limit_ms=dict(san=30000, rel=20000)), drv("tri_grd", scale=dict(san=4, rel=25), limit_ms=dict(san=30000, rel=20000)), drv("tri_sas", scale=dict(san=4, rel=20), limit_ms=dict(san=30000, rel=20000))], "a distinct (order, triangular set, polynomial) or zero-dimensional system whose rational zeros modulo a random 60-bit prime were enumerated by an independent solver and compared with the zeros of the decomposition", assumptions=[FLINT, "the random 60-bit prime of the case is good for the system"])
check("P23", [drv("roots", scale=dict(san=0.5, rel=7), limit_ms=dict(san=30000, rel=20000))], "a distinct polynomial list with at least two real roots, every returned interval decided by an independent Sturm sequence: isolation, order, completeness, multiplicities, refinement", assumptions=[GMP])
check("P24", [drv("uroots", scale=dict(san=0.5, rel=7), limit_ms=dict(san=30000, rel=20000))], "a distinct pool of real algebraic numbers in whose history two overlapping or identical isolating intervals were compared; each answer, and each number's identity after every step, decided by independent Sturm sequences", assumptions=[GMP])
check("P25", [drv("graph", scale=dict(san=5, rel=30), limit_ms=dict(san=20000, rel=10000))], "a distinct graph with at least one edge (all graphs on up to five vertices included), every derived graph, ordering, component and height compared with a brute-force definition under several tie-breaking sources", assumptions=[])
check("P26", [drv("registry", scale=dict(san=5, rel=30), limit_ms=dict(san=20000, rel=10000))], "a distinct registration history with at least one deletion and several live names, the whole registry compared with a reference map after the steps", assumptions=[])
check("P27", [drv("text", scale=dict(san=2, rel=12))], "a distinct polynomial with at least two terms printed and read back by an independent parser, or a distinct number printed and read back by the library", assumptions=[GMP])
check("P28", [drv("random", scale=dict(san=3, rel=15), limit_ms=dict(san=20000, rel=10000))], "a distinct generated object with at least two terms, edges or elements, checked against the requested variables, degree, count, density and coefficient range", assumptions=[GMP])
OPS = ["ops_arith.cc", "ops_factor.cc", "ops_elim.cc", "ops_misc.cc"]
check("P30", [drv("pure", src=["pure.cc"] + OPS, scale=dict(san=3, rel=12), limit_ms=dict(san=30000, rel=20000))], "a distinct (operation, arguments) instance whose arguments were digested before and after every call and whose result was recomputed after other calls, under other random streams and default primes, and with aliased objects", assumptions=[])
check("P29", [drv("mixed", src=["mixed.cc"] + OPS, scale=dict(san=8, dbg=5, val=0.5), limit_ms=dict(san=30000, dbg=40000, val=120000))], "a distinct history of operations (or register machine, or operation and arguments) executed with every memory checker armed: AddressSanitizer, UBSan, libstdc++ debug containers, memcheck; repeated calls with the heap size measured", variants=["san", "dbg", "val"])
