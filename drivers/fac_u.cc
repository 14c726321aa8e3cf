#include "facops.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace ring;
static void run(Rng& R, Z a, const char* kind) {
    if (a.zero()) a = Z(mpz_class(1)); bool big = R.chance(1, 6); clpoly::__g_use_large_prime = big; vh::set_random_device(vh::random_rd_mode(R), R.next()); cv::vars(3); vh::desc(std::string(kind) + (big ? " (large prime)" : "") + " F=" + a.str());
    auto w = fl::factor_uni(a, 0); auto A = cv::tou<ZZ>(a); const auto A0 = A; std::vector<std::pair<Z, uint64_t>> l; mpz_class c;
    bool viapoly = R.chance(1, 4); if (viapoly) { Ctx<ZZ, clpoly::lex> cx; cx.ord = cv::ord_lex(); auto P = cx.mk(a); auto r = clpoly::factorize(P); c = cv::mz(r.content); for (auto& x : r.factors) { auto why = cv::canon(x.first, cx.ord); VREQ(why.empty(), "canonical", why); l.push_back({cv::from(x.first), x.second}); } }
    else { auto r = clpoly::factorize(A); c = cv::mz(r.content); for (auto& x : r.factors) { auto why = cv::canon(x.first); VREQ(why.empty(), "canonical", why); l.push_back({cv::from(x.first), x.second}); } }
    clpoly::__g_use_large_prime = false; VREQ(A == A0, "operand-changed", "argument changed"); factors_ok(c, l, a, w); for (auto& x : l) VREQ(x.first.t.rbegin()->second > 0, "sign", "factor " << x.first << " has a negative leading coefficient");
    if (a.deg(0) >= 2) vh::nontrivial(mdl::hash(a)); vh::sample(std::string(kind) + " " + vh::clip(a.str(), 250)); vh::event(std::string("kind ") + kind); vh::event("irreducible factors certified", l.size()); vh::event_max("degree", a.deg(0)); vh::event_max("distinct factors", l.size());
}
SCENARIO(products, 2500, 150000) { int cls = R.below(R.chance(1, 3) ? 4 : 2); unsigned k = 1 + R.below(5); Z a(R.chance(1, 2) ? mpz_class((long)(R.chance(1, 2) ? 1 : -1)) : gen::coef(R, R.below(4))); for (unsigned i = 0; i < k; ++i) a = a * mdl::pw(gen::upoly(R, R.below(5), cls, 3), R.chance(3, 4) ? 1 : 1 + R.below(4)); run(R, a, "products"); }
SCENARIO(irreducible_random, 500, 40000) { run(R, gen::upoly(R, 2 + R.below(14), R.below(4), 3), "dense random"); }
// many modular factors, few true ones: the lattice stage and its fall-back
SCENARIO(recombination, 700, 60000) { Z a(mpz_class(1)); unsigned k = 1 + R.below(4); for (unsigned i = 0; i < k && a.deg(0) < 20; ++i) { Z g = splitting(R); if (R.chance(1, 2)) g = affine(R, g); if (R.chance(1, 4)) g = reversed(g); a = a * g; } if (R.chance(1, 6)) a = a * mpz_class((long)R.range(-6, 6)); run(R, a, "recombination"); }
SCENARIO(conjugates, 400, 30000) { // shifts and sign changes of one polynomial: all factors look alike modulo small primes
    Z g = splitting(R), a = g; if (g.deg(0) > 8) g = swinnerton({2, 3}); unsigned k = 1 + R.below(3); for (unsigned i = 0; i < k && a.deg(0) + g.deg(0) <= 24; ++i) { long s = R.range(1, 6); a = a * g.subst_poly(0, Z::var(0) + Z(mpz_class(R.chance(1, 3) ? s * 30030 : s))); } if (R.chance(1, 4)) a = a * a; run(R, a, "conjugates"); }
SCENARIO(binomials, 200, 3000) { unsigned n = 2 + R.below(35); Z a = Z::var(0, n) * mpz_class((long)(R.chance(1, 2) ? 1 : R.range(1, 64))) + Z(mpz_class((long)(R.chance(1, 2) ? (R.chance(1, 2) ? 1 : -1) : R.range(-81, 81)))); if (R.chance(1, 3)) a = a.subst_poly(0, Z::var(0, 2)); run(R, a.deg(0) > 40 ? Z::var(0, 12) - Z(mpz_class(1)) : a, "binomials"); }
SCENARIO(leading, 600, 40000) { // leading coefficients divisible by many primes, discriminants divisible by all small primes
    mpz_class prim = 1; static const long ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43}; unsigned np = R.below(15); for (unsigned i = 0; i < np; ++i) prim *= ps[i]; Z a(mpz_class(1)); unsigned k = 2 + R.below(3); for (unsigned i = 0; i < k; ++i) { Z g = gen::upoly(R, 1 + R.below(3), R.below(2)); if (R.chance(1, 2)) g = g + Z::var(0, g.deg(0)) * prim; else if (R.chance(1, 2)) { g = a + Z(prim * mpz_class((long)R.range(1, 3))); if (g.deg(0) > 6 || g.zero()) g = Z::var(0) + Z(prim); } a = a * g; } if (a.zero()) a = Z::var(0, 2) + Z(mpz_class(1)); run(R, a, "leading"); }
SCENARIO(wide, 150, 8000) { Z a = gen::upoly(R, 1 + R.below(5), 3), b = gen::upoly(R, 1 + R.below(5), 3), c = gen::upoly(R, R.below(3), 1); mpz_class m = gen::bigint(R, 300); if (m == 0) m = 1; run(R, a * b * mdl::pw(c, 1 + R.below(3)) * m, "wide"); }
SCENARIO(high_multiplicity, 150, 8000) { Z a(gen::coef(R, 1)); unsigned k = 1 + R.below(3); for (unsigned i = 0; i < k; ++i) a = a * mdl::pw(R.chance(1, 2) ? Z::var(0) + Z(mpz_class((long)R.range(-3, 3))) : -gen::upoly(R, 1 + R.below(2), 0), 1 + R.below(9)); run(R, a, "multiplicity"); }
SCENARIO(constants, 200, 1000) { cv::vars(2); mpz_class c = R.chance(1, 4) ? mpz_class(0) : gen::coef(R, 3); auto r = clpoly::factorize(cv::tou<ZZ>(Z(c))); VREQ(cv::mz(r.content) == c && r.factors.empty(), "constant", "factorize(" << c << ")"); if (R.chance(1, 2)) { Z l = Z::var(0) * gen::coef(R, 3) + Z(gen::coef(R, 3)); run(R, l, "linear"); } vh::nontrivial(R.next()); }
