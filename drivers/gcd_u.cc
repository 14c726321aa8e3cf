#include "gcdops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
static Z up(Rng& R, unsigned d, int cls) { return gen::upoly(R, d, cls); }
static Z bits(Rng& R, unsigned d, unsigned b) { Z r; for (unsigned i = 0; i <= d; ++i) if (i == d || R.chance(3, 4)) { mpz_class k = gen::bigint(R, 1 + R.below(b)); if (k == 0) k = 1; if (R.chance(1, 2)) k = -k; r.add_term(Exp(1, i), k); } return r; }
static void run(Rng& R, Z a, Z b, const char* kind) {
    if (R.chance(1, 2)) std::swap(a, b); vh::set_random_device(vh::random_rd_mode(R), R.next()); vh::desc(std::string(kind) + " A=" + a.str() + " B=" + b.str()); auto A = cv::tou<ZZ>(a), B = cv::tou<ZZ>(b); const auto A0 = A, B0 = B;
    auto G = clpoly::polynomial_GCD(A, B); auto why = cv::canon(G); VREQ(why.empty(), "canonical", why << " in " << G); auto g = cv::from(G); check_gcd(g, a, b, "univariate gcd"); VREQ(A == A0 && B == B0, "operand-changed", "an argument changed"); if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b)); vh::event(std::string("kind ") + kind); if (g.deg(0) > 0) vh::event("gcd of positive degree"); vh::sample(vh::clip(a.str(), 150) + " , " + vh::clip(b.str(), 150));
}
SCENARIO(families, 5000, 300000) { auto q = gcd_pair(R, 1, R.chance(1, 6) ? 25 : 6); run(R, q.a, q.b, q.kind); }
// coefficient sizes on both sides of the heuristic-gcd limit (sum of bit lengths 128), evaluation near-misses
SCENARIO(bitsizes, 4000, 300000) {
    unsigned x = 1 + R.below(120), y = R.chance(1, 2) ? 128 - std::min(127u, x + (unsigned)R.below(6)) : 1 + R.below(140); unsigned gb = R.below(std::min(x, y) + 1); unsigned d = R.below(8); Z g = bits(R, d, gb + 1), a = g * bits(R, R.below(7), x - std::min(x, gb) + 1), b = g * bits(R, R.below(7), y - std::min(y, gb) + 1); run(R, a, b, "bit sizes");
}
// cofactors with common values at many integer points, or with the same image: the heuristic must not accept a wrong gcd
SCENARIO(heuristic_traps, 2500, 200000) {
    Z g = up(R, R.below(4), R.below(2)), x = up(R, 1 + R.below(4), R.below(2)), y; switch (R.below(4)) { case 0: { mpz_class pt = mpz_class(1) << (unsigned)R.range(1, 60); pt += (long)R.range(-3, 3); y = x + (Z::var(0) - Z(pt)) * mpz_class((long)R.range(-3, 3)); break; } case 1: { y = x; y.add_term(Exp(), mpz_class((long)R.range(-2, 2))); break; } case 2: { // values with a large common factor at powers of two
        mpz_class pt = mpz_class(1) << (unsigned)R.range(1, 40); y = x + Z(mpz_class(pt)); break; } default: { long k = R.range(1, 6); x = Z::var(0, k) - Z(1); y = Z::var(0, R.range(1, 6)) - Z(1); } } if (y.zero()) y = x; if (R.chance(1, 3)) { x = x * up(R, 2, 0); } run(R, g * x, g * y, "heuristic traps");
}
SCENARIO(zeros_constants, 400, 10000) {
    Z a = R.chance(1, 3) ? Z(gen::coef(R, R.below(4))) : up(R, R.below(4), R.below(4)), b = R.chance(1, 2) ? Z(gen::coef(R, R.below(4))) : R.chance(1, 2) ? up(R, R.below(4), 3) : Z(); run(R, a, b, "constants"); auto A = cv::tou<ZZ>(a); clpoly::upolynomial_<ZZ> z; VREQ(fl::same_up_to_unit(cv::from(clpoly::polynomial_GCD(A, z)), a) && fl::same_up_to_unit(cv::from(clpoly::polynomial_GCD(z, A)), a) && clpoly::polynomial_GCD(z, z).empty(), "gcd-with-zero", "gcd with zero");
}
SCENARIO(large, 40, 3000) { Z g = up(R, 20 + R.below(60), R.below(4)), a = g * up(R, R.below(60), R.below(4)), b = g * up(R, R.below(60), R.below(4)); run(R, a, b, "large"); }
// ---- prime field ----
static mdl::F fp(Rng& R, uint64_t p, unsigned d) { mdl::F r; for (unsigned i = 0; i <= d; ++i) { uint64_t k = R.chance(1, 5) ? 0 : R.chance(1, 3) ? p - 1 : R.next() % p; if (i == d && !k) k = 1; r.add_term(Exp(1, i), mdl::Fp(k, p)); } return r; }
static mdl::F one(uint64_t p) { return mdl::F(mdl::Fp(1, p)); }
static void runp(Rng& R, mdl::F a, mdl::F b, uint64_t p) {
    vh::desc("p=" + std::to_string(p) + " A=" + a.str() + " B=" + b.str()); auto A = cv::tou<Zp>(a, p), B = cv::tou<Zp>(b, p); const auto A0 = A, B0 = B; auto G = clpoly::polynomial_GCD(A, B); auto why = cv::canon(G); VREQ(why.empty(), "canonical", why); for (auto& t : G.data()) VREQ(t.second.prime() == p, "prime", "modulus changed");
    auto w = fl::gcd(a, b, p), g = cv::from(G); if (b.zero() || a.zero()) { // gcd with zero: the other argument up to a unit
        auto o = a.zero() ? b : a; mdl::F q; VREQ(!g.zero() == !o.zero() && (o.zero() || (g.deg(0) == o.deg(0) && mdl::divexact(o, g, q))), "gcd-with-zero", "gcd with zero gave " << g); } else VREQ(g == w, "wrong-gcd", "got " << g << " expected " << w); VREQ(A == A0 && B == B0, "operand-changed", "an argument changed"); if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b) + p);
}
SCENARIO(prime_field, 5000, 300000) {
    uint64_t p = gen::prime(R); unsigned m = R.chance(1, 10) ? 60 : 8; auto g = fp(R, p, R.below(m)), x = fp(R, p, R.below(m)), y = fp(R, p, R.below(m)); switch (R.below(8)) { case 0: runp(R, x, y, p); break; case 1: runp(R, g, g * x, p); break; case 2: runp(R, g, R.chance(1, 2) ? g : -g, p); break; case 3: runp(R, g * g * x, g * y * y, p); break; case 4: { // sparse shapes: quotients of high degree
            auto t = mdl::F(); t.add_term(Exp(1, 1 + R.below(200)), mdl::Fp(1, p)); t.add_term(Exp(), mdl::Fp(p - 1, p)); auto s = mdl::F(); s.add_term(Exp(1, 1 + R.below(200)), mdl::Fp(1, p)); s.add_term(Exp(), mdl::Fp(p - 1, p)); runp(R, t * g, s * g, p); break; } case 5: runp(R, g, mdl::F(), p), runp(R, mdl::F(), g, p); break; default: runp(R, g * x, g * y, p); }
}
// degrees around the half-gcd cut-over of the dense arithmetic
SCENARIO(prime_field_large, 30, 1500) {
    uint64_t p = R.chance(1, 3) ? gen::prime(R) : gen::odd_prime_big(R); auto sz = [&]() -> unsigned { switch (R.below(4)) { case 0: return R.below(30); case 1: return 90 + R.below(30); case 2: return 330 + R.below(30); default: return R.below(500); } }; unsigned dg = sz(), dx = sz(), dy = sz(); auto mul = [&](const mdl::F& a, const mdl::F& b) { fl::NP x(p), y(p), z(p); fl::put(x, a); fl::put(y, b); nmod_poly_mul(z.p, x.p, y.p); return fl::get(z); }; auto g = fp(R, p, dg); runp(R, mul(g, fp(R, p, dx)), mul(g, fp(R, p, dy)), p);
}
