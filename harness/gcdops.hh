// Input families for gcd-like operations (P08, P10): planted common factors, contents, shared
// leading coefficients, primes that are unlucky for the library's fixed prime sequence.
#ifndef GCDOPS_HH
#define GCDOPS_HH
#include "ring.hh"
#include "fl.hh"
namespace ring {
using mdl::Z;
static const uint64_t P0 = 18446744073709551557ull; // first prime of the library's sequence
inline mpz_class u64(uint64_t v) { mpz_class r; mpz_set_ui(r.get_mpz_t(), v); return r; }
inline uint64_t libprime(Rng& R) { uint64_t p = P0; for (unsigned i = R.below(3); i; --i) p = gen::prime_below(p - 1); return p; }
// product of the first k primes of that sequence: a divisibility by it fools the first k CRT images at once
inline mpz_class firstprimes(unsigned k) { mpz_class r = 1; for (uint64_t p = P0; k; --k) { r *= u64(p); p = gen::prime_below(p - 1); } return r; }
inline Z zr(Rng& R, unsigned nv, unsigned deg, unsigned terms, int cls) { Z r; while (r.zero()) r = gen::poly(R, nv, deg, terms, cls, R.chance(1, 4)); return r; }
// polynomial in variables lo..nv-1 only
inline Z sub(Rng& R, unsigned lo, unsigned nv, unsigned deg, unsigned terms, int cls) { Z r; while (r.zero()) { r = Z(); for (unsigned i = 0; i < terms; ++i) { Exp e = gen::exp_upto(R, nv - lo, deg); e.insert(e.begin(), lo, 0); r.add_term(e, gen::coef(R, cls)); } } return r; }
struct Pair { Z a, b; const char* kind; };
inline Pair gcd_pair(Rng& R, unsigned nv, unsigned sz) {
    unsigned d = 1 + R.below(sz); int cls = R.below(4); auto T = [&] { return 1 + (unsigned)R.below(4); };
    Pair q; switch (R.below(14)) {
    case 0: { q = {zr(R, nv, d, T(), cls), zr(R, nv, d, T(), cls), "independent"}; break; }
    case 1: case 2: { Z g = zr(R, nv, d, T(), cls); q = {g * zr(R, nv, d, T(), cls), g * zr(R, nv, d, T(), cls), "planted"}; break; }
    case 3: { Z g = zr(R, nv, d, T(), cls), c1 = sub(R, nv > 1 ? 1 : 0, nv, 2, T(), 1), c2 = sub(R, nv > 1 ? 1 : 0, nv, 2, T(), 1), c = sub(R, nv > 1 ? 1 : 0, nv, 2, T(), 1); q = {g * c1 * c * zr(R, nv, d, T(), 0), g * c2 * c * zr(R, nv, d, T(), 0), "contents"}; break; }
    case 4: { // shared leading coefficient in a variable, images drop degree where it vanishes
        unsigned v = R.below(nv); Z l = sub(R, nv > 1 ? 1 : 0, nv, 2, 2, 0); Z g = l * Z::var(v, 2) + zr(R, nv, 1, T(), cls); Z x = l * Z::var(v) + zr(R, nv, 1, T(), cls), y = l * Z::var(v) + zr(R, nv, 1, T(), cls); if (g.zero()) g = Z(1); q = {g * x, g * y, "shared-lc"}; if (q.a.zero() || q.b.zero()) q = {l, l, "shared-lc"}; break; }
    case 5: { Z g = zr(R, nv, d, 2, 0); unsigned i = R.below(4), j = R.below(4); q = {mdl::pw(g, i) * zr(R, nv, 1, T(), 0), mdl::pw(g, j) * zr(R, nv, 1, T(), 0), "powers"}; break; }
    case 6: { Z g = zr(R, nv, d, T(), cls); q = {g, R.chance(1, 2) ? g : -g, "equal"}; if (R.chance(1, 2)) q.b = q.b * mpz_class((long)R.range(1, 9)); break; }
    case 7: { Z g = zr(R, nv, d, T(), cls); q = {g, g * zr(R, nv, d, T(), cls), "multiple"}; break; }
    case 8: { Z g = zr(R, nv, d, T(), cls); q = {g * zr(R, nv, d, T(), cls), zr(R, nv, d + 2, 1, cls), "one-term"}; break; }
    case 9: { q = {zr(R, nv, d, 1, cls), zr(R, nv, d, 1, cls), "two monomials"}; break; }
    case 10: { // different variable sets
        unsigned k = R.below(nv); Z g = sub(R, k, nv, d, T(), cls); q = {g * sub(R, k, nv, d, T(), cls), g * zr(R, nv, d, T(), cls), "different variables"}; break; }
    case 11: { // big integer content and coefficients over several primes
        Z g = zr(R, nv, d, T(), 3), x = zr(R, nv, d, T(), 3), y = zr(R, nv, d, T(), 3); mpz_class c = gen::bigint(R, 100); if (c == 0) c = 1; q = {g * x * c, g * y * c, "big"}; if (R.chance(1, 2)) { q.a = q.a * gen::coef(R, 3); q.b = q.b * gen::coef(R, 3); } break; }
    case 12: { // unlucky for the library's primes: cofactors agree modulo p
        mpz_class p = R.chance(1, 2) ? u64(libprime(R)) : firstprimes(1 + R.below(4)); Z h = zr(R, nv, d, T(), 0), g = zr(R, nv, d, T(), cls), x = zr(R, nv, d, T(), 0); Z y = x + zr(R, nv, d, T(), 0) * p; if (y.zero()) y = x; q = {g * x, g * y, "cofactors equal mod p"}; if (R.chance(1, 2)) { q.a = q.a * h; q.b = q.b * zr(R, nv, d, T(), 0); } break; }
    default: { // leading coefficient (in some variable) divisible by p, constant terms divisible by p
        mpz_class p = u64(libprime(R)); unsigned v = R.below(nv); Z g = Z::var(v, d) * p + zr(R, nv, d, T(), 0), x = zr(R, nv, d, T(), cls), y = zr(R, nv, d, T(), cls); if (R.chance(1, 2)) x = x * p + Z(mpz_class(1)); if (R.chance(1, 3)) y = Z::var(v, d + 1) * p + y; if (x.zero()) x = Z(1); if (y.zero()) y = Z(1); if (g.zero()) g = Z(1); q = {g * x, g * y, "lc divisible by p"}; }
    }
    return q;
}
inline void check_gcd(const Z& g, const Z& a, const Z& b, const char* what) {
    Z w = fl::gcd(a, b); vh::event("checks"); if (fl::same_up_to_unit(g, w)) return;
    if (!fl::divides(g, a) || !fl::divides(g, b)) vh::fail(std::string("not-a-divisor:") + what, VMSG(what << ": " << g << " does not divide both inputs, gcd is " << w));
    vh::fail(std::string("not-greatest:") + what, VMSG(what << ": got " << g << " but the gcd is " << w));
}
}
#endif
