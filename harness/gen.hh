// Input generators shared by the drivers (all driven by the case's Rng).
#ifndef GEN_HH
#define GEN_HH
#include "model.hh"
namespace gen {
using vh::Rng; using mdl::Exp;
// integers biased to machine-word boundaries and to interesting sizes
inline mpz_class bigint(Rng& R, unsigned bits) { mpz_class r = 0; for (unsigned i = 0; i < bits; i += 32) { r <<= 32; mpz_class w; mpz_set_ui(w.get_mpz_t(), R.next() & 0xffffffffu); r += w; } mpz_class m; mpz_ui_pow_ui(m.get_mpz_t(), 2, bits); r %= m; return r; }
inline mpz_class edge(Rng& R) {
    static const unsigned sh[] = {0, 1, 7, 15, 16, 30, 31, 32, 33, 47, 53, 61, 62, 63, 64, 65, 95, 96, 126, 127, 128, 129, 191, 192, 256};
    mpz_class r; mpz_ui_pow_ui(r.get_mpz_t(), 2, sh[R.below(sizeof sh / sizeof *sh)]);
    r += (long)R.range(-3, 3);
    if (R.chance(1, 2)) r = -r;
    return r;
}
inline mpz_class integer(Rng& R) {
    switch (R.below(8)) {
        case 0: return mpz_class((long)R.range(-3, 3));
        case 1: return mpz_class((long)R.range(-100, 100));
        case 2: case 3: case 4: return edge(R);
        case 5: { mpz_class r = bigint(R, 1 + R.below(64)); return R.chance(1, 2) ? r : mpz_class(-r); }
        case 6: { mpz_class r = bigint(R, 64 + R.below(130)); return R.chance(1, 2) ? r : mpz_class(-r); }
        default: { mpz_class r = bigint(R, 1 + R.below(400)); return R.chance(1, 2) ? r : mpz_class(-r); }
    }
}
// coefficient classes: 0 tiny, 1 small, 2 word-edge, 3 big
inline mpz_class coef(Rng& R, int cls) {
    mpz_class c = 0;
    while (c == 0) {
        switch (cls) {
            case 0: c = (long)R.range(-3, 3); break;
            case 1: c = (long)R.range(-1000, 1000); break;
            case 2: c = R.chance(1, 2) ? edge(R) : mpz_class((long)R.range(-9, 9)); break;
            default: { c = bigint(R, 1 + R.below(200)); if (R.chance(1, 2)) c = -c; }
        }
    }
    return c;
}
inline Exp exp_upto(Rng& R, unsigned nv, unsigned deg) { // total degree <= deg, spread
    Exp e(nv, 0); unsigned d = (unsigned)R.below(deg + 1);
    for (unsigned i = 0; i < d; ++i) e[R.below(nv)]++;
    mdl::trim(e); return e;
}
inline Exp exp_box(Rng& R, unsigned nv, unsigned deg) { Exp e(nv, 0); for (auto& x : e) x = (uint32_t)(R.chance(1, 3) ? 0 : R.below(deg + 1)); mdl::trim(e); return e; }
inline mdl::Z poly(Rng& R, unsigned nv, unsigned deg, unsigned terms, int cls, bool box = false) {
    mdl::Z r; for (unsigned i = 0; i < terms; ++i) r.add_term(box ? exp_box(R, nv, deg) : exp_upto(R, nv, deg), coef(R, cls)); return r;
}
inline mdl::Z upoly(Rng& R, unsigned deg, int cls, unsigned zero_in = 4, size_t v = 0) { // exact degree deg
    mdl::Z r;
    for (unsigned i = 0; i <= deg; ++i) if (i == deg || !R.chance(1, zero_in)) { Exp e(v + 1, 0); e[v] = i; r.add_term(e, coef(R, cls)); }
    return r;
}
inline mdl::Q qpoly(Rng& R, unsigned nv, unsigned deg, unsigned terms, int cls, bool box = false) {
    mdl::Q r; for (unsigned i = 0; i < terms; ++i) { mpq_class c(coef(R, cls), abs(coef(R, cls))); c.canonicalize(); r.add_term(box ? exp_box(R, nv, deg) : exp_upto(R, nv, deg), c); } return r;
}
inline mdl::F fpoly(Rng& R, uint64_t p, unsigned nv, unsigned deg, unsigned terms, bool box = false) {
    mdl::F r; for (unsigned i = 0; i < terms; ++i) { uint64_t c; switch (R.below(4)) { case 0: c = 1; break; case 1: c = p - 1 - R.below(std::min<uint64_t>(p - 1, 3)); break; default: c = R.next() % p; } r.add_term(box ? exp_box(R, nv, deg) : exp_upto(R, nv, deg), mdl::Fp(c, p)); } return r;
}
inline uint64_t is_prime_u64(uint64_t n) { mpz_class z; mpz_set_ui(z.get_mpz_t(), n); return mpz_probab_prime_p(z.get_mpz_t(), 30) != 0; }
inline uint64_t prime_below(uint64_t n) { while (!is_prime_u64(n)) --n; return n; } // n >= 2
inline uint64_t prime_above_pow2(Rng& R, unsigned lo = 12) { unsigned k = lo + R.below(64 - lo); return prime_below((1ull << k) + 200 + R.below(k < 14 ? 1000 : 6000)); }
inline uint64_t near(Rng& R, uint64_t p) { uint64_t d = R.next() >> R.below(64); switch (R.below(3)) { case 0: return p - 1 - d % p; case 1: return R.chance(1, 2) ? p / 2 + d % (p - p / 2) : p / 2 - d % (p / 2 + 1); default: return d % p; } } // residues at geometric distances from 0, p/2 and p
// Operands whose product needs the rare second correction of a Moeller-Granlund style reduction with a
// normalised modulus: found by searching with an independent model of that reduction.
inline bool second_correction(uint64_t p, uint64_t a, uint64_t b) {
    typedef unsigned __int128 w; unsigned n = (unsigned)__builtin_clzll(p); uint64_t d = p << n; uint64_t v = (uint64_t)(((((w)~d) << 64) | ~(uint64_t)0) / d);
    w x = (w)(a << n) * b; uint64_t h = (uint64_t)(x >> 64), l = (uint64_t)x; w q = (w)h * v + x; uint64_t r = l - ((uint64_t)(q >> 64) + 1) * d; if (r > (uint64_t)q) r += d; return r >= d;
}
inline bool hard_product(Rng& R, uint64_t& p, uint64_t& a, uint64_t& b) { for (int t = 0; t < 4; ++t) { p = prime_above_pow2(R, 42); for (int i = 0; i < 4000; ++i) { a = near(R, p); b = near(R, p); if (second_correction(p, a, b)) return true; } } return false; }
inline uint64_t prime(Rng& R) {
    switch (R.below(11)) {
        case 9: return prime_above_pow2(R);
        case 0: return 2; case 1: return 3; case 2: return 5;
        case 3: { static const uint64_t s[] = {7, 11, 13, 17, 19, 23, 29, 31, 97, 101, 251, 257}; return s[R.below(12)]; }
        case 4: return prime_below(65521 + R.below(1000));
        case 5: return prime_below((1ull << 31) - R.below(1000));
        case 6: return prime_below((1ull << 32) + R.below(1000));
        case 7: return prime_below((1ull << 63) - 1 - R.below(1000));
        case 8: return prime_below(~0ull - R.below(1000));
        default: return prime_below((R.next() >> R.below(60)) | 2);
    }
}
inline uint64_t odd_prime_big(Rng& R) { static const uint64_t tops[] = {1ull << 31, 1ull << 32, 1ull << 62, 1ull << 63, ~0ull}; return prime_below(tops[R.below(5)] - 1 - R.below(5000)); }
}
#endif
