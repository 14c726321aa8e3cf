// Oracle for integer factorizations (P11, P12, P16) and input families with many modular factors.
#ifndef FACOPS_HH
#define FACOPS_HH
#include "gcdops.hh"
namespace ring {
// content * prod f^e == a; factors primitive, pairwise distinct up to unit, irreducible (FLINT decides irreducibility)
inline void factors_ok(const mpz_class& content, const std::vector<std::pair<Z, uint64_t>>& l, const Z& a, const fl::Fac& w) {
    Z prod(content); size_t n = 0; for (auto& x : l) { VREQ(x.second > 0, "multiplicity-zero", "multiplicity 0 for " << x.first); VREQ(!x.first.is_const(), "constant-factor", "constant factor " << x.first); n += x.second; }
    for (auto& x : l) for (uint64_t i = 0; i < x.second; ++i) { prod = prod * x.first; VREQ(prod.t.size() < 200000, "product", "product of the factors explodes"); } VREQ(prod == a, "product", "content times product of the factors is " << vh::clip(prod.str(), 600) << " content=" << content);
    for (auto& x : l) VREQ(mdl::content(x.first) == 1, "not-primitive", "factor " << x.first << " is not primitive");
    for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) VREQ(!fl::same_up_to_unit(l[i].first, l[j].first), "duplicate-factor", "factor " << l[i].first << " listed twice");
    for (auto& x : l) { bool hit = false; for (auto& y : w.f) if (fl::same_up_to_unit(x.first, y.first)) { hit = true; VREQ(y.second == x.second, "multiplicity", "factor " << x.first << " has multiplicity " << y.second << " not " << x.second); } if (!hit) { VREQ(fl::irreducible(x.first), "reducible-factor", "factor " << x.first << " is reducible"); vh::fail("foreign-factor", VMSG("factor " << x.first << " is not among the irreducible factors")); } }
    VREQ(l.size() == w.f.size(), "factor-count", l.size() << " distinct factors, expected " << w.f.size());
}
// minimal polynomial of +-sqrt(d1) +- ... +-sqrt(dk) (all modular factors of degree <= 2)
inline Z swinnerton(const std::vector<long>& d, long shift = 0) {
    Z p = Z::var(0) - Z(mpz_class(shift)); // p(x) with coefficients; p(x-s)*p(x+s), s^2=d: polynomials in x and s
    for (long k : d) { Z q = p.subst_poly(0, Z::var(0) + Z::var(1)); Z r = p.subst_poly(0, Z::var(0) - Z::var(1)); Z m = q * r, o; for (auto& t : m.t) { uint32_t e = mdl::eget(t.first, 1); Exp x(1, mdl::eget(t.first, 0)); mpz_class c = t.second; for (uint32_t i = 0; i < e / 2; ++i) c *= k; if (e % 2) throw std::runtime_error("swinnerton"); o.add_term(x, c); } p = o; }
    return p;
}
inline Z cyclotomic(unsigned n) { Z r(mpz_class(1)); std::vector<Z> ph(n + 1); for (unsigned k = 1; k <= n; ++k) if (n % k == 0) { Z q = Z::var(0, k) - Z(mpz_class(1)), t; for (unsigned j = 1; j < k; ++j) if (k % j == 0) { mdl::divexact(q, ph[j], t); q = t; } ph[k] = q; } return ph[n]; }
inline long sqfree_small(Rng& R) { static const long s[] = {-1, 2, 3, 5, -2, 6, 7, -3, 10, 11, -7, 13}; return s[R.below(12)]; }
// irreducible-ish building blocks that split a lot modulo every prime
inline Z splitting(Rng& R) {
    switch (R.below(7)) {
        case 0: case 1: { std::vector<long> d; while (d.size() < 2) { long k = sqfree_small(R); bool ok = true; for (long x : d) if (x == k) ok = false; if (ok) d.push_back(k); } return swinnerton(d, R.range(-2, 2)); }
        case 2: { static const unsigned n[] = {5, 8, 12, 15, 16, 20, 24, 21, 30, 60, 7, 9}; return cyclotomic(n[R.below(12)]); }
        case 3: { std::vector<long> d{-1, 2, 3}; if (R.chance(1, 2)) d = {2, 3, 5}; if (R.chance(1, 3)) d = {-1, 5, 7}; return swinnerton(d, R.range(-1, 1)); }
        case 4: return Z::var(0, 4) + Z(mpz_class((long)R.range(1, 9))) * mpz_class((long)(R.chance(1, 2) ? 1 : 4));
        case 5: { Z g = swinnerton({sqfree_small(R)}, R.range(-3, 3)); return g; }
        default: { Z q = Z::var(0, 2) * mpz_class((long)R.range(1, 6)) + Z::var(0) * mpz_class((long)R.range(-9, 9)) + Z(mpz_class((long)R.range(-9, 9))); return q; }
    }
}
inline Z affine(Rng& R, const Z& f) { Z l = Z::var(0) * mpz_class((long)(R.chance(2, 3) ? 1 : R.range(1, 4))) + Z(mpz_class((long)R.range(-3, 3))); return f.subst_poly(0, l); }
inline Z reversed(const Z& f) { Z r; int64_t d = f.deg(0); for (auto& t : f.t) r.add_term(Exp(1, (uint32_t)(d - mdl::eget(t.first, 0))), t.second); return r; }
}
#endif
