// FLINT as the oracle for gcd and factorization (never the code under test).
#ifndef FL_HH
#define FL_HH
#include "model.hh"
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/fmpz_mpoly.h>
#include <flint/fmpz_mpoly_factor.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_poly_factor.h>
namespace fl {
using mdl::Z; using mdl::F; using mdl::Exp;
struct MCtx { fmpz_mpoly_ctx_t c; slong n; explicit MCtx(slong nv) : n(nv) { fmpz_mpoly_ctx_init(c, nv, ORD_LEX); } ~MCtx() { fmpz_mpoly_ctx_clear(c); } };
struct MP { fmpz_mpoly_t p; MCtx& c; explicit MP(MCtx& cc) : c(cc) { fmpz_mpoly_init(p, c.c); } ~MP() { fmpz_mpoly_clear(p, c.c); } MP(const MP&) = delete; };
inline void put(MP& r, const Z& a) {
    fmpz_mpoly_zero(r.p, r.c.c); fmpz_t k; fmpz_init(k); std::vector<ulong> e(r.c.n);
    for (auto& t : a.t) { for (slong i = 0; i < r.c.n; ++i) e[i] = mdl::eget(t.first, i); fmpz_set_mpz(k, t.second.get_mpz_t()); fmpz_mpoly_push_term_fmpz_ui(r.p, k, e.data(), r.c.c); }
    fmpz_clear(k); fmpz_mpoly_sort_terms(r.p, r.c.c); fmpz_mpoly_combine_like_terms(r.p, r.c.c);
}
inline Z get(const MP& a) {
    Z r; fmpz_t k; fmpz_init(k); std::vector<ulong> e(a.c.n); slong n = fmpz_mpoly_length(a.p, a.c.c);
    for (slong i = 0; i < n; ++i) { fmpz_mpoly_get_term_exp_ui(e.data(), a.p, i, a.c.c); fmpz_mpoly_get_term_coeff_fmpz(k, a.p, i, a.c.c); mpz_class v; fmpz_get_mpz(v.get_mpz_t(), k); Exp x(e.begin(), e.end()); r.add_term(x, v); }
    fmpz_clear(k); return r;
}
// gcd with positive leading coefficient in lex (x0 most significant)
inline Z gcd(const Z& a, const Z& b) {
    MCtx c(std::max<size_t>(1, std::max(a.nv(), b.nv()))); MP x(c), y(c), g(c); put(x, a); put(y, b);
    if (!fmpz_mpoly_gcd(g.p, x.p, y.p, c.c)) throw vh::Inconclusive{"flint gcd"};
    return get(g);
}
inline bool divides(const Z& d, const Z& a, Z* q = nullptr) {
    if (d.zero()) return a.zero();
    MCtx c(std::max<size_t>(1, std::max(a.nv(), d.nv()))); MP x(c), y(c), z(c); put(x, a); put(y, d);
    bool r = fmpz_mpoly_divides(z.p, x.p, y.p, c.c); if (r && q) *q = get(z); return r;
}
struct Fac { mpz_class content; std::vector<std::pair<Z, unsigned long>> f; };
inline Fac factor_uni(const Z& a, size_t v) {
    fmpz_poly_t p; fmpz_poly_init(p); fmpz_t k; fmpz_init(k);
    for (auto& t : a.t) { fmpz_set_mpz(k, t.second.get_mpz_t()); fmpz_poly_set_coeff_fmpz(p, mdl::eget(t.first, v), k); }
    fmpz_poly_factor_t fac; fmpz_poly_factor_init(fac); fmpz_poly_factor(fac, p); Fac r; fmpz_get_mpz(r.content.get_mpz_t(), &fac->c);
    for (slong i = 0; i < fac->num; ++i) { Z q; for (slong j = 0; j <= fmpz_poly_degree(fac->p + i); ++j) { fmpz_poly_get_coeff_fmpz(k, fac->p + i, j); mpz_class x; fmpz_get_mpz(x.get_mpz_t(), k); Exp e(v + 1, 0); e[v] = (uint32_t)j; q.add_term(e, x); } r.f.push_back({q, (unsigned long)fac->exp[i]}); }
    fmpz_poly_factor_clear(fac); fmpz_poly_clear(p); fmpz_clear(k); return r;
}
inline Fac factor(const Z& a) {
    auto vs = mdl::vars_of(a); if (vs.size() == 1) return factor_uni(a, vs[0]);
    MCtx c(std::max<size_t>(1, a.nv())); MP x(c), b(c); put(x, a); fmpz_mpoly_factor_t fac; fmpz_mpoly_factor_init(fac, c.c);
    if (!fmpz_mpoly_factor(fac, x.p, c.c)) { fmpz_mpoly_factor_clear(fac, c.c); throw vh::Inconclusive{"flint factor"}; }
    Fac r; fmpz_t k; fmpz_init(k); fmpz_mpoly_factor_get_constant_fmpz(k, fac, c.c); fmpz_get_mpz(r.content.get_mpz_t(), k); fmpz_clear(k);
    for (slong i = 0; i < fmpz_mpoly_factor_length(fac, c.c); ++i) { fmpz_mpoly_factor_get_base(b.p, fac, i, c.c); r.f.push_back({get(b), (unsigned long)fmpz_mpoly_factor_get_exp_si(fac, i, c.c)}); }
    fmpz_mpoly_factor_clear(fac, c.c); return r;
}
inline bool irreducible(const Z& a) { if (a.is_const()) return false; auto f = factor(a); return abs(f.content) == 1 && f.f.size() == 1 && f.f[0].second == 1; }
inline bool irreducible_q(const Z& a) { if (a.is_const()) return false; auto f = factor(a); return f.f.size() == 1 && f.f[0].second == 1; }
inline bool squarefree(const Z& a) { for (auto& x : factor(a).f) if (x.second > 1) return false; return true; } // ignores the integer content
// univariate over Z/p
struct NP { nmod_poly_t p; NP(uint64_t m) { nmod_poly_init(p, m); } ~NP() { nmod_poly_clear(p); } NP(const NP&) = delete; };
inline void put(NP& r, const F& a) { nmod_poly_zero(r.p); for (auto& t : a.t) nmod_poly_set_coeff_ui(r.p, mdl::eget(t.first, 0), t.second.v); }
inline F get(const NP& a) { F r; uint64_t m = nmod_poly_modulus(a.p); for (slong i = 0; i < nmod_poly_length(a.p); ++i) r.add_term(Exp(1, (uint32_t)i), mdl::Fp(nmod_poly_get_coeff_ui(a.p, i), m)); return r; }
inline F gcd(const F& a, const F& b, uint64_t p) { NP x(p), y(p), g(p); put(x, a); put(y, b); nmod_poly_gcd(g.p, x.p, y.p); return get(g); }
inline bool irreducible(const F& a, uint64_t p) { NP x(p); put(x, a); return nmod_poly_is_irreducible(x.p); }
inline std::vector<std::pair<F, unsigned long>> factor(const F& a, uint64_t p) { NP x(p); put(x, a); nmod_poly_factor_t f; nmod_poly_factor_init(f); nmod_poly_factor(f, x.p); std::vector<std::pair<F, unsigned long>> r; for (slong i = 0; i < f->num; ++i) { NP q(p); nmod_poly_set(q.p, f->p + i); r.push_back({get(q), (unsigned long)f->exp[i]}); } nmod_poly_factor_clear(f); return r; }
inline bool same_up_to_unit(const Z& a, const Z& b) { return a == b || a == -b; }
}
#endif
