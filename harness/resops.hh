// P17 / P18 oracle: Sylvester matrices evaluated at random points of a large prime field
// (determinants commute with evaluation), and exact polynomial determinants for small fields.
#ifndef RESOPS_HH
#define RESOPS_HH
#include "gcdops.hh"
#include <clpoly/resultant.hh>
namespace ring {
using mdl::Fp; static const uint64_t BP = 1963387453816328017ull; // an arbitrary 61-bit prime (not 2^61-1: inputs contain that number)
typedef std::vector<Fp> Vec;
inline Fp in(const mpz_class& c, uint64_t) { return Fp((uint64_t)mpz_fdiv_ui(c.get_mpz_t(), BP), BP); }
inline Fp in(const mpq_class& c, uint64_t p) { Fp d = in(c.get_den(), p); if (d.v == 0) throw vh::Inconclusive{"denominator"}; return in(c.get_num(), p) * d.inv(); }
inline Fp in(const Fp& c, uint64_t p) { return Fp::fix(c, p); }
inline Fp fpw(Fp b, uint64_t e, uint64_t p) { Fp r(1, p); while (e) { if (e & 1) r = r * b; b = b * b; e >>= 1; } return r; }
// coefficients in x_v (index = degree) evaluated at the point, d+1 entries
template <class K> Vec at(const mdl::P<K>& a, size_t v, const Vec& pt, int64_t d, uint64_t p) { Vec r(d + 1, Fp(0, p)); for (auto& t : a.t) { Fp c = in(t.second, p); for (size_t i = 0; i < t.first.size(); ++i) if (i != v && t.first[i]) c = c * fpw(pt[i], t.first[i], p); r[mdl::eget(t.first, v)] += c; } return r; }
inline Fp ndet(std::vector<Vec> m, uint64_t p) { Fp d(1, p); size_t n = m.size(); for (size_t k = 0; k < n; ++k) { size_t i = k; while (i < n && m[i][k].zero()) ++i; if (i == n) return Fp(0, p); if (i != k) { std::swap(m[i], m[k]); d = -d; d = Fp::fix(d, p); } d = d * m[k][k]; Fp iv = m[k][k].inv(); for (i = k + 1; i < n; ++i) { Fp f = m[i][k] * iv; if (f.zero()) continue; for (size_t j = k; j < n; ++j) m[i][j] = m[i][j] - f * m[k][j]; } } return d; }
// coefficient of x^c of the j-th subresultant of f (formal degree m) and g (formal degree l)
inline Fp subres(const Vec& f, const Vec& g, int64_t j, int64_t c, uint64_t p) { int64_t m = (int64_t)f.size() - 1, l = (int64_t)g.size() - 1, N = m + l - 2 * j; std::vector<Vec> S(N, Vec(N, Fp(0, p))); auto get = [&](const Vec& a, int64_t i) { return i >= 0 && i < (int64_t)a.size() ? a[i] : Fp(0, p); };
    for (int64_t r = 0; r < l - j; ++r) for (int64_t k = 0; k < N; ++k) { int64_t deg = k + 1 < N ? m + l - j - 1 - k : c; S[r][k] = get(f, deg - (l - j - 1 - r)); }
    for (int64_t r = 0; r < m - j; ++r) for (int64_t k = 0; k < N; ++k) { int64_t deg = k + 1 < N ? m + l - j - 1 - k : c; S[l - j + r][k] = get(g, deg - (m - j - 1 - r)); } return ndet(S, p); }
inline Fp sylvester(const Vec& f, const Vec& g, uint64_t p) { if (f.size() + g.size() == 2) return Fp(1, p); return subres(f, g, 0, 0, p); }
// exact Sylvester determinant (small sizes)
template <class K> mdl::P<K> sylv_exact(const mdl::P<K>& a, const mdl::P<K>& b, size_t v, int64_t m, int64_t l, const K& one) { auto ca = a.coeffs(v), cb = b.coeffs(v); size_t N = m + l; std::vector<std::vector<mdl::P<K>>> S(N, std::vector<mdl::P<K>>(N)); for (int64_t r = 0; r < l; ++r) for (int64_t i = 0; i <= m; ++i) if (i < (int64_t)ca.size()) S[r][r + m - i] = ca[i]; for (int64_t r = 0; r < m; ++r) for (int64_t i = 0; i <= l; ++i) if (i < (int64_t)cb.size()) S[l + r][r + l - i] = cb[i]; return mdl::det(S, one); }
template <class X> uint64_t evalp(const X& c) { if constexpr (std::is_same_v<typename X::coeff, Zp>) return c.p; else return BP; }
inline Vec point(Rng& R, unsigned nv, uint64_t p) { Vec r; for (unsigned i = 0; i < nv; ++i) r.push_back(Fp(R.next() % p, p)); return r; }
// polynomials of degree exactly d in v
template <class X> typename X::M withdeg(Rng& R, const X& c, unsigned nv, unsigned v, int64_t d, unsigned odeg, unsigned terms, int cls) { typename X::M r; for (int64_t i = 0; i <= d; ++i) { if (i < d && R.chance(1, 3)) continue; typename X::M k; for (int t = 0; t < 9 && k.zero(); ++t) { k = typename X::M(); unsigned T = 1 + R.below(terms); for (unsigned s = 0; s < T; ++s) { Exp e = gen::exp_upto(R, nv, odeg); if (v < e.size()) e[v] = 0; k.add_term(e, rcoef(R, c, cls)); } } if (k.zero()) k = typename X::M(c.k(1)); r = r + k.shift(v, (uint32_t)i); } return r; }
template <class X> struct RP { typename X::M f, g; const char* kind; };
template <class X> RP<X> respair(Rng& R, const X& c, unsigned nv, unsigned v, unsigned D) {
    unsigned od = nv > 3 ? 1 + R.below(2) : nv > 1 ? R.below(3) : 0, T = 1 + R.below(3); int cls = R.below(4); auto W = [&](int64_t d) { return withdeg(R, c, nv, v, d, od, T, cls); }; typedef typename X::M M;
    switch (R.below(9)) {
    case 0: { int64_t d = R.below(D + 1); return {W(d), W(d), "equal degree"}; }
    case 1: { M h = W(1 + R.below(2)); cls = 0; return {h * W(R.below(D > 2 ? D - 1 : 1)), h * W(R.below(D > 2 ? D - 1 : 1)), "common factor"}; }
    case 2: { // defective: F = Q*G + low-degree remainder
        int64_t d = 1 + R.below(D > 1 ? D - 1 : 1); cls = R.below(2); M g = W(d), q = withdeg(R, c, nv, v, (int64_t)R.below(D - std::min<unsigned>(D, (unsigned)d) + 1), 0, 1, 0), r = withdeg(R, c, nv, v, (int64_t)R.below((unsigned)d), od, T, cls); return {q * g + r, g, "defective"}; }
    case 3: { // in x^k: large gaps everywhere
        unsigned k = 2 + R.below(2); M f = W(1 + R.below(std::max(1u, D / k))), g = W(1 + R.below(std::max(1u, D / k))); auto pwk = [&](const M& a) { M r; for (auto& t : a.t) { Exp e = t.first; if (mdl::eget(e, v)) e[v] *= k; r.t[e] = t.second; } return r; }; f = pwk(f); g = pwk(g); if (R.chance(1, 2)) f = f + W(R.below(2)); return {f, g, "gaps"}; }
    case 4: { // successive quotients prescribed: remainder sequence with jumps
        M a = M(c.k(1)), b; cls = 0; while (a.deg(v) < (int64_t)D) { M q = withdeg(R, c, nv, v, 1 + (int64_t)R.below(3), R.below(2), 1, 0); M n = q * a + b; b = a; a = n; if (a.zero()) { a = M(c.k(1)); break; } if (a.t.size() > 40) break; } if (a.deg(v) > (int64_t)D + 2) return {W(D), W(D ? D - 1 : 0), "generic"}; if (b.zero()) b = M(c.k(1)); return {a, b, "quotient sequence"}; }
    case 5: { return {W(R.below(D + 1)), typename X::M(withdeg(R, c, nv, v, 0, od, T, cls)), "constant second"}; }
    case 6: { M f = W(2 + R.below(D > 2 ? D - 1 : 1)); return {f, f.diff(v).zero() ? M(c.k(1)) : f.diff(v), "derivative"}; }
    default: return {W(R.below(D + 1)), W(R.below(D + 1)), "generic"};
    }
}
}
#endif
