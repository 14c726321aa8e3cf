#ifndef RESULTANT_OPS_HH
#define RESULTANT_OPS_HH
#include "resops.hh"
namespace ring {
template <class X> void novar(const typename X::M& r, unsigned v, const char* w) { VREQ(!r.has(v), std::string("main-variable:") + w, w << " still contains the main variable: " << r); }
template <class X> void cmp_points(Rng& R, const X& c, const typename X::M& got, unsigned nv, const std::function<Fp(const Vec&, uint64_t)>& want, const char* key) { uint64_t p = evalp(c); for (int i = 0; i < 3; ++i) { Vec pt = point(R, nv, p); Fp g = at(got, 999, pt, 0, p)[0], w = want(pt, p); VREQ(g == w, key, key << ": value at a point differs from the determinant, got polynomial " << vh::clip(got.str(), 700)); } }
template <class Tc, class C> void res_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = R.chance(1, 3) ? 1 : R.chance(1, 2) ? 2 : 3 + R.below(3); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); bool small = false; if constexpr (std::is_same_v<Tc, Zp>) small = c.p < (1u << 24); unsigned D = nv == 1 ? 8 : nv == 2 ? 5 : nv == 3 ? 4 : 3; if (small) D = std::min(D, nv == 1 ? 6u : 3u); unsigned v = R.below(nv); if (std::is_same_v<C, uorder> && (std::is_same_v<Tc, Zp> || R.chance(1, 2))) for (unsigned i = 0; i < nv; ++i) if (c.ord.rank[i] == 0) v = i;
    auto q = respair(R, c, nv, v, D); if (R.chance(1, 3)) std::swap(q.f, q.g); if (R.chance(1, 60)) q.f = M(); if (R.chance(1, 60)) q.g = M(); const M &f = q.f, &g = q.g; vh::desc(std::string(q.kind) + " [" + c.name + (c.p ? " p=" + std::to_string(c.p) : "") + "] v=x" + std::to_string(v) + " F=" + f.str() + " G=" + g.str()); auto A = c.mk(f), B = c.mk(g); const auto A0 = A, B0 = B; typename X::Poly r(c.comp); if constexpr (std::is_same_v<Tc, Zp>) { clpoly::resultant(r, A, B, cv::V()[v]); } else r = clpoly::resultant(A, B, cv::V()[v]); VREQ(A == A0 && B == B0, "operand-changed", "argument changed"); auto why = cv::canon(r, c.ord); VREQ(why.empty(), "canonical", why << " in " << r); M rm = cv::from(r); novar<X>(rm, v, "resultant");
    if (f.zero() || g.zero()) { VREQ(rm.zero(), "resultant-zero", "resultant with the zero polynomial is " << rm); return; } int64_t m = f.deg(v), l = g.deg(v);
    if (small) { M w = sylv_exact(f, g, v, m, l, c.k(1)); VREQ(rm == w, "resultant", "resultant is " << rm << ", determinant is " << w); } else cmp_points(R, c, rm, nv, [&](const Vec& pt, uint64_t p) { return sylvester(at(f, v, pt, m, p), at(g, v, pt, l, p), p); }, "resultant");
    if constexpr (std::is_same_v<Tc, cv::ZZ>) { bool common = fl::gcd(f, g).has(v); VREQ(rm.zero() == common, "resultant-vanishing", "resultant " << rm << " but common factor in the variable: " << common); if (common) vh::event("resultants that vanish"); }
    auto vs = mdl::vars_of(f); size_t nvars = 0; for (unsigned i = 0; i < nv; ++i) nvars += f.has(i) || g.has(i); vh::event(nvars > 3 ? "resultants in more than three variables" : "resultants in up to three variables"); vh::event(std::string("kind ") + q.kind); if (m > 0 && l > 0) { vh::event(m > l ? "deg F > deg G" : m < l ? "deg F < deg G" : "equal degrees"); vh::nontrivial(mdl::hash(f) * 31 + mdl::hash(g) + v); } vh::sample(vh::clip(f.str(), 140) + " , " + vh::clip(g.str(), 140));
}
template <class Tc, class C> void disc_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = R.chance(1, 3) ? 1 : R.chance(1, 2) ? 2 : 3 + R.below(3); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); bool small = false; if constexpr (std::is_same_v<Tc, Zp>) small = c.p < (1u << 24); unsigned D = nv == 1 ? 8 : nv == 2 ? 5 : nv == 3 ? 4 : 3; if (small) D = std::min(D, nv == 1 ? 5u : 3u); unsigned v = R.below(nv); int cls = R.below(3); M f = withdeg(R, c, nv, v, 1 + R.below(D), R.below(3), 2, cls); if (R.chance(1, 3)) { M h = withdeg(R, c, nv, v, 1, R.below(2), 2, 0); f = h * h * withdeg(R, c, nv, v, R.below(D > 2 ? D - 2 : 1), R.below(2), 2, 0); } if (f.zero() || !f.has(v)) return;
    vh::desc("discriminant [" + c.name + (c.p ? " p=" + std::to_string(c.p) : "") + "] v=x" + std::to_string(v) + " F=" + f.str()); auto A = c.mk(f); const auto A0 = A; auto r = clpoly::discriminant(A, cv::V()[v]); VREQ(A == A0, "operand-changed", "argument changed"); auto why = cv::canon(r, c.ord); VREQ(why.empty(), "canonical", why << " in " << r); M rm = cv::from(r); novar<X>(rm, v, "discriminant"); int64_t m = f.deg(v); M d = f.diff(v); bool neg = (m * (m - 1) / 2) & 1;
    if (small) { M w = sylv_exact(f, d, v, m, m - 1, c.k(1)), lhs = rm * f.lc(v); if (neg) w = -w; VREQ(lhs == w, "discriminant", "discriminant is " << rm << ", lc*disc should be " << w); } else cmp_points(R, c, rm * f.lc(v), nv, [&](const Vec& pt, uint64_t p) { Fp w = sylvester(at(f, v, pt, m, p), at(d, v, pt, m - 1, p), p); return neg ? Fp::fix(-w, p) : w; }, "discriminant");
    if constexpr (std::is_same_v<Tc, cv::ZZ>) { bool rep = fl::gcd(f, d).has(v); VREQ(rm.zero() == rep, "discriminant-vanishing", "discriminant " << rm << " but repeated factor: " << rep); if (rep) vh::event("discriminants that vanish"); }
    vh::event("discriminants checked"); if (m > 1) vh::nontrivial(mdl::hash(f) * 31 + v);
}
// determinants of matrices of polynomials (the many-variable resultant path)
template <class Tc> void det_case(Rng& R) {
    typedef Ctx<Tc, uorder> X; typedef typename X::M M; unsigned nv = 1 + R.below(4); cv::vars(6); X c; MkCtx<Tc, uorder>::go(c, R, nv); size_t n = 1 + R.below(5); unsigned zero = R.below(4); std::vector<std::vector<M>> m(n, std::vector<M>(n)); std::vector<typename X::Poly> a;
    for (auto& r : m) for (auto& e : r) if (!R.chance(zero, 4)) e = rpoly(R, c, nv, R.below(3), 1 + R.below(2), R.below(3)); if (n > 1 && R.chance(1, 6)) m[R.below(n)] = m[R.below(n)]; for (auto& r : m) for (auto& e : r) a.push_back(c.mk(e)); auto a0 = a; std::string d; for (auto& r : m) { for (auto& e : r) d += e.str() + ", "; d += "; "; } vh::desc("det [" + c.name + "] " + d);
    auto r = clpoly::det(a, n); VREQ(a == a0, "operand-changed", "matrix changed"); auto why = cv::canon(r, c.ord); VREQ(why.empty(), "canonical:det", why << " in " << r); M w = mdl::det(m, c.k(1)); VREQ(cv::from(r) == w, "det", "det is " << r << ", should be " << w); vh::event("determinants"); if (n > 1 && !w.zero()) vh::nontrivial(vh::hash_str(d));
}
// P18: every entry of the chain against the determinantal subresultants
template <class Tc, class C> void chain_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = R.chance(1, 3) ? 1 : R.chance(1, 2) ? 2 : 3 + R.below(2); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); unsigned D = nv == 1 ? 9 : nv == 2 ? 5 : 4; unsigned v = R.below(nv); if (std::is_same_v<C, uorder>) /* the in-place form works in the order's own variable */ for (unsigned i = 0; i < nv; ++i) if (c.ord.rank[i] == 0) v = i;
    auto q = respair(R, c, nv, v, D); if (q.f.zero() || q.g.zero()) return; if (q.f.deg(v) < q.g.deg(v)) std::swap(q.f, q.g); const M &f = q.f, &g = q.g; int64_t m = f.deg(v), l = g.deg(v); if (!l || m > 14) return; vh::desc(std::string(q.kind) + " [" + c.name + (c.p ? " p=" + std::to_string(c.p) : "") + "] v=x" + std::to_string(v) + " F=" + f.str() + " G=" + g.str());
    auto A = c.mk(f), B = c.mk(g); const auto A0 = A, B0 = B; auto S = clpoly::subresultant(A, B, cv::V()[v], true), S1 = clpoly::subresultant(A, B, cv::V()[v], false); VREQ(A == A0 && B == B0, "operand-changed", "argument changed"); int64_t u = m > l ? m : m + 1; VREQ((int64_t)S.size() == u + 1, "chain-length", "chain has " << S.size() << " entries for degrees " << m << "," << l); VREQ(S1.size() == 1, "single-length", "single mode returned " << S1.size()); VREQ(S1[0] == S[0], "single-mode", "single mode returns " << S1[0] << ", chain starts with " << S[0]);
    std::vector<M> L; for (auto& s : S) { auto why = cv::canon(s, c.ord); VREQ(why.empty(), "canonical", why << " in " << s); L.push_back(cv::from(s)); } VREQ(L[u] == f && L[u - 1] == g, "chain-head", "chain does not start with the inputs");
    uint64_t p = evalp(c); unsigned np = p < (1u << 24) ? 6 : 2; auto at0 = [&](const M& a, const Vec& pt) { return at(a, v, pt, a.deg(v), p); }; if (m > l + 1) { M w = g; M lc = g.lc(v); for (int64_t i = 0; i < m - l - 1; ++i) w = w * lc; VREQ(L[l] == w, "chain-top", "entry " << l << " is " << L[l] << ", should be " << w); for (int64_t i = l + 1; i < m - 1; ++i) VREQ(L[i].zero(), "chain-gap", "entry " << i << " should vanish, is " << L[i]); }
    bool defective = m > l + 1; for (int64_t j = 0; j < l; ++j) { int64_t d = L[j].deg(v); if (!L[j].zero()) { VREQ(d <= j, "chain-degree", "entry " << j << " has degree " << d); if (d < j) defective = true; vh::event(d < j ? "defective entries" : "regular entries"); } else vh::event("vanishing entries"); for (unsigned k = 0; k < np; ++k) { Vec pt = point(R, nv, p); Vec F = at(f, v, pt, m, p), G = at(g, v, pt, l, p), got = at(L[j], v, pt, j, p); for (int64_t i = 0; i <= j; ++i) VREQ(got[i] == subres(F, G, j, i, p), "chain-entry", "entry " << j << " (coefficient of x^" << i << ") of the chain is " << L[j]); } }
    if constexpr (std::is_same_v<Tc, cv::ZZ>) { int64_t gd = fl::gcd(f, g).deg(v), first = 0; while (L[first].zero()) ++first; VREQ((L[first].deg(v) == gd), "first-entry", "first non-zero entry " << first << " has degree " << L[first].deg(v) << ", the gcd has degree " << gd); if (gd) vh::event("pairs with a common factor"); }
    vh::event(std::string("kind ") + q.kind); if (defective) vh::event("defective chains"); if (l > 1) vh::nontrivial(mdl::hash(f) * 31 + mdl::hash(g) + v); vh::sample(vh::clip(f.str(), 140) + " , " + vh::clip(g.str(), 140));
}
}
#endif
