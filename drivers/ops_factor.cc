// gcd, contents, squarefree parts, factorization
#include "ops.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace ops;
namespace {
template <class F> S fdg(const F& f) { std::vector<S> v; for (auto& x : f.factors) v.push_back(dg(x.first) + "^" + std::to_string(x.second)); std::sort(v.begin(), v.end()); return dg(f.content) + dg(v); }
template <class C> Inst gcds(Rng& R) {
    unsigned nv = 1 + R.below(3); auto c = ctx<ZZ, C>(R, nv); typedef clpoly::polynomial_<ZZ, C> P; auto m = [&](unsigned d) { return gp(R, *c, nv, d, 3); }; auto g = m(2), x = m(2), y = m(2); P a = c->mk(g * x), b = c->mk(g * y); if (R.chance(1, 10)) b = a; Inst i; S n = "[" + c->name + "]";
    switch (R.below(4)) { case 0: i = call("multivariate gcd " + n, [](const P& a, const P& b) { return clpoly::polynomial_GCD(a, b); }, a, b); break;
    case 1: if constexpr (!std::is_same_v<C, clpoly::grlex>) { i = call("extended gcd " + n, [](const P& a, const P& b) { P s(a.comp_ptr()), t(a.comp_ptr()); P g = clpoly::polynomial_GCD(a, b, s, t); return std::make_pair(g, s * a + t * b); }, a, b); break; } [[fallthrough]];
    case 2: { if (a.empty()) a = c->mk(mdl::Z(mpz_class(6))); i = call("squarefree " + n, [](const P& a) { S s = dg(clpoly::is_squarefree(a)) + dg(clpoly::squarefreefactorize(a)); if constexpr (!std::is_same_v<C, clpoly::grlex>) s += dg(clpoly::cont(a)) + dg(clpoly::pp(a)); return s; }, a); break; }
    default: { std::vector<P> L{a, b, c->mk(g), c->mk(x)}; L.resize(R.below(5), c->mk(y)); i = call("squarefree basis " + n, [](const std::vector<P>& L) { return clpoly::squarefreebasis(L); }, L); } } hold(i, c); return i;
}
template <class Tc> Inst ugcd(Rng& R) { auto c = ctx<Tc, clpoly::lex>(R, 1); typedef typename Ctx<Tc, clpoly::lex>::K K; typedef clpoly::upolynomial_<Tc> U; auto g = gu<K>(R, *c, 3), x = gu<K>(R, *c, 3, true), y = gu<K>(R, *c, 3); U a = cv::tou<Tc>(g * x, c->p), b = cv::tou<Tc>(g * y, c->p); if (std::is_same_v<Tc, Zp> && a.empty()) a = cv::tou<Tc>(x, c->p); if (std::is_same_v<Tc, Zp> && b.empty()) b = cv::tou<Tc>(x, c->p); Inst i = call("univariate gcd", [](const U& a, const U& b) { S s = dg(clpoly::polynomial_GCD(a, b)); if (a.empty() || b.empty()) return s; U u, v; U g = clpoly::polynomial_GCD(a, b, u, v); return s + dg(g) + dg(u * a + v * b); }, a, b); hold(i, c); return i; }
template <class C> Inst facz(Rng& R) { unsigned nv = 1 + R.below(R.chance(1, 3) ? 3 : 2); auto c = ctx<ZZ, C>(R, nv); typedef clpoly::polynomial_<ZZ, C> P; auto m = [&] { return gnz(R, *c, nv, 2, 3); }; auto a = m() * m(); if (R.chance(1, 3)) a = a * m(); Inst i = call("factorize ZZ [" + c->name + "]", [](const P& a) { return fdg(clpoly::factorize(a)); }, c->mk(a)); hold(i, c); return i; }
template <class C> Inst facq(Rng& R) { unsigned nv = 1 + R.below(2); auto c = ctx<QQ, C>(R, nv); typedef clpoly::polynomial_<QQ, C> P; auto m = [&] { return gnz(R, *c, nv, 2, 3); }; auto a = m() * m(); Inst i = call("factorize QQ [" + c->name + "]", [](const P& a) { return fdg(clpoly::factorize(a)); }, c->mk(a)); hold(i, c); return i; }
Inst facu(Rng& R) { auto c = ctx<ZZ, clpoly::lex>(R, 1); mdl::Z a = gu<mpz_class>(R, *c, 5, true) * gu<mpz_class>(R, *c, 4, true); if (R.chance(1, 6)) { a = mdl::Z(mpz_class(1)); for (int k : {2, 3, 5}) { auto x = mdl::Z::var(0); a = a.subst_poly(0, x) * (x * x - mdl::Z(mpz_class(k))); } } auto A = cv::tou<ZZ>(a); Inst i = call("factorize univariate", [](const clpoly::upolynomial_ZZ& a) { return fdg(clpoly::factorize(a)); }, A); hold(i, c); return i; }
Inst facp(Rng& R) { auto c = ctx<Zp, clpoly::lex>(R, 1); if (c->p < 5) c->p = 13; auto a = gu<mdl::Fp>(R, *c, 4, true) * gu<mdl::Fp>(R, *c, 4, true); auto A = cv::tou<Zp>(a, c->p); if (clpoly::degree(A) < 1) A = cv::tou<Zp>(mdl::F::var1(0, c->k(1)), c->p); Inst i = call("factorize mod p", [](const clpoly::upolynomial_<Zp>& a) { auto r = clpoly::__factor_Zp(a); std::vector<S> v; for (auto& x : r.second) v.push_back(dg(x)); std::sort(v.begin(), v.end()); auto m = a; return dg(r.first) + dg(v); }, A); hold(i, c); return i; }
Inst lll(Rng& R) { unsigned n = 1 + R.below(5); std::vector<std::vector<ZZ>> M(n, std::vector<ZZ>(n)); for (auto& r : M) for (auto& x : r) x = ZZ((int64_t)R.range(-30, 30)); for (unsigned k = 0; k < n; ++k) { for (unsigned j = k + 1; j < n; ++j) M[k][j] = ZZ(0); if (!M[k][k]) M[k][k] = ZZ(7); } ZZ B((int64_t)R.below(500)); return call("lattice reduction", [](const std::vector<std::vector<ZZ>>& M, const ZZ& B) { auto A = M; std::vector<std::vector<ZZ>> U; auto s = clpoly::__lll_reduce(A, U, B); S d = dg(A) + dg(U); for (auto x : s) d += dg(x) + ","; return d; }, M, B); }
Add a1("gcd", 2, gcds<clpoly::grlex>), a2("gcd", 2, gcds<clpoly::lex>), a3("gcd", 1, gcds<clex>), b1("ugcd", 2, ugcd<ZZ>), b2("ugcd", 1, ugcd<Zp>), c1("factor", 1, facz<clpoly::grlex>), c2("factor", 1, facz<clpoly::lex>), d1("factor", 1, facq<clpoly::grlex>), e1("factor", 2, facu), f1("factor", 2, facp), g1("lll", 1, lll);
}
