// resultants, subresultants, Groebner bases, characteristic sets, triangular decomposition
#include "ops.hh"
#include <clpoly/resultant.hh>
#include <clpoly/groebner.hh>
#include <clpoly/charset.hh>
using namespace ops;
namespace {
template <class Tc, class C> Inst res(Rng& R) {
    unsigned nv = 1 + R.below(3); auto c = ctx<Tc, C>(R, nv); typedef clpoly::polynomial_<Tc, C> P; P a = c->mk(gnz(R, *c, nv, 3, 4)), b = c->mk(gnz(R, *c, nv, 3, 4)); variable v = cv::V()[R.below(nv)]; if constexpr (std::is_same_v<C, uorder>) for (unsigned k = 0; k < nv; ++k) if (c->name == "priority(" + cv::V()[k].name() + ")") v = cv::V()[k]; Inst i; S n = "[" + c->name + "]";
    if constexpr (std::is_same_v<Tc, ZZ>) { if (R.chance(1, 4) && clpoly::degree(a, v) > 0) { i = call("discriminant " + n, [](const P& a, const variable& v) { return clpoly::discriminant(a, v); }, a, v); hold(i, c); return i; } if (R.chance(1, 3) && clpoly::degree(a, v) > 0 && clpoly::degree(b, v) > 0) { if (clpoly::degree(a, v) < clpoly::degree(b, v)) std::swap(a, b); i = call("subresultants " + n, [](const P& a, const P& b, const variable& v) { return clpoly::subresultant(a, b, v); }, a, b, v); hold(i, c); return i; } }
    i = call("resultant " + n, [](const P& a, const P& b, const variable& v) { return clpoly::resultant(a, b, v); }, a, b, v); hold(i, c); return i;
}
template <class Tc, class C> Inst gb(Rng& R) {
    unsigned nv = 1 + R.below(3); auto c = ctx<Tc, C>(R, nv); typedef clpoly::polynomial_<Tc, C> P; std::vector<P> F; unsigned n = R.below(4); for (unsigned k = 0; k < n; ++k) F.push_back(c->mk(gp(R, *c, nv, 2, 3))); if (R.chance(1, 6) && !F.empty()) F.push_back(F[0]); P f = c->mk(gp(R, *c, nv, 3, 4)); Inst i; S nm = "[" + c->name + "]";
    switch (R.below(3)) { case 0: i = call("groebner basis " + nm, [](const std::vector<P>& F) { return clpoly::groebner_basis(F); }, F); break;
    case 1: i = call("ideal " + nm, [](const std::vector<P>& F, const P& f) { clpoly::Ideal<Tc, C> I(F); S s = dg(I.contains(f)); clpoly::Ideal<Tc, C> J(I), K = J; s += dg(K.groebner_basis()) + dg(K.contains(f)); clpoly::Ideal<Tc, C> M(std::move(J)); s += dg(M.contains(f)); J = M; s += dg(J.contains(f)); return s; }, F, f); break;
    default: { std::vector<P> G; for (auto& x : F) if (!x.empty()) G.push_back(x); i = call("normal form " + nm, [](const P& f, const std::vector<P>& G) { return clpoly::normal_form(f, G); }, f, G); } } hold(i, c); return i;
}
typedef clpoly::polynomial_<ZZ, clex> T;
Inst tri(Rng& R) {
    unsigned n = 1 + R.below(3); cv::vars(12); auto c = std::make_shared<Ctx<ZZ, clex>>(); std::vector<int> o; for (unsigned k = 0; k < n; ++k) o.push_back((int)k); R.shuffle(o); std::vector<variable> vs; for (int k : o) vs.push_back(cv::V()[k]); c->own = clex(clpoly::custom_var_order(vs)); c->comp = &c->own; c->ord = cv::ord_custom(o); c->name = "custom"; Inst i;
    std::reverse(o.begin(), o.end()); auto X = [&](unsigned k) { return mdl::Z::var(o[k]); }; auto cst = [&](long a) { return mdl::Z(mpz_class(a)); }; std::vector<T> L; std::vector<mdl::Z> ch; // a squarefree triangular set with rational zeros
    for (unsigned k = 0; k < n; ++k) { long r = (long)R.range(-2, 2); mdl::Z f = X(k) - cst(r); if (R.chance(1, 2)) f = f * (X(k) - cst(r + 1 + (long)R.below(2))); else if (k && R.chance(1, 2)) f = X(k) * cst(1 + (long)R.below(2)) - X(k - 1); ch.push_back(f); L.push_back(c->mk(f)); }
    T f = c->mk(R.chance(1, 2) ? gnz(R, *c, n, 2, 3) : X(R.below(n)) - cst((long)R.range(-2, 2)));
    std::vector<T> F; for (unsigned k = 0; k < 1 + R.below(3); ++k) F.push_back(c->mk(gp(R, *c, n, 2, 3)));
    switch (R.below(7)) { case 0: i = call("characteristic set", [](const std::vector<T>& F) { return clpoly::charset(F); }, F); break; case 1: i = call("basic set", [](const std::vector<T>& F) { return clpoly::basset<ZZ>(F.begin(), F.end()); }, F); break; case 2: i = call("wrsd", [](const std::vector<T>& L, const T& f) { return clpoly::wrsd(L, f); }, L, f); break; case 3: i = call("rsd", [](const std::vector<T>& L, const T& f) { return clpoly::rsd(L, f); }, L, f); break; case 4: i = call("squarefree chains", [](const std::vector<T>& L) { return clpoly::RCtoSqrfree(L); }, L); break; case 5: i = call("decomposition", [](const std::vector<T>& L) { return clpoly::GRDforZD(L); }, L); break;
    default: { std::vector<std::vector<T>> Sy{L, {f}, {}, {}}; if (R.chance(1, 2)) std::swap(Sy[1], Sy[2 + R.below(2)]); i = call("semi-algebraic decomposition", [](const std::vector<std::vector<T>>& Sy) { return clpoly::GRDforZDSAS(Sy); }, Sy); } } hold(i, c); return i;
}
Add a1("res", 1, res<ZZ, clpoly::grlex>), a2("res", 2, res<ZZ, clpoly::lex>), a3("res", 1, res<ZZ, uorder>), b1("gb", 1, gb<QQ, clpoly::grlex>), b2("gb", 1, gb<ZZ, clpoly::lex>), b3("gb", 1, gb<QQ, clex>), c1("tri", 3, tri);
}
