#include "gcdops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
// products of few factors with prescribed multiplicities, contents in deeper variables, integer content
static Z tower(Rng& R, unsigned nv, unsigned sz, std::vector<Z>* parts = nullptr) {
    Z a(R.chance(1, 2) ? mpz_class((long)(R.chance(1, 2) ? 1 : -1)) : gen::coef(R, R.below(3))); unsigned k = 1 + R.below(3); for (unsigned i = 0; i < k; ++i) {
        Z f; switch (R.below(6)) { case 0: f = Z::var(R.below(nv)); break; case 1: f = sub(R, R.below(nv), nv, sz, 1 + R.below(3), 0); break; case 2: f = Z::var(R.below(nv)) + Z(mpz_class((long)R.range(-2, 2))); break; default: f = zr(R, nv, sz, 1 + R.below(3), R.below(3)); } unsigned m = R.chance(1, 2) ? 1 : 1 + R.below(nv > 2 ? 3 : 5); if (f.deg(0) + f.deg(1) + f.deg(2) > 2 && m > 2) m = 2; if (parts) parts->push_back(f); a = a * mdl::pw(f, m); if (a.t.size() > 60) break; }
    if (R.chance(1, 10)) a = a * u64(P0); if (R.chance(1, 15)) a = Z(gen::coef(R, 2)); return a;
}
template <class X> static int mainvar(const X& c, const Z& q) { int v = -1; for (int i : mdl::vars_of(q)) if (v < 0 || c.ord.rk(i) < c.ord.rk(v)) v = i; return v; }
static Z content_in(const Z& a, size_t v) { Z g; for (auto& x : a.coeffs(v)) g = g.zero() ? x : fl::gcd(g, x); return g; }
static void sqf_ok(const std::vector<std::pair<Z, uint64_t>>& l, const Z& a, const char* what) {
    Z prod(mpz_class(1)); for (auto& x : l) { VREQ(x.second > 0, "multiplicity-zero", what << ": multiplicity 0"); prod = prod * mdl::pw(x.first, (unsigned)x.second); } VREQ(prod == a, "product", what << ": product of the factors is " << prod);
    for (size_t i = 0; i < l.size(); ++i) if (!l[i].first.is_const()) { VREQ(fl::squarefree(l[i].first), "not-squarefree", what << ": factor " << l[i].first << " is not squarefree"); for (size_t j = 0; j < i; ++j) if (!l[j].first.is_const()) VREQ(fl::gcd(l[i].first, l[j].first).is_const(), "not-coprime", what << ": " << l[i].first << " and " << l[j].first); }
}
template <class X> static void sqf(Rng& R) {
    cv::vars(8); unsigned nv = 1 + R.below(4); X c; MkCtx<ZZ, typename X::comp_t>::go(c, R, nv); Z a = tower(R, nv, nv > 2 ? 1 : 2); vh::set_random_device(vh::random_rd_mode(R), R.next()); vh::desc(c.name + " F=" + a.str()); auto A = c.mk(a); const auto A0 = A;
    if constexpr (!std::is_same_v<typename X::comp_t, clpoly::grlex>) {
        auto C = clpoly::cont(A), Q = clpoly::pp(A); auto w1 = cv::canon(C, c.ord), w2 = cv::canon(Q, c.ord); VREQ(w1.empty() && w2.empty(), "canonical", w1 << w2); Z cc = cv::from(C), pp = cv::from(Q); VREQ(cc * pp == a, "cont-times-pp", "cont=" << cc << " pp=" << pp); int v = mainvar(c, a); if (v >= 0) { VREQ(!cc.has(v), "content-has-main-variable", "cont=" << cc); VREQ(fl::same_up_to_unit(cc, content_in(a, v)), "content", "cont=" << cc << " expected " << content_in(a, v)); }
    }
    bool sq = clpoly::is_squarefree(A), want = fl::squarefree(a); VREQ(sq == want, "is_squarefree", "is_squarefree says " << sq);
    auto l = clpoly::squarefreefactorize(A); std::vector<std::pair<Z, uint64_t>> ml; for (auto& x : l) { auto w = cv::canon(x.first, c.ord); VREQ(w.empty(), "canonical", w); ml.push_back({cv::from(x.first), x.second}); } sqf_ok(ml, a, "squarefreefactorize"); VREQ(A == A0, "operand-changed", "argument changed");
    if (!a.is_const()) vh::nontrivial(mdl::hash(a)); if (!want) vh::event("inputs with repeated factors"); if (nv > 2) vh::sample(c.name + " " + vh::clip(a.str(), 300));
}
template <class X> static void basis(Rng& R) {
    cv::vars(8); unsigned nv = 1 + R.below(3); X c; MkCtx<ZZ, typename X::comp_t>::go(c, R, nv); std::vector<Z> pool; for (unsigned i = 0; i < 4; ++i) { Z f = R.chance(1, 2) ? Z::var(R.below(nv)) + Z(mpz_class((long)R.range(-2, 2))) : zr(R, nv, 1, 1 + R.below(3), R.below(2)); pool.push_back(f); }
    unsigned n = R.below(5); std::vector<Z> F; for (unsigned i = 0; i < n; ++i) { Z f(gen::coef(R, R.below(2))); if (R.chance(1, 2)) f = Z(mpz_class((long)(R.chance(1, 2) ? 1 : -1))); for (unsigned k = R.below(4); k; --k) f = f * mdl::pw(pool[R.below(4)], 1 + R.below(2)); if (R.chance(1, 15)) f = Z(); if (R.chance(1, 10) && !F.empty()) f = F[R.below(F.size())]; F.push_back(f); }
    vh::set_random_device(vh::random_rd_mode(R), R.next()); std::string d = c.name; for (auto& f : F) d += " ; " + f.str(); vh::desc(d); std::vector<typename X::Poly> L; for (auto& f : F) L.push_back(c.mk(f)); auto L0 = L; auto r = clpoly::squarefreebasis(L); VREQ(L == L0, "operand-changed", "argument changed");
    VREQ(r.first.size() == r.second.size(), "index-lists", r.first.size() << " members, " << r.second.size() << " index lists"); std::vector<Z> b; for (auto& x : r.first) { auto w = cv::canon(x, c.ord); VREQ(w.empty(), "canonical", w); b.push_back(cv::from(x)); VREQ(!b.back().is_const(), "constant-member", "basis member " << b.back() << " is constant"); }
    for (size_t i = 0; i < b.size(); ++i) { VREQ(fl::squarefree(b[i]), "not-squarefree", "member " << b[i]); for (size_t j = 0; j < i; ++j) VREQ(fl::gcd(b[i], b[j]).is_const(), "not-coprime", b[i] << " and " << b[j]); VREQ(!r.second[i].empty(), "unused-member", "member " << b[i] << " belongs to no input"); }
    std::vector<Z> prod(F.size(), Z(mpz_class(1))); for (size_t j = 0; j < b.size(); ++j) for (auto& e : r.second[j]) { VREQ(e.first < F.size() && e.second > 0, "index-lists", "index " << e.first << " multiplicity " << e.second); prod[e.first] = prod[e.first] * mdl::pw(b[j], (unsigned)e.second); }
    for (size_t i = 0; i < F.size(); ++i) if (!F[i].zero()) { auto &x = prod[i], &y = F[i]; bool ok = x * y.t.rbegin()->second == y * x.t.rbegin()->second; VREQ(ok, "multiplicities", "input " << y << " is not the product of its basis members, got " << x); }
    if (b.size() > 1) vh::nontrivial(vh::hash_str(d)); vh::sample(vh::clip(d, 300)); vh::event("basis members", b.size());
}
#define BOTH(n, C, q, t) static vh::Reg r_s_##n("sqf_" #n, q, t, sqf<Ctx<ZZ, C>>), r_b_##n("basis_" #n, q, t, basis<Ctx<ZZ, C>>);
BOTH(lex, clpoly::lex, 500, 40000) BOTH(grlex, clpoly::grlex, 300, 20000) BOTH(custom, clex, 300, 20000)
SCENARIO(zero, 5, 5) { clpoly::polynomial_<ZZ, clpoly::lex> z; VREQ(!clpoly::is_squarefree(z) && clpoly::squarefreefactorize(z).empty() && clpoly::pp(z).empty() && clpoly::cont(z).empty(), "zero", "zero polynomial"); vh::nontrivial(R.next()); }
SCENARIO(univariate, 2000, 100000) { cv::vars(2); Z a = gen::upoly(R, R.below(8), R.below(4)) * (R.chance(1, 2) ? mpz_class(1) : gen::coef(R, 3)); vh::desc(a.str()); auto A = cv::tou<ZZ>(a); mpz_class c = cv::mz(clpoly::cont(A)); VREQ(abs(c) == mdl::content(a), "univariate-content", "cont=" << c << " expected " << mdl::content(a)); if (a.t.size() > 1) vh::nontrivial(mdl::hash(a)); }
