// P07 scenarios: substitution, derivative, degrees, coefficients, variable lists.
#ifndef EVAL_HH
#define EVAL_HH
#include "ring.hh"
namespace ring {
template <class M> uint64_t mhash(const M& a) { return vh::hash_str(a.str()); }
template <class K> mdl::P<K> subst_all(const mdl::P<K>& a, const std::map<int, K>& s, const K& one) {
    mdl::P<K> r; std::map<std::pair<int, uint32_t>, K> cache;
    for (auto& t : a.t) { Exp e = t.first; K k = t.second; for (auto& x : s) { uint32_t d = mdl::eget(e, x.first); if (!d) continue; auto key = std::make_pair(x.first, d); auto it = cache.find(key); if (it == cache.end()) { K p = one; for (uint32_t i = 0; i < d; ++i) p = K(p * x.second); it = cache.emplace(key, p).first; } k = K(k * it->second); e[x.first] = 0; } r.add_term(e, k); }
    return r;
}
// coefficients chosen so that substitution cancels: h*(x-c) + small rest
template <class X> typename X::M cancelling(Rng& R, const X& c, unsigned nv, unsigned v, const typename X::K& val) {
    auto h = rpoly(R, c, nv, 3, 1 + R.below(5), R.below(3)); auto l = X::M::var1(v, c.k(1)) - typename X::M(val); auto r = rpoly(R, c, nv, 3, R.below(3), 0); if (R.chance(1, 4)) l = l * l; return h * l + r;
}
template <class X> typename X::K rval(Rng& R, const X& c) { switch (R.below(6)) { case 0: return c.k(0); case 1: return c.k(1); case 2: return c.k(-1); case 3: return c.k(R.range(-5, 5)); default: return rcoef(R, c, R.below(4)); } }
template <class X> void eval_case(Rng& R) {
    typedef typename X::coeff Tc; cv::vars(70); unsigned nv = R.chance(1, 8) ? pick_nv(R) : 1 + R.below(5); X c; MkCtx<Tc, typename X::comp_t>::go(c, R, nv); unsigned v = R.below(nv); auto val = rval(R, c);
    typename X::M a = R.chance(1, 3) ? cancelling(R, c, nv, v, val) : rpoly(R, c, nv, 1 + R.below(7), R.below(14), R.below(4), R.chance(1, 2)); if (R.chance(1, 30)) a = typename X::M(rcoef(R, c, 1));
    std::map<int, typename X::K> sub; for (unsigned i = 0; i < nv && i < 8; ++i) if (R.chance(1, 2)) sub.insert({(int)i, rval(R, c)});
    auto A = c.mk(a); const auto A0 = A; std::string d = c.name + " p=" + std::to_string(c.p) + " A=" + a.str() + " " + cv::V()[v].name() + ":=" + vh::str(val); for (auto& s : sub) d += " " + cv::V()[s.first].name() + "=" + vh::str(s.second); vh::desc(d);
    const variable V = cv::V()[v]; auto one = c.k(1);
    c.same(clpoly::assign(A, V, c.c(val)), subst_all(a, std::map<int, typename X::K>{{(int)v, val}}, one), "assign one");
    std::map<variable, Tc> m; for (auto& s : sub) m.insert({cv::V()[s.first], c.c(s.second)});
    c.same(clpoly::assign(A, m), subst_all(a, sub, one), "assign map"); { std::map<variable, Tc> none; c.same(clpoly::assign(A, none), a, "assign nothing"); }
    { auto step = A; auto ms = a; for (auto& s : sub) { step = clpoly::assign(step, cv::V()[s.first], c.c(s.second)); } c.same(step, subst_all(a, sub, one), "assign stepwise"); }
    // derivative
    c.same(clpoly::derivative(A, V), a.diff(v), "derivative"); for (unsigned i = 0; i < std::min(nv, 3u); ++i) c.same(clpoly::derivative(clpoly::derivative(A, V), cv::V()[i]), a.diff(v).diff(i), "second derivative");
    // degrees
    for (unsigned i = 0; i < nv; ++i) { VREQ(clpoly::degree(A, cv::V()[i]) == a.deg(i), "degree", "degree in " << cv::V()[i] << ": " << clpoly::degree(A, cv::V()[i])); }
    VREQ(clpoly::degree(A) == a.tdeg() && clpoly::get_deg(A) == a.tdeg() && A.degree() == a.tdeg(), "total-degree", "total degree: " << clpoly::degree(A));
    VREQ(clpoly::is_number(A) == a.is_const(), "is_number", "is_number"); VREQ(A.is_normal(), "is_normal", "a canonical polynomial is reported as not normal");
    // leading coefficient and coefficients in a variable
    { auto L = clpoly::leadcoeff(A, V); c.same(L, a.lc(v), "leadcoeff"); auto O = c.mk(a * a.lc(0)); int64_t dd = clpoly::leadcoeff(O, A, V); VREQ(dd == a.deg(v), "leadcoeff-degree", "leadcoeff returned degree " << dd); c.same(O, a.lc(v), "leadcoeff into a used object"); }
    if constexpr (!std::is_same_v<Tc, Zp>) { auto co = clpoly::coeff(A, V); auto cm = a.coeffs(v); VREQ(co.size() == cm.size(), "coeff-count", "coeff returned " << co.size() << " entries, degree is " << a.deg(v)); for (size_t i = 0; i < cm.size(); ++i) c.same(co[i], cm[i], "coeff"); }
    // variable lists, in the order of the polynomial, with the maximal exponents
    auto vars_ok = [&](const std::list<std::pair<variable, int64_t>>& l, const typename X::M& w, const char* key) { int last = -1; size_t n = 0; vh::event("checks"); for (auto& x : l) { int i = cv::vindex(x.first), r = c.ord.rk(i); if (i < 0 || !w.has(i)) vh::fail(key, "a variable that does not occur is listed"); if (r <= last) vh::fail(key, "variables not in order"); last = r; if (x.second != w.deg(i)) vh::fail(key, VMSG("exponent " << x.second << " of " << x.first)); ++n; } if (n != mdl::vars_of(w).size()) vh::fail(key, "a variable is missing"); };
    vars_ok(A.variables(), a, "variables"); vars_ok(clpoly::get_variables(A), a, "variables");
    { auto b = rpoly(R, c, nv, 3, R.below(5), 0); auto g = rpoly(R, c, nv, 2, R.below(3), 0); typename X::M w; for (auto* q : {&b, &a, &g}) for (auto& t : q->t) { w.t[t.first] = c.k(1); } vars_ok(clpoly::get_variables(std::vector<typename X::Poly>{c.mk(b), A, c.mk(g)}), w, "variables of a list"); }
    if constexpr (!std::is_same_v<typename X::comp_t, clpoly::grlex>) {
        int fv = -1; for (int i : mdl::vars_of(a)) if (fv < 0 || c.ord.rk(i) < c.ord.rk(fv)) fv = i; auto X1 = clpoly::get_first_var(A); auto D1 = clpoly::get_first_deg(A);
        if (fv < 0) VREQ(X1 == variable() && D1 == 0, "first-var", "first variable of a constant"); else VREQ(X1 == cv::V()[fv] && D1 == a.deg(fv), "first-var", "first variable " << X1 << "^" << D1);
        int lv = -1; for (int i : mdl::vars_of(a)) if (lv < 0 || c.ord.rk(i) > c.ord.rk(lv)) lv = i; if (lv >= 0) { auto q = clpoly::get_last_var_deg(A); VREQ(q.first == cv::V()[lv] && q.second == a.deg(lv), "last-var", "last variable " << q.first << "^" << q.second << " expected " << cv::V()[lv] << "^" << a.deg(lv)); }
        if (fv >= 0) { c.same(clpoly::derivative(A), a.diff(fv), "derivative in the first variable"); if constexpr (std::is_same_v<Tc, ZZ>) c.same(clpoly::leadcoeff(A), a.lc(fv), "leadcoeff in the first variable"); }
    }
    if constexpr (std::is_same_v<typename X::comp_t, clpoly::univariate_priority_order>) {
        int u = 0; while (c.ord.rk(u) != 0) ++u; VREQ(clpoly::get_up_deg(A) == a.deg(u), "up-deg", "degree in the priority variable"); auto co = clpoly::coeff(A); auto cm = a.coeffs(u); VREQ(co.size() == cm.size(), "coeff-count", "coeff of a priority polynomial"); for (size_t i = 0; i < cm.size(); ++i) c.same(co[i], cm[i], "coeff of a priority polynomial"); auto O = c.mk(a); O = c.mk(typename X::M(c.k(2))); int64_t dd = clpoly::leadcoeff(O, A); VREQ(dd == a.deg(u), "leadcoeff-degree", "priority leadcoeff degree"); c.same(O, a.lc(u), "priority leadcoeff");
    }
    VREQ(A == A0, "operand-changed", "a query changed its argument");
    if (a.t.size() > 1) vh::nontrivial(mhash(a) * 31 + v + vh::hash_str(d)); if (nv > 2) vh::sample(d);
}
// univariate
template <class Tc> void ueval_case(Rng& R) {
    typedef typename cv::KT<Tc>::K K; cv::vars(2); Ctx<Tc, clpoly::lex> c; c.p = setp<Tc>(R); c.name = "univariate"; unsigned dg = R.below(R.chance(1, 8) ? 60 : 9); mdl::P<K> a; for (unsigned i = 0; i <= dg; ++i) if (i == dg || R.chance(1, 2)) a.add_term(Exp(1, i), rcoef(R, c, R.below(4)));
    auto val = rval(R, c); if (R.chance(1, 3)) { a = a * (mdl::P<K>::var1(0, c.k(1)) - mdl::P<K>(val)); } if (R.chance(1, 25)) a = mdl::P<K>();
    vh::desc("p=" + std::to_string(c.p) + " A=" + a.str() + " at " + vh::str(val)); auto A = cv::tou<Tc>(a, c.p); const auto A0 = A;
    K want = c.k(0); for (int64_t i = a.deg(0); i >= 0; --i) { auto it = a.t.find(i ? Exp(1, (uint32_t)i) : Exp()); want = K(want * val); if (it != a.t.end()) want = K(want + it->second); }
    c.same_k(clpoly::assign(A, c.c(val)), want, "univariate assign");
    VREQ(clpoly::get_deg(A) == a.deg(0) && clpoly::degree(A) == a.deg(0), "udegree", "degree"); VREQ(clpoly::is_number(A) == a.is_const(), "uis_number", "is_number");
    { auto D = clpoly::derivative(A); auto why = cv::canon(D); VREQ(why.empty(), "canonical:uderivative", why); VREQ(cv::from(D) == a.diff(0), "value:uderivative", "derivative: " << D); }
    VREQ(A == A0, "operand-changed", "argument changed"); if (a.t.size() > 1) vh::nontrivial(mhash(a) * 31 + vh::hash_str(vh::str(val)));
}
#define EREG(TC, CN, C, Q, T) static vh::Reg r_e_##CN("eval_" #CN, Q, T, [](Rng& R) { eval_case<Ctx<TC, C>>(R); });
}
#endif
