#include "evalops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
EREG(ZZ, grlex, clpoly::grlex, 4000, 150000) EREG(ZZ, lex, clpoly::lex, 4000, 150000) EREG(ZZ, clex, clex, 3000, 100000) EREG(ZZ, uorder, uorder, 3000, 100000)
static vh::Reg r_u("univariate", 6000, 200000, ueval_case<ZZ>);
// integer polynomial at rational points (mixed coefficient types)
SCENARIO(mixed, 3000, 80000) {
    cv::vars(70); unsigned nv = 1 + R.below(4); Ctx<QQ, clpoly::lex> q; MkCtx<QQ, clpoly::lex>::go(q, R, nv); Ctx<ZZ, clpoly::lex> z; MkCtx<ZZ, clpoly::lex>::go(z, R, nv); auto a = rpoly(R, z, nv, 5, R.below(10), R.below(3)); std::map<int, mpq_class> s; std::map<variable, QQ> m; std::string d = "A=" + a.str();
    for (unsigned i = 0; i < nv; ++i) if (R.chance(2, 3)) { auto k = rval(R, q); s[i] = k; m.insert({cv::V()[i], cv::qq(k)}); d += " x" + std::to_string(i) + "=" + vh::str(k); } vh::desc(d);
    auto A = z.mk(a); auto P = clpoly::assign<QQ, ZZ, QQ, clpoly::lex>(A, m); q.same(P, subst_all(mdl::toQ(a), s, mpq_class(1)), "mixed assign"); if (!s.empty()) { int v = s.begin()->first; mdl::Z u; for (auto& t : a.t) if (t.first.empty() || (t.first.size() == 1)) u.add_term(t.first, t.second); auto U = cv::tou<ZZ>(u); QQ r = clpoly::assign<QQ, ZZ, QQ>(U, cv::qq(s[v])); auto w = subst_all(mdl::toQ(u), std::map<int, mpq_class>{{0, s[v]}}, mpq_class(1)).constant(); VREQ(cv::mq(r) == w, "value:mixed univariate", "got " << r << " expected " << w); }
    vh::nontrivial(vh::hash_str(d));
}
