#include "facops.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace ring; using mdl::Q;
template <class C> static void one(Rng& R, const Q& a, unsigned nv, const char* kind) {
    Ctx<QQ, C> c; MkCtx<QQ, C>::go(c, R, nv); vh::desc(std::string(kind) + " [" + c.name + "] F=" + a.str()); auto A = c.mk(a); const auto A0 = A; mpz_class den; Z az = mdl::clear_den(a, &den); auto w = fl::factor(az);
    auto fac = [&](const Q& x, mpq_class& content) { auto X = c.mk(x); const auto X0 = X; auto r = clpoly::factorize(X); VREQ(X == X0, "operand-changed", "argument changed"); content = cv::mq(r.content); std::vector<std::pair<Q, uint64_t>> l; for (auto& f : r.factors) { auto why = cv::canon(f.first, c.ord); VREQ(why.empty(), "canonical", why << " in " << f.first); VREQ(cv::mq(f.first.front().second) == 1, "not-monic", "factor " << f.first << " is not monic"); l.push_back({cv::from(f.first), f.second}); } return l; };
    mpq_class ct; auto l = fac(a, ct); Q prod(ct); for (auto& x : l) { VREQ(x.second > 0 && !x.first.is_const(), "constant-factor", "factor " << x.first << "^" << x.second); for (uint64_t i = 0; i < x.second; ++i) { prod = prod * x.first; VREQ(prod.t.size() < 100000, "product", "product explodes"); } } VREQ(prod == a, "product", "constant times product of factors is " << vh::clip(prod.str(), 600) << " constant=" << ct);
    for (size_t i = 0; i < l.size(); ++i) { for (size_t j = 0; j < i; ++j) VREQ(!(l[i].first == l[j].first), "duplicate-factor", "factor " << l[i].first << " listed twice"); Z z = mdl::clear_den(l[i].first, nullptr); mpz_class g = mdl::content(z); Z zp; mdl::divexact(z, Z(g), zp); bool hit = false; for (auto& y : w.f) if (fl::same_up_to_unit(zp, y.first)) { hit = true; VREQ(y.second == l[i].second, "multiplicity", "factor " << l[i].first << " has multiplicity " << y.second << " not " << l[i].second); } if (!hit) { VREQ(fl::irreducible_q(z), "reducible-factor", "factor " << l[i].first << " is reducible"); vh::fail("foreign-factor", VMSG("factor " << l[i].first << " is not an irreducible factor of the input")); } }
    VREQ(l.size() == w.f.size(), "factor-count", l.size() << " distinct factors, expected " << w.f.size());
    if (!a.zero() && R.chance(1, 3)) { mpq_class s(gen::coef(R, R.below(4)), abs(gen::coef(R, R.below(4)))); s.canonicalize(); mpq_class c2; vh::desc_add(" scaled by " + s.get_str()); auto l2 = fac(a * s, c2); VREQ(c2 == ct * s, "scaling-constant", "constant of " << s << "*F is " << c2 << ", expected " << ct * s); auto key = [](std::vector<std::pair<Q, uint64_t>>& v) { std::vector<std::string> o; for (auto& x : v) o.push_back(x.first.str() + "^" + std::to_string(x.second)); std::sort(o.begin(), o.end()); return o; }; VREQ(key(l) == key(l2), "scaling-factors", "factors of " << s << "*F differ"); vh::event("scalings compared"); }
    vh::event("irreducible factors certified", l.size()); vh::event_max("distinct factors", l.size()); vh::event("order " + c.name.substr(0, c.name.find('('))); if (!a.is_const()) vh::nontrivial(mdl::hash(a)); vh::sample(std::string(kind) + " " + vh::clip(a.str(), 200)); vh::event(std::string("kind ") + kind);
}
static void run(Rng& R, const Q& a, unsigned nv, const char* kind) { if (a.t.size() > 500) return; clpoly::__g_use_large_prime = R.chance(1, 8); vh::set_random_device(vh::random_rd_mode(R), R.next()); cv::vars(nv); switch (R.below(5)) { case 0: one<clpoly::grlex>(R, a, nv, kind); break; case 1: one<clpoly::lex>(R, a, nv, kind); break; case 2: one<uorder>(R, a, nv, kind); break; default: one<clex>(R, a, nv, kind); } clpoly::__g_use_large_prime = false; }
static Q qr(Rng& R, unsigned nv, unsigned deg, unsigned terms, int cls) { Q r; while (r.zero()) r = gen::qpoly(R, nv, deg, terms, cls, R.chance(1, 4)); return r; }
static mpq_class qc(Rng& R, int cls) { mpq_class s(gen::coef(R, cls), abs(gen::coef(R, cls))); s.canonicalize(); return s; }
SCENARIO(univariate, 900, 60000) { Q a(qc(R, R.below(4))); unsigned k = 1 + R.below(4); int cls = R.below(R.chance(1, 3) ? 4 : 2); for (unsigned i = 0; i < k; ++i) { Q g; unsigned d = R.below(5); while (g.zero()) { g = Q(); for (unsigned j = 0; j <= d; ++j) if (R.chance(2, 3)) g.add_term(mdl::Exp(j ? 1 : 0, j), qc(R, cls)); } a = a * mdl::pw(g, R.chance(3, 4) ? 1 : 1 + R.below(3)); } run(R, a, 2, "univariate"); }
SCENARIO(other_variable, 200, 10000) { unsigned nv = 2 + R.below(3), v = R.below(nv); Q a(qc(R, 1)); for (int i = 0; i < 2; ++i) { Z u = gen::upoly(R, 1 + R.below(3), 1, 3, v); a = a * mdl::toQ(u) * qc(R, 1); } run(R, a, nv, "other variable"); }
SCENARIO(multivariate, 350, 25000) { unsigned nv = 2 + R.below(2), k = 1 + R.below(3); int cls = R.below(3); Q a(qc(R, 1)); for (unsigned i = 0; i < k; ++i) a = a * mdl::pw(qr(R, nv, 1 + R.below(3), 1 + R.below(3), cls), R.chance(4, 5) ? 1 : 2); run(R, a, nv, "multivariate"); }
SCENARIO(splitting, 150, 10000) { Q a = mdl::toQ(ring::splitting(R)) * qc(R, 2); Q l = Q::var(0) * qc(R, 1) + Q(qc(R, 1)); a = a.subst_poly(0, l); if (R.chance(1, 2)) a = a * mdl::toQ(ring::splitting(R)); if (a.deg(0) <= 16) run(R, a, 1, "splitting"); }
SCENARIO(constants, 150, 1000) { unsigned nv = 1 + R.below(3); Q a; switch (R.below(4)) { case 0: break; case 1: a = Q(qc(R, 3)); break; case 2: a = Q::var(R.below(nv), 1 + R.below(5)) * qc(R, 3); break; default: { Exp e = gen::exp_box(R, nv, 4); a.add_term(e, qc(R, 3)); } } run(R, a, nv, "constants and monomials"); }
SCENARIO(denominators, 150, 10000) { unsigned nv = 1 + R.below(2); Q a = qr(R, nv, 2, 3, 3) * qr(R, nv, 2, 2, 2); mpz_class d = gen::bigint(R, 200); if (d == 0) d = 1; mpq_class s(gen::coef(R, 3), d); s.canonicalize(); run(R, a * s, nv, "denominators"); }
