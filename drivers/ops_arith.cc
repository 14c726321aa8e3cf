// numbers, monomials and polynomial arithmetic
#include "ops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ops;
namespace ops { std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
Inst pick(Rng& R) { unsigned w = 0; for (auto& e : table()) w += e.weight; unsigned k = R.below(w); for (auto& e : table()) { if (k < e.weight) return e.make(R); k -= e.weight; } throw 1; } }
namespace {
ZZ zi(Rng& R) { return cv::zz(gen::integer(R)); }
ZZ znz(Rng& R) { mpz_class z; do z = gen::integer(R); while (z == 0); return cv::zz(z); }
QQ qi(Rng& R) { return QQ(zi(R), znz(R)); }
#define BIN(op) [](const auto& a, const auto& b) { return a op b; }
#define CMP(op) [](auto& a, const auto& b) { a op b; }
#define IO(op) [](auto& o, const auto& a, const auto& b) { o = a op b; }
Inst zz(Rng& R) {
    ZZ a = zi(R), b = znz(R), c = zi(R); Inst i = call("ZZ arithmetic", [](const ZZ& a, const ZZ& b, const ZZ& c) { std::vector<ZZ> r{a + b, a - b, a * b, a / b, a % b, -a, abs(a), gcd(a, b), lcm(a, b), a * b + c, pow(a, 3)}; ZZ s = c; clpoly::addmul(s, a, b); r.push_back(s); s = c; clpoly::submul(s, a, b); r.push_back(s); ZZ q, m; ZZ::fdiv_q(q, a, b); ZZ::fdiv_r(m, a, b); r.push_back(q); r.push_back(m); return std::make_pair(r, std::vector<bool>{a < b, a == b, a > c, a != c}.size()); }, a, b, c);
    compound(i, "+=", a, b, BIN(+), CMP(+=)); compound(i, "-=", a, b, BIN(-), CMP(-=)); compound(i, "*=", a, b, BIN(*), CMP(*=)); ZZ n = a ? a : b; compound(i, "/=", n, b, BIN(/), CMP(/=)); compound(i, "%=", n, b, BIN(%), CMP(%=)); inout(i, "fdiv_q", n, b, [](const ZZ& a, const ZZ& b) { ZZ q; ZZ::fdiv_q(q, a, b); return q; }, [](ZZ& o, const ZZ& a, const ZZ& b) { ZZ::fdiv_q(o, a, b); }); inout(i, "fdiv_r", n, b, [](const ZZ& a, const ZZ& b) { ZZ q; ZZ::fdiv_r(q, a, b); return q; }, [](ZZ& o, const ZZ& a, const ZZ& b) { ZZ::fdiv_r(o, a, b); });
    i.alias.push_back({"addmul(x,x,x)", [=] { ZZ x = a; clpoly::addmul(x, x, x); ZZ e = a; const ZZ u = a, v = a; clpoly::addmul(e, u, v); return std::make_pair(dg(e), dg(x)); }}); i.alias.push_back({"submul(x,b,x)", [=] { ZZ x = a; clpoly::submul(x, b, x); ZZ e = a; const ZZ u = a; clpoly::submul(e, b, u); return std::make_pair(dg(e), dg(x)); }}); i.alias.push_back({"self-assign", [=] { ZZ x = a; ZZ& y = x; x = y; x.swap(y); return std::make_pair(dg(a), dg(x)); }}); i.alias.push_back({"moved-from", [=] { ZZ x = a, y = std::move(x); x = b; x += y; return std::make_pair(dg(a + b), dg(x)); }}); i.alias.push_back({"move to self via other", [=] { ZZ x = a, y(std::move(x)); x = std::move(y); y = c; return std::make_pair(dg(a) + dg(c), dg(x) + dg(y)); }}); return i;
}
Inst qq(Rng& R) {
    QQ a = qi(R), b = QQ(znz(R), znz(R)), c = qi(R); Inst i = call("QQ arithmetic", [](const QQ& a, const QQ& b, const QQ& c) { std::vector<QQ> r{a + b, a - b, a * b, a / b, -a, abs(a), a * b + c, pow(a, 3)}; QQ s = c; clpoly::addmul(s, a, b); r.push_back(s); return r; }, a, b, c);
    compound(i, "+=", a, b, BIN(+), CMP(+=)); compound(i, "-=", a, b, BIN(-), CMP(-=)); compound(i, "*=", a, b, BIN(*), CMP(*=)); compound(i, "/=", b, b, BIN(/), CMP(/=)); i.alias.push_back({"addmul(x,x,x)", [=] { QQ x = a; clpoly::addmul(x, x, x); QQ e = a; const QQ u = a, v = a; clpoly::addmul(e, u, v); return std::make_pair(dg(e), dg(x)); }}); i.alias.push_back({"self-assign", [=] { QQ x = a; QQ& y = x; x = y; return std::make_pair(dg(a), dg(x)); }}); i.alias.push_back({"moved-from", [=] { QQ x = a, y = std::move(x); x = b; x += y; return std::make_pair(dg(a + b), dg(x)); }}); return i;
}
Inst zp(Rng& R) { uint64_t p = gen::prime(R); Zp a(R.next() % p, p), b(1 + R.next() % (p - 1), p); Inst i = call("Zp arithmetic", [](const Zp& a, const Zp& b) { return std::vector<Zp>{a + b, a - b, a * b, a / b, -a, pow(a, 5)}; }, b, b); i = call("Zp arithmetic", [](const Zp& a, const Zp& b) { return std::vector<Zp>{a + b, a - b, a * b, -a, pow(a, 5)}; }, a, b); compound(i, "+=", a, b, BIN(+), CMP(+=)); compound(i, "-=", a, b, BIN(-), CMP(-=)); compound(i, "*=", a, b, BIN(*), CMP(*=)); compound(i, "/=", b, b, BIN(/), CMP(/=)); return i; }
template <class Tc, class C> Inst arith(Rng& R) {
    unsigned nv = R.chance(1, 6) ? 8 + R.below(5) : 1 + R.below(4); auto c = ctx<Tc, C>(R, nv); typedef typename Ctx<Tc, C>::Poly P; P a = c->mk(gp(R, *c, nv)), b = c->mk(gp(R, *c, nv)); Tc k = c->c(rcoef(R, *c, R.below(3))); variable v = cv::V()[R.below(nv)]; S n = "polynomial arithmetic [" + c->name + "]"; Inst i;
    auto f = [](const P& a, const P& b, const Tc& k, const variable& v) { std::vector<P> r{a + b, a - b, a * b, -a, +a, a * k, clpoly::pow(a, 2), clpoly::derivative(a, v), clpoly::leadcoeff(b, v), clpoly::assign(a, v, k)}; S s = dg(r) + dg(clpoly::degree(a)) + dg(clpoly::degree(a, v)) + dg(a == b) + dg(clpoly::is_number(a)); for (auto& x : clpoly::get_variables(std::vector<P>{a, b})) s += dg(x); std::map<variable, Tc> m{{v, k}}; s += dg(clpoly::assign(b, m)); if constexpr (!std::is_same_v<Tc, Zp>) { s += dg(clpoly::coeff(a, v)); P q = a; P z = q; z = z + b; s += dg(z) + dg(q); } return s; };
    i = call(n, f, a, b, k, v); if (!b.empty() && R.chance(1, 2)) { i = call("polynomial division [" + c->name + "]", [](const P& a, const P& b, const variable& v) { std::vector<P> r{a / b}; if constexpr (!std::is_same_v<Tc, Zp>) { r.push_back(clpoly::prem(a, b, v)); P q(a.comp_ptr()), m(a.comp_ptr()); q = clpoly::pquo(m, a, b, v); r.push_back(q); r.push_back(m); } return r; }, a, b, v); }
    compound(i, "+", a, b, BIN(+), [](P& x, const P& y) { x = x + y; }); compound(i, "-", a, b, BIN(-), [](P& x, const P& y) { x = x - y; }); compound(i, "*", a, b, BIN(*), [](P& x, const P& y) { x = x * y; });
    i.alias.push_back({"self-assign", [=] { P x = a; P& y = x; x = y; return std::make_pair(dg(a), dg(x)); }}); i.alias.push_back({"moved-from", [=] { P x = a, y = std::move(x); x = b; x = x + y; return std::make_pair(dg(b + a), dg(x)); }}); i.alias.push_back({"copy independent", [=] { P x = a, y = x; y = y + b; for (auto& t : y.data()) t.second = k; if (!y.empty()) y.data().pop_back(); P z; z = x; z.clear(); return std::make_pair(dg(a), dg(x)); }}); i.alias.push_back({"normalization of a copy", [=] { P x = a; auto d = x.data(); d.insert(d.end(), b.data().begin(), b.data().end()); P y(a.comp_ptr()); y.data() = d; y.normalization(); return std::make_pair(dg(a + b), dg(y)); }}); i.alias.push_back({"swap", [=] { P x = a, y = b; std::swap(x, y); return std::make_pair(dg(b) + dg(a), dg(x) + dg(y)); }});
    hold(i, c); return i;
}
template <class Tc> Inst uarith(Rng& R) {
    auto c = ctx<Tc, clpoly::lex>(R, 1); typedef typename Ctx<Tc, clpoly::lex>::K K; typedef clpoly::upolynomial_<Tc> U; U a = cv::tou<Tc>(gu<K>(R, *c, 6), c->p), b = cv::tou<Tc>(gu<K>(R, *c, 4, true), c->p); Tc k = c->c(rcoef(R, *c, 1)); Inst i = call("univariate arithmetic", [](const U& a, const U& b, const Tc& k) { S s = dg(std::vector<U>{a + b, a - b, a * b, -a, a * k, clpoly::derivative(a), a / b}); s += dg(clpoly::assign(a, k)) + dg(clpoly::degree(a)) + dg(a == b); return s; }, a, b, k);
    compound(i, "+", a, b, BIN(+), [](U& x, const U& y) { x = x + y; }); compound(i, "*", a, b, BIN(*), [](U& x, const U& y) { x = x * y; }); compound(i, "-", a, b, BIN(-), [](U& x, const U& y) { x = x - y; }); i.alias.push_back({"moved-from", [=] { U x = a, y = std::move(x); x = b; x = x + y; return std::make_pair(dg(b + a), dg(x)); }}); i.alias.push_back({"self-assign", [=] { U x = a; U& y = x; x = y; return std::make_pair(dg(a), dg(x)); }}); hold(i, c); return i;
}
template <class C> Inst mono(Rng& R) { unsigned nv = R.chance(1, 3) ? 12 : 1 + R.below(4); auto c = ctx<ZZ, C>(R, nv); typedef clpoly::basic_monomial<C> M; auto m = [&](unsigned d) { mdl::Z q; q.add_term(gen::exp_upto(R, nv, d), 1); return c->mk(q).data()[0].first; }; M a = m(6), b = m(4); M ab = a * b; Inst i = call("monomials [" + c->name + "]", [](const M& a, const M& b, const M& ab) { return std::make_pair(std::vector<M>{a * b, ab / b, clpoly::gcd(a, b), clpoly::pow(a, 3)}, dg(a == b) + dg(a < b) + dg(a.deg())); }, a, b, ab); compound(i, "*", a, b, BIN(*), [](M& x, const M& y) { x = x * y; }); i.alias.push_back({"moved-from", [=] { M x = a, y = std::move(x); x = b; return std::make_pair(dg(b) + dg(a), dg(x) + dg(y)); }}); hold(i, c); return i; }
template <class C1, class C2> Inst conv(Rng& R) { unsigned nv = 1 + R.below(5); auto c = ctx<ZZ, C1>(R, nv); auto d = ctx<ZZ, C2>(R, nv); typedef clpoly::polynomial_<ZZ, C1> P; P a = c->mk(gp(R, *c, nv)); auto dc = d->comp; Inst i = call("order conversion", [dc](const P& a) { clpoly::polynomial_<ZZ, C2> q(dc); clpoly::poly_convert(a, q); P back(a.comp_ptr()); clpoly::poly_convert(q, back); return std::make_pair(q, back); }, a); auto k = i.keep; hold(i, c); hold(i, d); return i; }
Add a1("numbers", 3, zz), a2("numbers", 2, qq), a3("numbers", 1, zp), b1("arith", 2, arith<ZZ, clpoly::grlex>), b2("arith", 2, arith<ZZ, clpoly::lex>), b3("arith", 2, arith<ZZ, clex>), b4("arith", 1, arith<QQ, clpoly::grlex>), b5("arith", 1, arith<Zp, clpoly::lex>), b6("arith", 1, arith<QQ, clex>), b7("arith", 1, arith<ZZ, uorder>), c1("uarith", 1, uarith<ZZ>), c2("uarith", 1, uarith<QQ>), c3("uarith", 1, uarith<Zp>), d1("mono", 1, mono<clpoly::grlex>), d2("mono", 1, mono<clpoly::lex>), d3("mono", 1, mono<clex>), e1("convert", 1, conv<clpoly::grlex, clpoly::lex>), e2("convert", 1, conv<clpoly::lex, clex>), e3("convert", 1, conv<clex, clpoly::grlex>);
}
