// real roots, graphs, dense polynomials, printing, random generators, order objects
#include "ops.hh"
#include <clpoly/resultant.hh>
#include <clpoly/polynomial_gcd.hh>
#include <clpoly/realroot.hh>
#include <clpoly/associatedgraph.hh>
#include <clpoly/dense_upoly_zp.hh>
#include <clpoly/random.hh>
using namespace ops;
namespace {
Inst roots(Rng& R) {
    auto c = ctx<ZZ, clpoly::lex>(R, 1); auto mkp = [&] { mdl::Z a = gu<mpz_class>(R, *c, 4, true); if (R.chance(1, 2)) a = a * (mdl::Z::var(0) * mpz_class((long)R.range(1, 3)) - mdl::Z(mpz_class((long)R.range(-4, 4)))); return a; }; typedef clpoly::polynomial_<ZZ, clpoly::lex> P; typedef clpoly::upolynomial_ZZ U; Inst i;
    if (R.chance(1, 3)) { mdl::Z a; do a = mkp(); while (a.is_const()); U q = cv::tou<ZZ>(a); q = q / clpoly::polynomial_GCD(q, clpoly::derivative(q)); i = call("uspensky", [](const U& q) { return dg(clpoly::uspensky(q)) + dg(clpoly::RealRootBound(q)); }, q); }
    else { std::vector<P> L; for (unsigned k = 0, n = R.below(4); k < n; ++k) L.push_back(c->mk(mkp())); i = call("real roots and their comparison", [](const std::vector<P>& L) { auto r = clpoly::realroot(L); S s = dg(r); auto v = r.first; for (auto& a : v) for (auto& b : v) { auto x = a, y = b; s += dg(x < y) + dg(x == y); } for (auto& a : v) { a.shrinkinterval(); a.shrinkinterval(); s += dg(a); } return s; }, L); } hold(i, c); return i;
}
Inst graphs(Rng& R) {
    cv::vars(12); typedef clpoly::graph<variable> G; G g; unsigned n = R.below(7); for (unsigned k = 0; k < n; ++k) g.add_node(cv::V()[k]); for (unsigned k = 0; n > 1 && k < R.below(12); ++k) { unsigned a = R.below(n), b = R.below(n); if (a != b) g.add_edge(cv::V()[a], cv::V()[b]); } std::vector<variable> l(g.nodes().begin(), g.nodes().end()); R.shuffle(l);
    Inst i = call("graph algorithms", [](const G& g, const std::vector<variable>& l) { S s = dg(clpoly::elimination_game(g, l)) + dg(clpoly::elimination_height(g, l)) + dg(clpoly::connected_branch(g)) + dg(clpoly::connected_branch_graph(g)); G out; auto o = clpoly::chordal_completion(out, g); s += dg(o) + dg(out) + dg(clpoly::perfect_elimination_ordering(out)) + dg(clpoly::graph_diff_score(g, out)); return s; }, g, l); i.stream = true; i.alias.push_back({"copy independent", [=] { G a = g, b = a; b.add_node(cv::V()[9]); b.add_edge(cv::V()[9], cv::V()[10]); G c2 = std::move(b); b = a; return std::make_pair(dg(g), dg(a)); }}); i.alias.push_back({"self-assign", [=] { G a = g; G& b = a; a = b; return std::make_pair(dg(g), dg(a)); }}); return i;
}
Inst assoc(Rng& R) { unsigned nv = 1 + R.below(5); auto c = ctx<ZZ, clpoly::grlex>(R, nv); typedef clpoly::polynomial_ZZ P; std::vector<P> L; for (unsigned k = 0; k < R.below(5); ++k) L.push_back(c->mk(gp(R, *c, nv))); Inst i = call("associated graph and ordering", [](const std::vector<P>& L) { return dg(clpoly::associatedgraph(L)) + dg(clpoly::peo(L)); }, L); i.stream = true; hold(i, c); return i; }
Inst dense(Rng& R) {
    uint64_t p = R.chance(1, 3) ? gen::odd_prime_big(R) : gen::prime(R); typedef clpoly::dense_upoly_zp D; auto rv = [&](unsigned n) { clpoly::upolynomial_<Zp> r; for (unsigned k = n; k-- > 0;) { uint64_t x = R.next() % p; if (x && R.chance(3, 4)) r.data().push_back({clpoly::umonomial((int64_t)k), Zp(x, p)}); } return D(r, p); }; D a = rv(R.below(R.chance(1, 5) ? 80 : 8)), b = rv(1 + R.below(8)); while (b.empty()) b = rv(4);
    Inst i = call("dense modular polynomials", [p](const D& a, const D& b) { D s(p), d(p), m(p), q(p), r(p); D::add(s, a, b); D::sub(d, a, b); D::mul(m, a, b); D::divrem(q, r, a, b); return dg(std::vector<D>{s, d, m, q, r}) + dg(a.to_upoly()); }, a, b); inout(i, "add", a, b, [p](const D& a, const D& b) { D s(p); D::add(s, a, b); return s; }, [](D& o, const D& a, const D& b) { D::add(o, a, b); }); inout(i, "mul", a, b, [p](const D& a, const D& b) { D s(p); D::mul(s, a, b); return s; }, [](D& o, const D& a, const D& b) { D::mul(o, a, b); }); inout(i, "sub", a, b, [p](const D& a, const D& b) { D s(p); D::sub(s, a, b); return s; }, [](D& o, const D& a, const D& b) { D::sub(o, a, b); }); i.alias.push_back({"copy independent", [=] { D x = a, y = x; y.scalar_mul(2 % p); D z = std::move(y); y = b; return std::make_pair(dg(a) + dg(b), dg(x) + dg(y)); }}); return i;
}
template <class Tc> Inst text(Rng& R) { unsigned nv = 1 + R.below(4); auto c = ctx<Tc, clpoly::grlex>(R, nv); typedef clpoly::polynomial_<Tc, clpoly::grlex> P; Inst i = call("printing", [](const P& a) { std::ostringstream o; o << a; return o.str() + "|" + a.str(); }, c->mk(gp(R, *c, nv))); hold(i, c); return i; }
Inst rnd(Rng& R) { unsigned nv = 1 + R.below(4); cv::vars(12); std::vector<variable> v(cv::V().begin(), cv::V().begin() + nv); uint64_t deg = R.below(5), len = R.below(8); Inst i = call("random generators", [deg, len](const std::vector<variable>& v) { S s = dg(clpoly::random_polynomial<ZZ>(v, deg, len, {-9, 9})) + dg(clpoly::random_polynomial_QQ(v, deg, len, {-9, 9})) + dg(clpoly::random_polynomial<ZZ>(v, deg, 0.5, 9, -9)) + dg(clpoly::random_upolynomial<ZZ>(deg, len, {-3, 9})) + dg(clpoly::random_graph(v, 0.5)) + dg(clpoly::RandomSample(v, len)); for (auto& f : clpoly::random_polynomials<ZZ>(v, 2, 0.7, 0.7, 5, -5)) s += dg(f); return s; }, v); i.stream = true; return i; }
// an order object that dies before polynomials that were copied from one carrying it must not matter: copies carry the order of their source, which lives here
Inst orders(Rng& R) { unsigned nv = 2 + R.below(3); auto c = ctx<ZZ, clex>(R, nv); auto d = ctx<ZZ, clex>(R, nv); typedef clpoly::polynomial_<ZZ, clex> P; P a = c->mk(gp(R, *c, nv)), b = d->mk(gp(R, *d, nv)); const clex* dc = d->comp; Inst i = call("polynomials under two custom orders", [dc](const P& a, const P& b) { P q(dc); clpoly::poly_convert(a, q); P s = q + b; P t = s; t = a; P u; u = b; return dg(s) + dg(t) + dg(u) + dg(clpoly::get_first_var(s)) + dg(clpoly::get_variables(std::vector<P>{u, s})); }, a, b); i.alias.clear(); hold(i, c); hold(i, d); return i; }
Add a1("roots", 3, roots), b1("graph", 2, graphs), b2("graph", 1, assoc), c1("dense", 2, dense), d1("text", 1, text<ZZ>), d2("text", 1, text<QQ>), e1("random", 2, rnd), f1("orders", 1, orders);
}
