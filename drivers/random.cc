// P28: random generators against their stated parameters, under ordinary and hostile random devices.
#include "ring.hh"
#include <clpoly/resultant.hh>
#include <clpoly/random.hh>
#include <clpoly/upolynomial.hh>
#include <set>
using vh::Rng; using cv::ZZ; using cv::QQ; using clpoly::variable; using mdl::Exp;
namespace {
mpz_class count_upto(uint64_t n, uint64_t d) { mpz_class r; mpz_bin_uiui(r.get_mpz_t(), n + d, n); return r; }
mpz_class big(uint64_t x) { mpz_class r; mpz_set_ui(r.get_mpz_t(), x); return r; }
struct Par { std::vector<int> idx; std::vector<variable> v; uint64_t deg; };
Par par(Rng& R, bool small) {
    Par p; unsigned nv = R.chance(1, 12) ? 0 : 1 + R.below(small ? 4 : R.chance(1, 3) ? 40 : 8); cv::vars(nv + 2); std::vector<int> all; for (unsigned i = 0; i < nv + 2; ++i) all.push_back((int)i); R.shuffle(all); all.resize(nv); p.idx = all; for (int i : all) p.v.push_back(cv::V()[i]);
    if (small) p.deg = R.below(7); else switch (R.below(4)) { case 0: p.deg = R.below(8); break; case 1: p.deg = R.below(40); break; case 2: p.deg = nv <= 2 ? R.below(3000) : R.below(60); break; default: p.deg = R.below(nv > 12 ? 70 : 30); } return p; }
std::pair<int, int> range(Rng& R) { switch (R.below(8)) { case 0: return {0, 0}; case 1: { int k = (int)R.range(-9, 9); return {k, k}; } case 2: return {(int)R.range(1, 9), (int)R.range(-9, 0)}; case 3: return {INT32_MIN, INT32_MAX}; case 4: return {0, 1}; case 5: return {-1, 0}; case 6: return {(int)R.range(2, 5), (int)R.range(6, 900)}; default: return {-(int)R.below(100), (int)R.below(100)}; } }
void dev(Rng& R) { vh::set_random_device(vh::random_rd_mode(R), R.next()); }
template <class M> void vars_deg(const M& m, const Par& p, const char* w) { for (auto& t : m.t) { VREQ(mdl::edeg(t.first) <= p.deg, "degree", w << ": term of degree " << mdl::edeg(t.first) << " over " << p.deg); for (size_t i = 0; i < t.first.size(); ++i) if (t.first[i]) VREQ(std::find(p.idx.begin(), p.idx.end(), (int)i) != p.idx.end(), "variable", w << ": variable " << cv::V()[i].name() << " was not given"); } }
template <class P> void canon(const P& q, const char* w) { std::string why = cv::canon(q, cv::ord_grlex()); VREQ(why.empty(), "canonical", w << ": " << why << " in " << vh::clip(q.str(), 500)); }
// the number of terms and the degree of the term-count form
template <class M> void shape(const M& m, const Par& p, uint64_t len, std::pair<int, int> c, bool add, const char* w) {
    if (c.first > c.second) std::swap(c.first, c.second); mpz_class total = count_upto(p.v.size(), p.deg), want = total < big(len) ? total : big(len); if (p.v.empty()) want = len ? 1 : 0;
    if (c.first == 0 && c.second == 0) { VREQ(m.zero(), "range", w << ": no nonzero coefficient exists, got " << vh::clip(m.str(), 300)); return; }
    bool has = m.t.count(Exp()); mpz_class got = big(m.t.size());
    if (len == 0) { VREQ(m.zero() || (add && m.is_const()), "terms", w << ": terms requested 0, got " << vh::clip(m.str(), 300)); return; }
    if (add) VREQ(has && (got == want || got == want + 1), "terms", w << ": " << got << " terms, requested " << want << " with a constant" << (has ? "" : " (missing)")); else VREQ(got == want, "terms", w << ": " << got << " terms, requested " << want);
    uint64_t d = 0; for (auto& t : m.t) d = std::max<uint64_t>(d, mdl::edeg(t.first)); VREQ(d == (p.v.empty() ? 0 : p.deg), "degree-reached", w << ": degree " << d << ", requested " << p.deg);
    vh::event("terms generated", m.t.size()); vh::event_max("variables", p.v.size()); if (mpz_sizeinbase(total.get_mpz_t(), 2) > 31) vh::event("monomial spaces above 2^31"); if (mpz_sizeinbase(total.get_mpz_t(), 2) > 64) vh::event("monomial spaces above 2^64");
}
template <class M> void inrange(const M& m, std::pair<int, int> c, const char* w) { if (c.first > c.second) std::swap(c.first, c.second); for (auto& t : m.t) VREQ(t.second >= c.first && t.second <= c.second, "coefficient", w << ": coefficient " << t.second << " outside [" << c.first << ", " << c.second << "]"); }
std::string dsc(const Par& p, const std::string& w) { std::string s = w + " in"; for (auto& x : p.v) s += " " + x.name(); return s + " degree " + std::to_string(p.deg); }
}
SCENARIO(terms, 1500, 60000) {
    Par p = par(R, R.chance(1, 2)); uint64_t len = R.chance(1, 12) ? 100000 : R.below(R.chance(1, 2) ? 5 : 40); if (len == 100000 && count_upto(p.v.size(), p.deg) > 3000) len = 300; auto c = range(R); bool add = R.chance(1, 3); vh::desc(dsc(p, "random_polynomial<ZZ>") + VMSG(" terms " << len << " coefficients " << c.first << ".." << c.second << (add ? " with constant" : ""))); dev(R); auto q = clpoly::random_polynomial<ZZ>(p.v, p.deg, len, c, add); canon(q, "random_polynomial"); auto m = cv::from(q); vars_deg(m, p, "random_polynomial"); shape(m, p, len, c, add, "random_polynomial"); inrange(m, c, "random_polynomial"); if (m.t.size() > 1) vh::nontrivial(vh::hash_str(q.str())); vh::sample(vh::clip(q.str(), 200));
}
SCENARIO(terms_qq, 800, 30000) {
    Par p = par(R, R.chance(1, 2)); uint64_t len = R.below(12); auto c = range(R); bool add = R.chance(1, 3); int den = R.chance(1, 3) ? 1 : 1 + (int)R.below(30); vh::desc(dsc(p, "random_polynomial_QQ") + VMSG(" terms " << len << " coefficients " << c.first << ".." << c.second << " denominators to " << den)); dev(R); auto q = R.chance(1, 4) && den == 1 ? clpoly::random_polynomial<QQ>(p.v, p.deg, len, c, add) : clpoly::random_polynomial_QQ(p.v, p.deg, len, c, den, add); canon(q, "random_polynomial_QQ"); auto m = cv::from(q); vars_deg(m, p, "random_polynomial_QQ"); shape(m, p, len, c, add, "random_polynomial_QQ");
    int lo = std::min(c.first, c.second), hi = std::max(c.first, c.second); for (auto& t : m.t) { bool ok = false; for (int k = 1; k <= den && !ok; ++k) { mpq_class x = t.second * k; ok = x.get_den() == 1 && x >= lo && x <= hi; } VREQ(ok, "coefficient", "coefficient " << t.second << " is not a number of [" << lo << ", " << hi << "] over 1.." << den); } if (m.t.size() > 1) vh::nontrivial(vh::hash_str(q.str()));
}
SCENARIO(univariate, 800, 30000) {
    uint64_t deg = R.below(R.chance(1, 4) ? 2000 : 12), len = R.below(R.chance(1, 6) ? 400 : 16); auto c = range(R); vh::desc(VMSG("random_upolynomial degree " << deg << " terms " << len << " coefficients " << c.first << ".." << c.second)); dev(R); cv::vars(1); auto q = clpoly::random_upolynomial<ZZ>(deg, len, c); auto m = cv::from(q); Par p; p.idx = {0}; p.v = {cv::V()[0]}; p.deg = deg; int64_t last = INT64_MAX; for (auto& t : q.data()) { VREQ(t.first.deg() < last && !!t.second, "canonical", "terms of " << vh::clip(q.str(), 400)); last = t.first.deg(); } vars_deg(m, p, "random_upolynomial"); shape(m, p, len, c, false, "random_upolynomial"); inrange(m, c, "random_upolynomial"); if (m.t.size() > 1) vh::nontrivial(vh::hash_str(q.str()));
}
SCENARIO(density, 1200, 50000) {
    Par p = par(R, true); if (p.v.size() > 3) p.deg = std::min<uint64_t>(p.deg, 4); auto c = range(R); double pr = R.chance(1, 4) ? 0.0 : R.chance(1, 3) ? 1.0 : R.below(1001) / 1000.0; vh::desc(dsc(p, "random_polynomial<ZZ>") + VMSG(" density " << pr << " coefficients " << c.first << ".." << c.second)); dev(R); auto q = clpoly::random_polynomial<ZZ>(p.v, p.deg, pr, c.first, c.second); canon(q, "random_polynomial(density)"); auto m = cv::from(q); vars_deg(m, p, "random_polynomial(density)"); inrange(m, c, "random_polynomial(density)"); mpz_class total = count_upto(p.v.size(), p.v.empty() ? 0 : p.deg); bool zero = std::min(c.first, c.second) <= 0 && std::max(c.first, c.second) >= 0;
    if (pr == 0) VREQ(m.zero(), "density-0", "density 0 gives " << q); VREQ(big(m.t.size()) <= total, "density", "more terms than monomials"); if (pr == 1 && !zero) VREQ(big(m.t.size()) == total, "density-1", "density 1 gives " << m.t.size() << " of " << total << " monomials"); if (m.t.size() > 1) vh::nontrivial(vh::hash_str(q.str())); vh::event("terms generated", m.t.size());
}
SCENARIO(select, 2500, 100000) {
    static const uint64_t ms[] = {0, 1, 2, 3, 10, 1000, 2147483647ull, 2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 4294967297ull, 1ull << 40, (1ull << 63) + 5, ~0ull - 1}; bool rep = R.chance(1, 3); uint64_t m = R.chance(1, 2) ? R.below(40) : ms[R.below(15)], n = m < 60 ? R.below(m + 4) : R.below(40); if (rep && !m) m = 1; vh::desc(VMSG("random_select(" << m << ", " << n << ", " << !rep << ")")); dev(R); auto v = clpoly::random_select(m, n, !rep); uint64_t want = rep ? n : std::min(m, n); VREQ(v.size() == want, "select-count", v.size() << " selected, requested " << want); std::set<size_t> s(v.begin(), v.end()); if (!rep) VREQ(s.size() == v.size(), "select-distinct", "an index was selected twice"); for (auto x : v) VREQ(x < m, "select-range", "index " << x << " of " << m); VREQ(std::is_sorted(v.begin(), v.end()), "select-sorted", "selection is not ascending"); vh::event("indices selected", v.size()); if (m > (1ull << 31) && n > 1) vh::event("selections above 2^31"); if (v.size() > 1) vh::nontrivial(R.next());
    // samples of a list keep positions: distinct elements, each no more often than listed, in list order
    std::vector<std::string> l; unsigned k = R.below(12); bool dist = R.chance(1, 2); for (unsigned i = 0; i < k; ++i) l.push_back(dist ? "e" + std::to_string(i) : std::string(1, (char)('a' + R.below(3)))); uint64_t w = R.below(k + 3); vh::desc(VMSG("RandomSample of " << k << ", " << w)); auto copy = l; auto o = clpoly::RandomSample(l, w); VREQ(l == copy, "sample-input", "the list changed"); VREQ(o.size() == std::min<uint64_t>(w, k), "sample-count", o.size() << " elements, requested " << std::min<uint64_t>(w, k)); auto left = l; for (auto& x : o) { auto it = std::find(left.begin(), left.end(), x); VREQ(it != left.end(), "sample-distinct", "'" << x << "' is not an element, or sampled more often than listed"); left.erase(it); } vh::event("elements sampled", o.size());
}
SCENARIO(graphs, 800, 30000) {
    unsigned n = R.below(12); std::vector<std::string> l; for (unsigned i = 0; i < n; ++i) l.push_back("v" + std::to_string(i)); R.shuffle(l); double p = R.chance(1, 4) ? 0.0 : R.chance(1, 3) ? 1.0 : R.below(1001) / 1000.0; vh::desc(VMSG("random_graph of " << n << " density " << p)); dev(R); auto g = clpoly::random_graph(l, p); VREQ(g.size() == n && g.nodes().size() == n, "graph-vertices", g.size() << " vertices, not " << n); for (auto& x : l) VREQ(std::count(g.nodes().begin(), g.nodes().end(), x) == 1, "graph-vertices", "vertex " << x << " missing or doubled"); size_t e = 0; for (auto& a : l) for (auto& b : l) { bool ab = g.is_edge(a, b); VREQ(ab == g.is_edge(b, a) && !(a == b && ab), "graph-simple", "edge " << a << "-" << b); if (ab && a < b) ++e; } VREQ(p != 0 || e == 0, "graph-density", "edges at density 0"); VREQ(p != 1 || e == n * (n - 1) / 2, "graph-density", e << " edges at density 1"); vh::event("edges generated", e); if (e > 1) vh::nontrivial(vh::hash_str(VMSG(g)));
    // systems with a random sparsity pattern
    Par q = par(R, true); if (q.v.size() > 3) q.deg = std::min<uint64_t>(q.deg, 4); auto c = range(R); double p1 = R.below(3) / 2.0, p2 = R.below(3) / 2.0; vh::desc(dsc(q, "random_polynomials") + VMSG(" " << p1 << " " << p2 << " coefficients " << c.first << ".." << c.second)); auto F = clpoly::random_polynomials<ZZ>(q.v, q.deg, p1, p2, c.first, c.second); VREQ(F.size() <= q.v.size(), "system-size", F.size() << " polynomials"); if (p1 == 0) VREQ(F.empty(), "system-density", "polynomials although no two variables are related"); if (p1 == 1 && q.v.size() > 1) VREQ(F.size() == q.v.size(), "system-density", F.size() << " polynomials although all variables are related"); bool z = std::min(c.first, c.second) <= 0 && std::max(c.first, c.second) >= 0; for (auto& f : F) { canon(f, "random_polynomials"); auto m = cv::from(f); vars_deg(m, q, "random_polynomials"); inrange(m, c, "random_polynomials"); if (p2 == 1 && p1 == 1 && !z) VREQ(big(m.t.size()) == count_upto(q.v.size(), q.deg), "system-terms", m.t.size() << " terms at density 1"); } vh::event("systems generated");
}
// every admissible outcome occurs among enough draws
SCENARIO(coverage, 4, 100) {
    unsigned nv = 1 + R.below(3); uint64_t deg = 1 + R.below(3), len = 1 + R.below(3); cv::vars(nv); std::vector<variable> v(cv::V().begin(), cv::V().begin() + nv); vh::desc(VMSG("coverage of " << nv << " variables, degree " << deg << ", terms " << len)); vh::set_random_device(vh::RD::Random, R.next()); std::set<Exp> mon; std::set<mpz_class> cf; std::set<std::string> edges, smp; unsigned draws = 1500; for (unsigned k = 0; k < draws; ++k) { auto m = cv::from(clpoly::random_polynomial<ZZ>(v, deg, len, {-2, 3})); for (auto& t : m.t) { mon.insert(t.first); cf.insert(t.second); } auto g = clpoly::random_graph(std::vector<int>{1, 2, 3}, 0.5); edges.insert(std::string() + (g.is_edge(1, 2) ? "1" : "0") + (g.is_edge(1, 3) ? "1" : "0") + (g.is_edge(2, 3) ? "1" : "0")); std::string s; for (int x : clpoly::RandomSample(std::vector<int>{1, 2, 3, 4}, 2)) s += std::to_string(x); std::sort(s.begin(), s.end()); smp.insert("s" + s); s = "i"; for (auto x : clpoly::random_select(4, 2)) s += std::to_string(x); smp.insert(s); }
    size_t want = 0; mpz_class tot = count_upto(nv, deg); want = tot.get_ui(); if (len == 1) { mpz_class lo = count_upto(nv, deg - 1); want -= lo.get_ui(); } VREQ(mon.size() == want, "coverage-monomials", mon.size() << " of " << want << " monomials occur in " << draws << " draws"); VREQ(cf.size() == 5, "coverage-coefficients", cf.size() << " of 5 coefficients occur"); VREQ(edges.size() == 8, "coverage-graphs", edges.size() << " of 8 graphs occur"); VREQ(smp.size() == 12, "coverage-samples", smp.size() << " of 12 samples occur"); vh::nontrivial(R.next()); vh::event("draws", draws);
}
