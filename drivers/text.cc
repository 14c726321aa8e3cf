// P27: printed text denotes the value it was printed from (independent parser), for every ring and order.
#include "ring.hh"
#include <clpoly/upolynomial.hh>
#include <clpoly/realroot.hh>
#include <clpoly/associatedgraph.hh>
#include <set>
using vh::Rng; using namespace ring;
namespace {
struct Bad : std::runtime_error { Bad(const std::string& s) : std::runtime_error(s) {} };
// sum ::= ['+'|'-']* term { ('+'|'-')+ term };  term ::= factor { '*' factor };  factor ::= digits ['/' digits] | name ['^' ['-'] digits]
template <class K> struct Parser {
    const std::string& s; size_t i = 0; const std::map<std::string, int>& names; uint64_t p;
    Parser(const std::string& s, const std::map<std::string, int>& n, uint64_t p) : s(s), names(n), p(p) {}
    bool dig() const { return i < s.size() && s[i] >= '0' && s[i] <= '9'; }
    std::string digits() { size_t b = i; while (dig()) ++i; if (b == i) throw Bad("digit expected at " + std::to_string(b)); return s.substr(b, i - b); }
    K conv(const mpq_class& q) const { if constexpr (std::is_same_v<K, mpq_class>) return q; else if constexpr (std::is_same_v<K, mpz_class>) { if (q.get_den() != 1) throw Bad("fraction among integers"); return q.get_num(); } else { mpz_class pp; mpz_set_ui(pp.get_mpz_t(), p); if (q.get_den() != 1) throw Bad("fraction among residues"); if (q.get_num() >= pp) throw Bad("residue not reduced"); return mdl::Fp(mpz_get_ui(q.get_num().get_mpz_t()), p); } }
    void factor(mpq_class& c, Exp& e) {
        if (dig()) { mpq_class q; q.get_num() = mpz_class(digits()); q.get_den() = 1; if (i < s.size() && s[i] == '/') { ++i; std::string d = digits(); q.get_den() = mpz_class(d); if (q.get_den() == 0) throw Bad("zero denominator"); mpz_class g = gcd(q.get_num(), q.get_den()); if (g != 1 || q.get_den() == 1) throw Bad("fraction not in lowest terms"); } c *= q; c.canonicalize(); return; }
        size_t b = i; while (i < s.size() && !strchr("+-*^/ ", s[i])) ++i; if (b == i) throw Bad("factor expected at " + std::to_string(b));
        auto it = names.find(s.substr(b, i - b)); if (it == names.end()) throw Bad("unknown name '" + s.substr(b, i - b) + "'");
        uint64_t d = 1; if (i < s.size() && s[i] == '^') { ++i; d = std::stoull(digits()); if (d < 2) throw Bad("exponent " + std::to_string(d) + " printed"); }
        if (e.size() <= (size_t)it->second) e.resize(it->second + 1, 0); if (e[it->second]) throw Bad("variable printed twice in a term"); e[it->second] += (uint32_t)d;
    }
    mdl::P<K> sum(std::vector<Exp>* seq = nullptr) {
        mdl::P<K> r; bool first = true; if (s == "0") { return r; } if (s.empty()) throw Bad("empty text");
        while (i < s.size()) {
            bool neg = false, sign = false; while (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg ^= s[i] == '-'; sign = true; ++i; }
            if (!first && !sign) throw Bad("operator expected at " + std::to_string(i)); first = false;
            mpq_class c = 1; Exp e; factor(c, e); while (i < s.size() && s[i] == '*') { ++i; factor(c, e); }
            mdl::trim(e); K k = conv(c); if (neg) k = K(-k); if (mdl::isz(k)) throw Bad("zero term printed"); if (r.t.count(e)) throw Bad("monomial printed twice"); r.add_term(e, k); if (seq) seq->push_back(e);
        }
        return r;
    }
};
std::map<std::string, int> names(unsigned nv) { std::map<std::string, int> m; for (unsigned i = 0; i < nv; ++i) m[cv::V()[i].name()] = (int)i; return m; }
// the numbers that select different branches of the printer
template <class X> typename X::K pc(Rng& R, const X& c) { switch (R.below(6)) { case 0: return c.k(1); case 1: return c.k(-1); case 2: return c.k(R.range(1, 12) * (R.chance(1, 2) ? 1 : -1)); default: return rcoef(R, c, (int)R.below(4)); } }
template <class X> typename X::M pp(Rng& R, const X& c, unsigned nv) { typename X::M r; if (R.chance(1, 20)) return r; unsigned n = 1 + R.below(R.chance(1, 3) ? 2 : 7); for (unsigned i = 0; i < n; ++i) { Exp e; switch (R.below(5)) { case 0: break; case 1: e = Exp(nv, 0); e[R.below(nv)] = 1; mdl::trim(e); break; case 2: e = Exp(nv, 0); e[R.below(nv)] = (uint32_t)(R.chance(1, 3) ? 1 + R.below(60000) : R.below(130)); mdl::trim(e); break; default: e = gen::exp_upto(R, nv, 1 + R.below(6)); } auto k = pc(R, c); if (!mdl::isz(k)) r.add_term(e, k); } return r; }
template <class T> std::string put(Rng& R, const T& v, const std::string& key) { // the stream receives the text and nothing else, whatever was written before
    std::ostringstream a, b; a << v; b << "ab" << 7 << v << "!"; VREQ(b.str() == "ab7" + a.str() + "!", "stream:" + key, "in a stream with other text: '" << b.str() << "', alone '" << a.str() << "'"); VREQ(a.good() && b.good(), "stream-state:" + key, "stream not good after printing"); return a.str(); }
template <class Tc, class C> void one(Rng& R) {
    unsigned nv = pick_nv(R); cv::vars(nv); Ctx<Tc, C> c; MkCtx<Tc, C>::go(c, R, nv); auto nm = names((unsigned)cv::V().size());
    std::vector<typename Ctx<Tc, C>::Poly> list; std::vector<std::string> texts; unsigned n = 1 + R.below(3);
    for (unsigned k = 0; k < n; ++k) {
        auto m = pp(R, c, nv); vh::desc("print [" + c.name + (c.p ? " mod " + std::to_string(c.p) : "") + "] " + vh::clip(m.str(), 600)); auto q = c.mk(m); auto copy = q; std::string t = put(R, q, "poly");
        std::vector<Exp> seq; typename Ctx<Tc, C>::M g; try { g = Parser<typename Ctx<Tc, C>::K>(t, nm, c.p).sum(&seq); } catch (Bad& e) { vh::fail("parse", VMSG("printed '" << vh::clip(t, 800) << "': " << e.what())); }
        VREQ(g == m, "value", "printed '" << vh::clip(t, 800) << "' denotes " << vh::clip(g.str(), 800) << ", not " << vh::clip(m.str(), 800));
        for (size_t i = 1; i < seq.size(); ++i) VREQ(c.ord.cmp(seq[i - 1], seq[i]) > 0, "order", "terms of '" << vh::clip(t, 800) << "' are not printed in decreasing order");
        VREQ(q.str() == t, "str", "str() '" << q.str() << "' but stream '" << t << "'"); VREQ(q == copy && cv::from(q) == m, "changed", "printing changed the polynomial"); VREQ(vh::str(q) == t && vh::str(copy) == t, "repeat", "printing again, or printing a copy, gives different text");
        for (auto& tm : q.data()) { std::string a = put(R, tm.first, "monomial"); VREQ(tm.first.str() == a, "mono-str", "monomial str() '" << tm.first.str() << "', stream '" << a << "'"); Exp want = cv::exps(tm.first); if (want.empty()) VREQ(a == "1", "mono-one", "unit monomial prints '" << a << "'"); else { std::vector<Exp> s1; mdl::Z z; try { z = Parser<mpz_class>(a, nm, 0).sum(&s1); } catch (Bad& e) { vh::fail("mono-parse", VMSG("monomial '" << a << "': " << e.what())); } VREQ(s1.size() == 1 && s1[0] == want && z.t.begin()->second == 1, "mono-value", "monomial prints '" << a << "'"); } std::string ct = put(R, tm.second, "coef"); typename Ctx<Tc, C>::M kk; try { kk = Parser<typename Ctx<Tc, C>::K>(ct, nm, c.p).sum(); } catch (Bad& e) { vh::fail("coef-parse", VMSG("coefficient '" << ct << "': " << e.what())); } VREQ(kk.is_const() && kk.constant() == cv::KT<Tc>::in(tm.second), "coef-value", "coefficient prints '" << ct << "'"); }
        if (seq.size() > 1) vh::nontrivial(vh::hash_str(c.name + t)); vh::event("terms read back", seq.size()); vh::sample(vh::clip(t, 200)); list.push_back(q); texts.push_back(t);
        // a polynomial that arose by computation and has the same value prints the same
        if constexpr (std::is_same_v<C, clpoly::grlex> || std::is_same_v<C, clpoly::lex>) { auto r = q + q; r = r - q; VREQ(vh::str(r) == t, "by-value", "equal polynomial prints '" << r << "', not '" << t << "'"); }
    }
    std::string w = "[ "; for (size_t i = 0; i < n; ++i) w += (i ? " , " : "") + texts[i]; std::ostringstream os; clpoly::operator<<(os, list); VREQ(os.str() == w + " ]", "vector", "vector prints '" << vh::clip(os.str(), 600) << "'");
    std::vector<typename Ctx<Tc, C>::Poly> none; std::ostringstream oe; clpoly::operator<<(oe, none); VREQ(oe.str() == "[  ]", "vector-empty", "empty vector prints '" << oe.str() << "'");
    if constexpr (!std::is_same_v<Tc, Zp>) { std::set<typename Ctx<Tc, C>::Poly> st(list.begin(), list.end()); std::set<std::string> got, want(texts.begin(), texts.end()); std::ostringstream ss; clpoly::operator<<(ss, st); std::string x = ss.str(); VREQ(x.size() >= 4 && x.substr(0, 2) == "{ " && x.substr(x.size() - 2) == " }", "set", "set prints '" << x << "'"); x = x.substr(2, x.size() - 4); size_t b = 0, cnt = 0; while (true) { size_t e = x.find(" , ", b); got.insert(x.substr(b, e == std::string::npos ? e : e - b)); ++cnt; if (e == std::string::npos) break; b = e + 3; } VREQ(got == want && cnt == want.size(), "set", "set prints '" << ss.str() << "'"); }
}
template <class Tc> void uni(Rng& R) {
    cv::vars(1); Ctx<Tc, clpoly::lex> c; MkCtx<Tc, clpoly::lex>::go(c, R, 1); std::map<std::string, int> nm{{"#", 0}}; auto m = pp(R, c, 1); vh::desc("print univariate " + (c.p ? "mod " + std::to_string(c.p) + " " : std::string()) + vh::clip(m.str(), 600)); auto q = cv::tou<Tc>(m, c.p); auto copy = q; std::string t = put(R, q, "upoly"); typename Ctx<Tc, clpoly::lex>::M g; std::vector<Exp> seq; try { g = Parser<typename Ctx<Tc, clpoly::lex>::K>(t, nm, c.p).sum(&seq); } catch (Bad& e) { vh::fail("parse", VMSG("printed '" << vh::clip(t, 800) << "': " << e.what())); }
    VREQ(g == m, "value", "printed '" << vh::clip(t, 800) << "' denotes " << vh::clip(g.str(), 800)); VREQ(q.str() == t && q == copy, "str", "str() '" << q.str() << "', stream '" << t << "'"); for (size_t i = 1; i < seq.size(); ++i) VREQ(mdl::eget(seq[i - 1], 0) > mdl::eget(seq[i], 0), "order", "terms not in decreasing order: " << t);
    for (auto& tm : q.data()) { std::string a = put(R, tm.first, "umonomial"); uint64_t d = (uint64_t)tm.first.deg(); VREQ(a == (d == 0 ? "1" : d == 1 ? "#" : "#^" + std::to_string(d)) && tm.first.str() == a, "umonomial", "degree " << d << " prints '" << a << "', str() '" << tm.first.str() << "'"); }
    if (seq.size() > 1) vh::nontrivial(vh::hash_str(t)); vh::event("terms read back", seq.size());
}
std::string mpzs(const mpz_class& z) { return z.get_str(); }
}
SCENARIO(poly_zz, 1200, 60000) { switch (R.below(4)) { case 0: one<ZZ, clpoly::grlex>(R); break; case 1: one<ZZ, clpoly::lex>(R); break; case 2: one<ZZ, clex>(R); break; default: one<ZZ, uorder>(R); } }
SCENARIO(poly_qq, 1200, 60000) { switch (R.below(3)) { case 0: one<QQ, clpoly::grlex>(R); break; case 1: one<QQ, clpoly::lex>(R); break; default: one<QQ, clex>(R); } }
SCENARIO(poly_zp, 1200, 60000) { switch (R.below(3)) { case 0: one<Zp, clpoly::grlex>(R); break; case 1: one<Zp, clpoly::lex>(R); break; default: one<Zp, clex>(R); } }
SCENARIO(univariate, 1200, 60000) { switch (R.below(3)) { case 0: uni<ZZ>(R); break; case 1: uni<QQ>(R); break; default: uni<Zp>(R); } }
SCENARIO(numbers, 3000, 150000) {
    mpz_class a = gen::integer(R), b; do b = gen::integer(R); while (b == 0); ZZ z = cv::zz(a); vh::desc("integer " + mpzs(a) + " / " + mpzs(b)); std::string t = put(R, z, "zz"); VREQ(t == mpzs(a), "zz-print", "prints '" << t << "'");
    { ZZ r = cv::zz(gen::integer(R)); std::istringstream is(t); is >> r; VREQ(cv::mz(r) == a && !is.bad(), "zz-read", "reading '" << t << "' gives " << r); ZZ e = cv::zz(a); std::istringstream em("   "); em >> e; VREQ(cv::mz(e) == a && em.fail(), "zz-read-empty", "reading nothing gives " << e); }
    for (int base : {2, 8, 10, 16, 36}) { std::string s = a.get_str(base); VREQ(cv::mz(ZZ(s, base)) == a && cv::mz(ZZ(s.c_str(), base)) == a, "zz-base", "'" << s << "' in base " << base << " gives " << ZZ(s, base)); }
    { static const char* bad[] = {"", "-", "x", "1x", "--1", "0x1g", "1.5", "1/2", "+"}; const char* s = bad[R.below(9)]; bool threw = false; try { ZZ q(s); (void)q; } catch (std::invalid_argument&) { threw = true; } VREQ(threw, "zz-invalid", "'" << s << "' accepted as an integer"); vh::event("invalid texts"); }
    mpq_class q(a, b); q.canonicalize(); QQ qq = cv::qq(q); std::string u = put(R, qq, "qq"); VREQ(u == q.get_str(), "qq-print", "prints '" << u << "', not '" << q.get_str() << "'"); { QQ r = cv::qq(mpq_class(gen::integer(R))); std::istringstream is(u); is >> r; VREQ(cv::mq(r) == q && cv::mz(r.get_num()) == q.get_num() && cv::mz(r.get_den()) == q.get_den(), "qq-read", "reading '" << u << "' gives " << r); }
    { mpz_class k = gen::integer(R); if (k == 0) k = 6; mpz_class nn = a * k, dd = b * k; std::string s = mpzs(nn) + "/" + mpzs(dd); QQ r; std::istringstream is(s); is >> r; VREQ(cv::mz(r.get_num()) == q.get_num() && cv::mz(r.get_den()) == q.get_den(), "qq-read-canonical", "reading '" << s << "' gives " << r.get_num() << "/" << r.get_den()); QQ w = cv::qq(q); bool threw = false; try { std::istringstream z0(mpzs(a) + "/0"); z0 >> w; } catch (std::domain_error&) { threw = true; } VREQ(threw && cv::mq(w) == q, "qq-read-zero", "reading a/0 " << (threw ? "changed the target" : "accepted")); }
    // a stream of several numbers
    unsigned n = 1 + R.below(6); std::vector<mpq_class> v; std::string s; for (unsigned i = 0; i < n; ++i) { mpz_class d = gen::integer(R); mpq_class x(gen::integer(R), d == 0 ? mpz_class(1) : d); x.canonicalize(); v.push_back(x); s += vh::str(cv::qq(x)) + (R.chance(1, 2) ? " " : " \n\t"); } std::istringstream is(s); for (unsigned i = 0; i < n; ++i) { QQ x; is >> x; VREQ(cv::mq(x) == v[i], "qq-sequence", "number " << i << " of '" << s << "' read as " << x); } vh::event("numbers read back", n + 2);
    uint64_t p = gen::prime(R), k = R.next() % p; VREQ(put(R, Zp(k, p), "zp") == std::to_string(k), "zp-print", "residue " << k << " prints '" << Zp(k, p) << "'"); vh::nontrivial(vh::hash_str(t + u));
}
SCENARIO(roots_graphs, 800, 30000) {
    cv::vars(6); { mpq_class a(gen::integer(R), 1 + R.below(999)), b(gen::integer(R), 1 + R.below(999)); a.canonicalize(); b.canonicalize(); if (b < a) std::swap(a, b); clpoly::upolynomial_ZZ p({{clpoly::umonomial(1), ZZ(1)}}); clpoly::uroot r(p, cv::qq(a), cv::qq(b)); vh::desc("interval " + a.get_str() + " " + b.get_str()); std::string t = put(R, r, "root"); VREQ(t == "{" + a.get_str() + "," + b.get_str() + "}", "root", "interval prints '" << t << "'"); VREQ(put(R, clpoly::uroot::inf(), "inf") == "inf" && put(R, clpoly::uroot::neginf(), "inf") == "-inf", "root-inf", "infinities print '" << clpoly::uroot::inf() << "', '" << clpoly::uroot::neginf() << "'"); }
    clpoly::graph<variable> g; unsigned n = R.below(7), m; std::set<std::pair<std::string, std::string>> e, got; std::set<std::string> nodes, gn; for (unsigned i = 0; i < n; ++i) { variable v = cv::V()[R.below(6)]; g.add_node(v); nodes.insert(v.name()); } m = n ? R.below(8) : 0; for (unsigned i = 0; i < m; ++i) { variable a = cv::V()[R.below(6)], b = cv::V()[R.below(6)]; if (a == b) continue; g.add_edge(a, b); nodes.insert(a.name()); nodes.insert(b.name()); e.insert({a.name(), b.name()}); e.insert({b.name(), a.name()}); }
    std::string t = put(R, g, "graph"); vh::desc("graph " + t); VREQ(t.substr(0, 2) == "{\n" && t.back() == '}', "graph", "graph prints '" << t << "'"); std::istringstream is(t.substr(2, t.size() - 3)); std::string line; while (std::getline(is, line)) { std::istringstream ls(line); std::string h, x; ls >> h; VREQ(h.size() > 1 && h.back() == ':', "graph-line", "line '" << line << "'"); h.pop_back(); VREQ(gn.insert(h).second, "graph-line", "vertex " << h << " printed twice"); while (ls >> x) VREQ(got.insert({h, x}).second, "graph-line", "edge printed twice in '" << line << "'"); } VREQ(gn == nodes && got == e, "graph", "graph prints '" << t << "': " << gn.size() << " vertices, " << got.size() << " edges, not " << nodes.size() << ", " << e.size()); vh::event("graphs read back"); if (e.size() > 2) vh::nontrivial(vh::hash_str(t));
}
