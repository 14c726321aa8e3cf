// Bridges CLPoly objects and the independent model, and the canonical-form monitor.
#ifndef CONV_HH
#define CONV_HH
#include "model.hh"
#include <clpoly/polynomial.hh>
#include <clpoly/upolynomial.hh>

namespace cv {
using clpoly::ZZ; using clpoly::QQ; using clpoly::Zp; using clpoly::variable;
using mdl::Exp;

inline mpz_class mz(const ZZ& z) {
    if (z.is_small()) { mpz_class r; mpz_set_si(r.get_mpz_t(), (long)z.get_val()); return r; }
    return mpz_class(z.get_mpz_v());
}
inline mpq_class mq(const QQ& q) { mpq_class r; r.get_num() = mz(q.get_num()); r.get_den() = mz(q.get_den()); if (r.get_den() == 0) throw std::runtime_error("QQ with zero denominator"); r.canonicalize(); return r; }
inline ZZ zz(const mpz_class& z) { return ZZ(z.get_mpz_t()); }
inline QQ qq(const mpq_class& q) { return QQ(zz(q.get_num()), zz(q.get_den())); }

template <class Tc> struct KT;
template <> struct KT<ZZ> { typedef mpz_class K; static K in(const ZZ& z) { return mz(z); } static ZZ out(const K& k, uint64_t) { return zz(k); } };
template <> struct KT<QQ> { typedef mpq_class K; static K in(const QQ& z) { return mq(z); } static QQ out(const K& k, uint64_t) { return qq(k); } };
template <> struct KT<Zp> { typedef mdl::Fp K; static K in(const Zp& z) { return mdl::Fp(z.number(), z.prime()); } static Zp out(const K& k, uint64_t p) { return Zp((uint64_t)mdl::Fp::fix(k, p).v, p); } };

// model index i <-> variable; indices are in registration (serial) order
inline std::vector<variable>& V() { static std::vector<variable> v; return v; }
inline std::map<std::size_t, int>& VI() { static std::map<std::size_t, int> m; return m; }
inline void vars(size_t n) {
    static const char* names[] = {"x", "y", "z", "w", "u", "v", "a", "b", "c", "d"};
    while (V().size() < n) {
        size_t i = V().size();
        variable v(i < 10 ? std::string(names[i]) : "x" + std::to_string(i));
        VI()[v.serial()] = (int)i; V().push_back(v);
    }
}
inline int vindex(const variable& v) {
    auto it = VI().find(v.serial());
    if (it == VI().end()) return -1;
    return it->second;
}
struct BadMono : std::runtime_error { BadMono(const std::string& s) : std::runtime_error(s) {} };
template <class C> Exp exps(const clpoly::basic_monomial<C>& m) {
    Exp e;
    for (auto& x : m.data()) {
        int i = vindex(x.first);
        if (i < 0) throw BadMono("result mentions a foreign variable");
        if (x.second < 0) throw BadMono("result has a negative exponent");
        if (x.second > 0xffffffffll) throw BadMono("result has an absurd exponent");
        if (e.size() <= (size_t)i) e.resize(i + 1, 0);
        e[i] += (uint32_t)x.second;
    }
    mdl::trim(e); return e;
}
template <class Tc, class C> mdl::P<typename KT<Tc>::K> from(const clpoly::polynomial_<Tc, C>& p) {
    mdl::P<typename KT<Tc>::K> r;
    for (auto& t : p.data()) r.add_term(exps(t.first), KT<Tc>::in(t.second));
    return r;
}
template <class Tc> mdl::P<typename KT<Tc>::K> from(const clpoly::upolynomial_<Tc>& p, size_t v = 0) {
    mdl::P<typename KT<Tc>::K> r;
    for (auto& t : p.data()) {
        if (t.first.deg() < 0) throw BadMono("negative degree");
        Exp e(v + 1, 0); e[v] = (uint32_t)t.first.deg(); r.add_term(e, KT<Tc>::in(t.second));
    }
    return r;
}
template <class Tc, class C> clpoly::polynomial_<Tc, C> to(const mdl::P<typename KT<Tc>::K>& m, const C* comp = nullptr, uint64_t p = 0) {
    if (!comp) comp = &C::init;
    std::vector<std::pair<clpoly::basic_monomial<C>, Tc>> v;
    for (auto it = m.t.rbegin(); it != m.t.rend(); ++it) {
        std::vector<std::pair<variable, int64_t>> d;
        for (size_t i = 0; i < it->first.size(); ++i) if (it->first[i]) d.push_back({V()[i], (int64_t)it->first[i]});
        std::sort(d.begin(), d.end(), [&](auto& a, auto& b) { return (*comp)(a.first, b.first); });
        clpoly::basic_monomial<C> mm(comp);
        for (auto& x : d) mm.push_back(x);
        v.push_back({std::move(mm), KT<Tc>::out(it->second, p)});
    }
    std::sort(v.begin(), v.end(), [&](auto& a, auto& b) { return (*comp)(a.first, b.first); });
    clpoly::polynomial_<Tc, C> r(comp);
    r.data() = std::move(v);
    return r;
}
template <class Tc> clpoly::upolynomial_<Tc> tou(const mdl::P<typename KT<Tc>::K>& m, uint64_t p = 0, size_t var = 0) {
    clpoly::upolynomial_<Tc> r;
    for (auto it = m.t.rbegin(); it != m.t.rend(); ++it) r.data().push_back({clpoly::umonomial((int64_t)mdl::eget(it->first, var)), KT<Tc>::out(it->second, p)});
    return r;
}

// ---------- canonical-form monitor with an independent definition of the orders ----------
struct Ord { // most significant variable has the smallest rank
    bool graded = true; std::vector<int> rank;
    int rk(int i) const { return i < (int)rank.size() ? rank[i] : 1000000 + i; }
    // sign of monomial comparison: >0 iff a is larger
    int cmp(const Exp& a, const Exp& b) const {
        if (graded) { auto x = mdl::edeg(a), y = mdl::edeg(b); if (x != y) return x > y ? 1 : -1; }
        size_t n = std::max(a.size(), b.size());
        int best = -1, bestrk = 0;
        for (size_t i = 0; i < n; ++i) if (mdl::eget(a, i) != mdl::eget(b, i)) { if (best < 0 || rk(i) < bestrk) { best = (int)i; bestrk = rk(i); } }
        if (best < 0) return 0;
        return mdl::eget(a, best) > mdl::eget(b, best) ? 1 : -1;
    }
};
inline Ord ord_grlex() { Ord o; o.graded = true; return o; }
inline Ord ord_lex() { Ord o; o.graded = false; return o; }
inline Ord ord_custom(const std::vector<int>& order) { // order[0] most significant
    Ord o; o.graded = false; o.rank.assign(V().size(), 0);
    for (size_t i = 0; i < o.rank.size(); ++i) o.rank[i] = 100000 + (int)i;
    for (size_t i = 0; i < order.size(); ++i) o.rank[order[i]] = (int)i;
    return o;
}
inline Ord ord_uni(int v) { return ord_custom({v}); }

inline bool coef_ok(const ZZ& z, std::string& why) { if (!z) { why = "zero coefficient"; return false; } return true; }
inline bool coef_ok(const QQ& q, std::string& why) {
    mpz_class n = mz(q.get_num()), d = mz(q.get_den());
    if (n == 0) { why = "zero coefficient"; return false; }
    if (d <= 0) { why = "denominator not positive"; return false; }
    if (gcd(n, d) != 1) { why = "fraction not in lowest terms"; return false; }
    return true;
}
inline bool coef_ok(const Zp& z, std::string& why) {
    if (z.number() == 0) { why = "zero coefficient"; return false; }
    if (z.number() >= z.prime()) { why = "residue not reduced"; return false; }
    return true;
}
template <class Tc, class C> std::string canon(const clpoly::polynomial_<Tc, C>& p, const Ord& o) {
    Exp prev; bool first = true; std::string why;
    vh::event("canonical-form checks");
    for (auto& t : p.data()) {
        int lastrk = -1; int64_t sum = 0;
        for (auto& x : t.first.data()) {
            int i = vindex(x.first);
            if (i < 0) return "foreign variable in a monomial";
            if (x.second <= 0) return "non-positive exponent stored";
            int r = o.rk(i); if (r <= lastrk) return "variables of a monomial not strictly sorted";
            lastrk = r; sum += x.second;
        }
        if (sum != t.first.deg()) return "cached total degree of a monomial is wrong";
        Exp e = exps(t.first);
        if (!coef_ok(t.second, why)) return why;
        if (!first && o.cmp(prev, e) <= 0) return "terms not strictly decreasing";
        prev = e; first = false;
    }
    return "";
}
template <class Tc> std::string canon(const clpoly::upolynomial_<Tc>& p) {
    int64_t prev = -1; bool first = true; std::string why;
    vh::event("canonical-form checks");
    for (auto& t : p.data()) {
        if (t.first.deg() < 0) return "negative degree";
        if (!coef_ok(t.second, why)) return why;
        if (!first && t.first.deg() >= prev) return "terms not strictly decreasing";
        prev = t.first.deg(); first = false;
    }
    return "";
}
}
#endif
