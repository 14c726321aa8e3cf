// P05: monomial orders and monomial arithmetic against exponent vectors.
#include "ring.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
typedef __int128 i128;
template <class C> using Mono = clpoly::basic_monomial<C>;
template <class C> Mono<C> mkm(const Exp& e, const C* comp) {
    std::vector<std::pair<variable, int64_t>> d; for (size_t i = 0; i < e.size(); ++i) if (e[i]) d.push_back({cv::V()[i], (int64_t)e[i]});
    std::sort(d.begin(), d.end(), [&](auto& a, auto& b) { return (*comp)(a.first, b.first); });
    Mono<C> m(comp); for (auto& x : d) m.push_back(x); return m;
}
template <class X> void same_m(const X& c, const Mono<typename X::comp_t>& m, const Exp& want, const char* key) {
    Exp w = want; mdl::trim(w); vh::event("checks"); int last = -1; int64_t sum = 0;
    for (auto& x : m.data()) { int i = cv::vindex(x.first); if (i < 0) vh::fail(std::string("foreign:") + key, "foreign variable"); int r = c.ord.rk(i); if (r <= last) vh::fail(std::string("canonical:") + key, std::string(key) + ": variables not strictly sorted: " + m.str()); last = r; if (x.second <= 0) vh::fail(std::string("canonical:") + key, std::string(key) + ": non-positive exponent: " + m.str()); sum += x.second; }
    if (sum != m.deg()) vh::fail(std::string("canonical:") + key, VMSG(key << ": cached degree " << m.deg() << " of " << m.str()));
    Exp g = cv::exps(m); if (g != w) vh::fail(std::string("value:") + key, std::string(key) + ": got " + m.str() + " expected " + mkm(w, c.comp).str());
    if (!(m.comp() == *c.comp)) vh::fail(std::string("order-object:") + key, "order object lost");
}
static Exp rexp(Rng& R, unsigned nv) {
    switch (R.below(6)) {
        case 0: return Exp();
        case 1: { Exp e(nv, 0); e[R.below(nv)] = 1 + R.below(R.chance(1, 3) ? 1u << 30 : 5); mdl::trim(e); return e; }
        case 2: { Exp e(nv, 0); for (auto& x : e) if (R.chance(1, 2)) x = R.below(1u << 28); mdl::trim(e); return e; }
        case 3: return gen::exp_box(R, nv, 2);
        default: return gen::exp_upto(R, nv, 1 + R.below(6));
    }
}
template <class X> void mono_case(Rng& R) {
    typedef typename X::comp_t C; cv::vars(70); unsigned nv = pick_nv(R); X c; MkCtx<typename X::coeff, C>::go(c, R, nv);
    Exp a = rexp(R, nv), b, t = rexp(R, nv); switch (R.below(4)) { case 0: b = a; break; case 1: b = a; b.resize(nv, 0); b[R.below(nv)] += 1; if (R.chance(1, 2)) { auto i = R.below(nv); if (b[i]) b[i]--; } mdl::trim(b); break; default: b = rexp(R, nv); }
    auto A = mkm(a, c.comp), B = mkm(b, c.comp), T = mkm(t, c.comp); const auto A0 = A, B0 = B;
    vh::desc(c.name + " a=" + A.str() + " b=" + B.str() + " t=" + T.str());
    int s = c.ord.cmp(a, b); const C& cmp = *c.comp;
    // total order, compatible with products, 1 smallest
    VREQ(cmp(A, B) == (s > 0) && cmp(B, A) == (s < 0), "order", "comparison of " << A << " and " << B << " under " << c.name << " is wrong");
    VREQ((A == B) == (s == 0) && (A != B) == (s != 0), "equality", "monomial equality wrong");
    VREQ(cmp(A * T, B * T) == (s > 0) && cmp(B * T, A * T) == (s < 0), "multiplicative", "order is not compatible with multiplication by " << T);
    { Mono<C> one(c.comp); VREQ(!cmp(one, A) && cmp(A, one) == !a.empty(), "one-smallest", "1 is not the smallest monomial"); }
    { auto x = cv::V()[R.below(nv)], y = cv::V()[R.below(nv)]; int rx = c.ord.rk(cv::vindex(x)), ry = c.ord.rk(cv::vindex(y)); VREQ(cmp(x, y) == (rx < ry), "variable-order", "variables " << x << "," << y << " compare wrongly under " << c.name); }
    // arithmetic
    Exp ab = mdl::eadd(a, b); auto AB = A * B; same_m(c, AB, ab, "*");
    same_m(c, AB / A, b, "/"); same_m(c, AB / B, a, "/"); { Mono<C> o(c.comp); clpoly::__mono_mult__(o, A, B); same_m(c, o, ab, "__mono_mult__"); }
    { Exp g(nv, 0), l(nv, 0); for (unsigned i = 0; i < nv; ++i) { g[i] = std::min(mdl::eget(a, i), mdl::eget(b, i)); l[i] = std::max(mdl::eget(a, i), mdl::eget(b, i)); }
      same_m(c, clpoly::gcd(A, B), g, "gcd"); same_m(c, clpoly::lcm(A, B), l, "lcm"); }
    { Mono<C> q(c.comp); bool d = clpoly::is_divexact(q, A, B); VREQ(d == mdl::edivides(b, a), "divides", B << " | " << A << " answered " << d); if (d) same_m(c, q, mdl::esub(a, b), "is_divexact"); 
      Mono<C> q2 = T; d = clpoly::is_divexact(q2, AB, B); VREQ(d, "divides", "B | A*B denied"); same_m(c, q2, a, "is_divexact reused"); }
    { int64_t k = R.below(4); Exp p = a; bool big = false; for (auto& x : p) { if ((uint64_t)x * k > 0xffffffffull) big = true; x = (uint32_t)(x * k); } if (!big) same_m(c, clpoly::pow(A, k), p, "pow"); }
    for (unsigned i = 0; i < nv; ++i) VREQ(A.deg(cv::V()[i]) == (int64_t)mdl::eget(a, i), "deg", "deg of " << cv::V()[i] << " in " << A);
    VREQ(A.deg() == (int64_t)mdl::edeg(a), "tdeg", "total degree of " << A);
    VREQ(A.is_normal() && AB.is_normal(), "is_normal", "canonical monomial reported as not normal");
    VREQ(std::hash<Mono<C>>()(AB / B) == std::hash<Mono<C>>()(A), "hash", "equal monomials hash differently");
    VREQ(A == A0 && B == B0, "operand-changed", "an operand changed");
    // construction from an unsorted list with repeats and zero exponents
    if (c.comp == &C::init) {
        std::vector<std::pair<variable, int64_t>> l; Exp e(nv, 0); unsigned n = R.below(6); for (unsigned i = 0; i < n; ++i) { unsigned v = R.below(nv), k = R.below(3); l.push_back({cv::V()[v], k}); e[v] += k; }
        // a repeated variable multiplies; normalization must merge it
        Mono<C> m(l); same_m(c, m, e, "list construction"); Mono<C> m2; m2 = l; same_m(c, m2, e, "list assignment"); Mono<C> m3(std::move(m2)); same_m(c, m3, e, "move"); m2 = m; same_m(c, m2, e, "copy"); m.swap(m3); same_m(c, m, e, "swap");
        Mono<C> m4(cv::V()[0]); same_m(c, m4, Exp(1, 1), "from variable"); m4 = cv::V()[nv - 1]; { Exp x(nv, 0); x[nv - 1] = 1; same_m(c, m4, x, "assign variable"); }
    }
    if (a != b) vh::nontrivial(vh::hash_str(c.name + A.str() + "|" + B.str() + "|" + T.str()));
    if (nv > 2) vh::sample(c.name + " " + A.str() + " vs " + B.str());
}
// the order sorts many monomials like the independent definition, whatever the input permutation
template <class X> void sort_case(Rng& R) {
    typedef typename X::comp_t C; cv::vars(70); unsigned nv = 1 + R.below(5); X c; MkCtx<typename X::coeff, C>::go(c, R, nv);
    std::vector<Exp> es; unsigned n = 3 + R.below(25); for (unsigned i = 0; i < n; ++i) es.push_back(gen::exp_upto(R, nv, 4));
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end()); R.shuffle(es); std::vector<Mono<C>> ms; std::string d = c.name; for (auto& e : es) { ms.push_back(mkm(e, c.comp)); d += " " + ms.back().str(); } vh::desc(d);
    std::sort(ms.begin(), ms.end(), [&](const Mono<C>& x, const Mono<C>& y) { return (*c.comp)(x, y); }); std::sort(es.begin(), es.end(), [&](const Exp& x, const Exp& y) { return c.ord.cmp(x, y) > 0; });
    for (size_t i = 0; i < es.size(); ++i) same_m(c, ms[i], es[i], "sorted sequence");
    if (es.size() > 2) vh::nontrivial(d);
}
#define OREG(CN, C) static vh::Reg r_m_##CN("mono_" #CN, 4000, 200000, [](Rng& R) { mono_case<Ctx<ZZ, C>>(R); }); static vh::Reg r_s_##CN("sort_" #CN, 600, 20000, [](Rng& R) { sort_case<Ctx<ZZ, C>>(R); });
OREG(grlex, clpoly::grlex) OREG(lex, clpoly::lex) OREG(clex, clex) OREG(uorder, uorder)
