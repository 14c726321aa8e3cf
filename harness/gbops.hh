// P19 / P20 oracle: an independent Buchberger algorithm (product criterion only) over the rationals, and exact division with
// remainder over the rationals; a modular run with a work budget filters out systems that are too large.
#ifndef GBOPS_HH
#define GBOPS_HH
#include "ring.hh"
#include <clpoly/groebner.hh>
namespace gb {
using namespace ring; using mdl::Fp;
struct Budget { long left; void use(long n) { if ((left -= n) < 0) throw vh::Inconclusive{"budget"}; } };
inline long weight(const Fp&) { return 0; } inline long weight(const mpq_class& q) { return (long)(mpz_size(q.get_num_mpz_t()) + mpz_size(q.get_den_mpz_t())); }
template <class K> struct Eng {
    typedef mdl::P<K> M; cv::Ord o; Budget* b = nullptr;
    struct Cmp { const cv::Ord* o; bool operator()(const Exp& x, const Exp& y) const { return o->cmp(x, y) > 0; } };
    typedef std::map<Exp, K, Cmp> S;
    S srt(const M& m) const { S s(Cmp{&o}); for (auto& t : m.t) s.insert(t); return s; }
    M back(const S& s) const { M m; for (auto& t : s) m.t.insert(t); return m; }
    static void sub(S& h, const S& g, const Exp& e, const K& c) { for (auto& t : g) { Exp x = mdl::eadd(t.first, e); mdl::trim(x); auto it = h.find(x); K v = t.second * c; if (it == h.end()) h.emplace(x, K(-v)); else { it->second -= v; if (mdl::isz(it->second)) h.erase(it); } } }
    S nf(S h, const std::vector<S>& G) const { S r(Cmp{&o}); while (!h.empty()) { bool d = false; for (auto& g : G) if (mdl::edivides(g.begin()->first, h.begin()->first)) { if (b) b->use(((long)g.size() + 2) * (1 + weight(h.begin()->second) + weight(g.begin()->second))); sub(h, g, mdl::esub(h.begin()->first, g.begin()->first), K(h.begin()->second / g.begin()->second)); d = true; break; } if (!d) { r.insert(*h.begin()); h.erase(h.begin()); } } return r; }
    static Exp lcm(const Exp& a, const Exp& c) { Exp r(std::max(a.size(), c.size()), 0); for (size_t i = 0; i < r.size(); ++i) r[i] = std::max(mdl::eget(a, i), mdl::eget(c, i)); mdl::trim(r); return r; }
    static void monic(S& s) { K l = s.begin()->second; for (auto& t : s) t.second = K(t.second / l); }
    S spol(const S& f, const S& g) const { Exp L = lcm(f.begin()->first, g.begin()->first); S h(Cmp{&o}); sub(h, f, mdl::esub(L, f.begin()->first), K(K(-1) / f.begin()->second)); sub(h, g, mdl::esub(L, g.begin()->first), K(K(1) / g.begin()->second)); return h; }
    std::vector<S> basis(const std::vector<M>& F) const {
        std::vector<S> G; std::vector<std::pair<size_t, size_t>> P; auto add = [&](S h) { monic(h); for (size_t i = 0; i < G.size(); ++i) P.push_back({i, G.size()}); G.push_back(std::move(h)); };
        for (auto& f : F) if (!f.zero()) add(srt(f));
        while (!P.empty()) { size_t bi = 0; for (size_t i = 1; i < P.size(); ++i) { b->use(1); if (mdl::edeg(lcm(G[P[i].first].begin()->first, G[P[i].second].begin()->first)) < mdl::edeg(lcm(G[P[bi].first].begin()->first, G[P[bi].second].begin()->first))) bi = i; } auto pr = P[bi]; P.erase(P.begin() + bi); const Exp &x = G[pr.first].begin()->first, &y = G[pr.second].begin()->first; if (mdl::edeg(lcm(x, y)) == mdl::edeg(x) + mdl::edeg(y)) continue; S h = nf(spol(G[pr.first], G[pr.second]), G); if (!h.empty()) add(std::move(h)); }
        std::vector<S> R; for (size_t i = 0; i < G.size(); ++i) { bool red = false; for (size_t j = 0; j < G.size() && !red; ++j) if (j != i && mdl::edivides(G[j].begin()->first, G[i].begin()->first) && (G[j].begin()->first != G[i].begin()->first || j < i)) red = true; if (!red) R.push_back(G[i]); }
        for (size_t i = 0; i < R.size(); ++i) { std::vector<S> O; for (size_t j = 0; j < R.size(); ++j) if (j != i) O.push_back(R[j]); R[i] = nf(R[i], O); monic(R[i]); } return R;
    }
};
typedef Eng<Fp> EF; typedef Eng<mpq_class> EQ;
static const uint64_t P1 = 1963387453816328017ull, P2 = 7640891576956012807ull;
inline Fp inp(const mpz_class& c, uint64_t p) { return Fp((uint64_t)mpz_fdiv_ui(c.get_mpz_t(), p), p); }
inline Fp inp(const mpq_class& c, uint64_t p) { Fp d = inp(c.get_den(), p); if (d.v == 0) throw vh::Inconclusive{"denominator"}; return inp(c.get_num(), p) * d.inv(); }
template <class K> mdl::F modp(const mdl::P<K>& a, uint64_t p) { mdl::F r; for (auto& t : a.t) { Fp c = inp(t.second, p); if (!c.zero()) r.t[t.first] = c; } return r; }
template <class K> mdl::Q rat(const mdl::P<K>& a) { mdl::Q r; for (auto& t : a.t) r.t[t.first] = mpq_class(t.second); return r; }
// reduced basis of the ideal over the rationals, as a sorted list of strings of monic polynomials (a cheap modular run first)
template <class M> std::vector<std::string> refbasis(const std::vector<M>& F, const cv::Ord& o, long budget) { Budget b{budget}; EF e; e.o = o; e.b = &b; std::vector<mdl::F> f; for (auto& x : F) f.push_back(modp(x, P1)); e.basis(f); Budget b2{budget * 4}; EQ q; q.o = o; q.b = &b2; std::vector<mdl::Q> fq; for (auto& x : F) fq.push_back(rat(x)); std::vector<std::string> r; for (auto& s : q.basis(fq)) r.push_back(q.back(s).str()); std::sort(r.begin(), r.end()); return r; }
template <class M> std::vector<std::string> asbasis(const std::vector<M>& G, const cv::Ord& o) { EQ e; e.o = o; std::vector<std::string> r; for (auto& g : G) { auto s = e.srt(rat(g)); e.monic(s); r.push_back(e.back(s).str()); } std::sort(r.begin(), r.end()); return r; }
template <class X> struct Sys { std::vector<typename X::M> g; std::string kind; };
template <class X> Sys<X> system(Rng& R, const X& c, unsigned nv) {
    typedef typename X::M M; Sys<X> s; unsigned n = 1 + R.below(R.chance(1, 4) ? 4 : std::max(2u, nv)); int cls = R.chance(1, 5) ? 1 + (int)R.below(2) : 0; auto rp = [&](unsigned d, unsigned t) { M m; for (int i = 0; i < 9 && m.zero(); ++i) m = rpoly(R, c, nv, d, t, cls); return m; }; auto mono = [&](unsigned d) { M m; m.add_term(gen::exp_upto(R, nv, d), c.k(1)); return m; };
    switch (R.below(10)) {
    case 0: s.kind = "binomials"; n = 2 + R.below(4); for (unsigned i = 0; i < n; ++i) s.g.push_back(mono(5) - mono(5)); break;
    case 1: s.kind = "monomials"; n = 1 + R.below(6); for (unsigned i = 0; i < n; ++i) s.g.push_back(mono(5) * rcoef(R, c, cls)); break;
    case 2: s.kind = "linear"; n = 1 + R.below(5); for (unsigned i = 0; i < n; ++i) s.g.push_back(rp(1, 4)); break;
    case 3: { s.kind = "common factor"; M h = rp(1, 2); for (unsigned i = 0; i < 2; ++i) s.g.push_back(h * rp(2, 2)); break; }
    case 4: { s.kind = "points"; for (unsigned v = 0; v < nv; ++v) { M m(c.k(1)); unsigned k = 1 + R.below(2); for (unsigned j = 0; j < k; ++j) m = m * (M::var1(v, c.k(1)) - M(c.k((long)R.range(-2, 2)))); s.g.push_back(m); } if (R.chance(2, 3)) s.g.push_back(rp(2, 3)); break; }
    case 5: { s.kind = "symmetric"; if (nv < 2) { s.g.push_back(rp(4, 4)); break; } unsigned k = std::min(nv, 3u); for (unsigned d = 1; d <= k; ++d) { M m; for (unsigned i = 0; i < k; ++i) { M t(c.k(1)); for (unsigned j = 0; j < d; ++j) t = t * M::var1((i + j) % k, c.k(1)); m = m + t; } if (d == k) m = M(c.k(1)), m = [&] { M t(c.k(1)); for (unsigned j = 0; j < k; ++j) t = t * M::var1(j, c.k(1)); return t - M(c.k((long)R.range(0, 1))); }(); s.g.push_back(m); } break; }
    case 6: { s.kind = "parametric"; for (unsigned v = 1; v < nv; ++v) s.g.push_back(M::var1(v, c.k(1)) - [&] { M m; m.add_term(Exp{(uint32_t)(1 + R.below(4))}, c.k(1)); return m; }() - M(c.k((long)R.range(-1, 1)))); if (s.g.empty()) s.g.push_back(rp(3, 3)); break; }
    case 7: s.kind = "homogeneous"; for (unsigned i = 0, k = 2 + R.below(2), D = 2 + R.below(2); i < k; ++i) { M m; for (unsigned t = 0; t < 3; ++t) { Exp e(nv, 0); for (unsigned d = 0; d < D; ++d) e[R.below(nv)]++; m.add_term(e, rcoef(R, c, cls)); } s.g.push_back(m); } break;
    default: s.kind = "random"; for (unsigned i = 0; i < n; ++i) s.g.push_back(rp(1 + R.below(n > 2 ? 3 : 4), 1 + R.below(4)));
    }
    if (R.chance(1, 6)) s.g.push_back(M()); if (R.chance(1, 6) && !s.g.empty()) s.g.push_back(s.g[R.below(s.g.size())] * rcoef(R, c, 0)); if (R.chance(1, 6) && s.g.size() > 1) s.g.push_back(s.g[0] + s.g[1]); if (R.chance(1, 40)) s.g.push_back(M(rcoef(R, c, 0))); if (R.chance(1, 60)) s.g.clear(); if (R.chance(1, 40)) s.g.assign(1 + R.below(2), M()); R.shuffle(s.g); return s;
}
template <class X> std::string show(const X& c, const Sys<X>& s) { std::string d = s.kind + " [" + c.name + "] "; for (auto& g : s.g) d += g.str() + " ; "; return d; }
template <class X> void monic_form(const X& c, const typename X::M& m, const cv::Ord& o, const char* w) { Exp le; bool first = true; for (auto& t : m.t) if (first || o.cmp(t.first, le) > 0) { le = t.first; first = false; } auto lc = m.t.at(le); if constexpr (std::is_same_v<typename X::K, mpq_class>) { VREQ(lc == 1, "monic", w << " is not monic: " << m); } else { VREQ(sgn(lc) > 0, "sign", w << " has negative leading coefficient: " << m); VREQ(mdl::content(m) == 1, "primitive", w << " is not primitive: " << m); } }
template <class X> struct Done { std::vector<typename X::Poly> lib; std::vector<typename X::M> g; bool ok = false; };
// the reference first: systems beyond its budget are not given to the library
template <class X> bool small_enough(const Sys<X>& s, const cv::Ord& o, long budget, std::vector<std::string>& ref) { try { ref = refbasis(s.g, o, budget); return true; } catch (vh::Inconclusive&) { vh::event("systems skipped as too large for the reference"); return false; } }
template <class X> std::vector<typename X::M> take(const X& c, const std::vector<typename X::Poly>& G) { std::vector<typename X::M> r; for (auto& g : G) { auto why = cv::canon(g, c.ord); VREQ(why.empty(), "canonical", why << " in basis element " << g); VREQ(!g.empty(), "zero-element", "basis contains zero"); r.push_back(cv::from(g)); } return r; }
template <class X> std::vector<std::string> strs(const std::vector<typename X::M>& g) { std::vector<std::string> r; for (auto& x : g) r.push_back(x.str()); std::sort(r.begin(), r.end()); return r; }
template <class X> void same_ideal(const X& c, const Sys<X>& s, const std::vector<typename X::M>& G, const std::vector<std::string>& ref, long budget) { auto got = asbasis(G, c.ord); vh::event("checks"); if (got == ref) return; std::string a, b; for (auto& x : strs<X>(G)) a += x + " ; "; for (auto& x : ref) b += x + " ; "; vh::fail("basis", "basis is { " + vh::clip(a, 1500) + " }, the reduced basis of the ideal is { " + vh::clip(b, 1500) + " }"); }
template <class Tc, class C> void basis_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = R.chance(1, 9) ? 1 : 2 + R.below(3); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); auto s = system(R, c, nv); long budget = 100000; vh::desc(show(c, s)); std::vector<std::string> ref; if (!small_enough(s, c.ord, budget, ref)) return;
    std::vector<typename X::Poly> F; for (auto& g : s.g) F.push_back(c.mk(g)); const auto F0 = F; auto lib = clpoly::groebner_basis(F); VREQ(F == F0, "operand-changed", "generators changed"); auto G = take(c, lib); for (auto& g : G) monic_form(c, g, c.ord, "basis element"); same_ideal(c, s, G, ref, budget); auto base = strs<X>(G);
    // permuted, rescaled, repeated generators and zeros: the same set
    auto s2 = s; for (auto& g : s2.g) if (R.chance(1, 2)) g = g * rcoef(R, c, 0); R.shuffle(s2.g); if (R.chance(1, 2)) s2.g.push_back(M()); if (R.chance(1, 2) && !s.g.empty()) s2.g.push_back(s.g[R.below(s.g.size())]); std::vector<typename X::Poly> F2; for (auto& g : s2.g) F2.push_back(c.mk(g)); auto G2 = take(c, clpoly::groebner_basis(F2)); VREQ(strs<X>(G2) == base, "depends-on-presentation", "rescaled/permuted/repeated generators give another basis"); if (R.chance(1, 3)) { auto G3 = take(c, clpoly::groebner_basis(lib)); VREQ(strs<X>(G3) == base, "not-idempotent", "the basis of the basis differs"); }
    vh::event("kind " + s.kind); vh::event_max("basis size", G.size()); if (G.size() == 1 && G[0].is_const()) vh::event("unit ideals"); if (G.size() > 1) { vh::event("bases with several elements"); std::string h; for (auto& x : base) h += x; vh::nontrivial(vh::hash_str(h) + vh::hash_str(c.name)); } vh::sample(vh::clip(show(c, s), 300));
}
// P20
template <class Tc, class C> void check_nf(const cv::Ord& o, const mdl::Q& r, const mdl::Q& want, const char* w) { (void)o; if constexpr (std::is_same_v<Tc, QQ>) { VREQ(r == want, "normal-form", w << " is " << r << ", should be " << want); } else { VREQ(r.zero() == want.zero(), "normal-form-zero", w << " is " << r << ", over the rationals it is " << want); if (!r.zero()) { mpq_class k = r.t.begin()->second / want.t.begin()->second; VREQ(r.t.begin()->first == want.t.begin()->first && want * k == r, "normal-form", w << " is " << r << ", no multiple of " << want); VREQ(sgn(k) > 0, "normal-form-sign", w << " is " << r << ", a negative multiple of " << want); } } }
template <class X> typename X::M combination(Rng& R, const X& c, unsigned nv, const std::vector<typename X::M>& g) { typename X::M m; if (g.empty()) return m; unsigned n = 1 + R.below(3); for (unsigned i = 0; i < n; ++i) m = m + g[R.below(g.size())] * rpoly(R, c, nv, R.below(4), 1 + R.below(3), R.below(2)); return m; }
template <class Tc, class C> void ideal_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = R.chance(1, 9) ? 1 : 2 + R.below(3); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); auto s = system(R, c, nv); long budget = 60000; std::string d0 = show(c, s); vh::desc(d0); std::vector<std::string> ref; if (!small_enough(s, c.ord, budget, ref)) return;
    std::vector<typename X::Poly> F; for (auto& g : s.g) F.push_back(c.mk(g)); clpoly::Ideal<Tc, C> I(F); if (R.chance(1, 2)) { auto G = take(c, I.groebner_basis()); same_ideal(c, s, G, ref, budget); } clpoly::Ideal<Tc, C> J(I); if (R.chance(1, 4)) { clpoly::Ideal<Tc, C> T(std::vector<typename X::Poly>{}); T = I; J = T; }
    auto G = take(c, I.groebner_basis()); same_ideal(c, s, G, ref, budget); EQ e; e.o = c.ord; Budget bb{4000000}; e.b = &bb; std::vector<EQ::S> gs; for (auto& g : G) gs.push_back(e.srt(rat(g)));
    for (int q = 0; q < 4; ++q) { bool in = R.chance(1, 2); M f = in ? combination(R, c, nv, s.g) : rpoly(R, c, nv, 1 + R.below(4), 1 + R.below(5), R.below(3)); if (!in && R.chance(1, 3)) f = f + combination(R, c, nv, s.g); if (R.chance(1, 12)) f = M(rcoef(R, c, 0)), in = false; if (R.chance(1, 20)) f = M(); vh::desc(d0 + " query f=" + f.str()); auto A = c.mk(f); const auto A0 = A; mdl::Q want = e.back(e.nf(e.srt(rat(f)), gs)); const auto& who = R.chance(1, 2) ? I : J; bool yes = who.contains(A); VREQ(yes == want.zero(), "membership", "contains() answers " << yes << ", normal form over the rationals is " << want); if (in) VREQ(yes, "membership-combination", "a combination of the generators is denied"); auto r = who.reduce(A); VREQ(A == A0, "operand-changed", "query changed"); auto why = cv::canon(r, c.ord); VREQ(why.empty(), "canonical", why << " in " << r); check_nf<Tc, C>(c.ord, rat(cv::from(r)), want, "reduce(f)"); M f2 = f + combination(R, c, nv, s.g); auto r2 = who.reduce(c.mk(f2)); if constexpr (std::is_same_v<Tc, QQ>) VREQ(r2 == r, "congruent", "congruent polynomials reduce to " << r << " and " << r2); else check_nf<Tc, C>(c.ord, rat(cv::from(r2)), want, "reduce(f+ideal)"); auto r3 = clpoly::normal_form(A, who.groebner_basis()); VREQ(r3 == r, "normal-form-vs-reduce", "normal_form gives " << r3 << ", reduce gives " << r); auto r4 = who.reduce(r); VREQ((std::is_same_v<Tc, QQ> ? r4 == r : r4.data().size() == r.data().size()), "idempotent", "reducing twice differs"); vh::event(yes ? "members" : "non-members"); if (!f.zero() && f.t.size() > 1) vh::nontrivial(mdl::hash(f) * 31 + vh::hash_str(d0)); }
    VREQ(I.generators() == F && J.generators() == F, "generators", "stored generators changed"); vh::event("kind " + s.kind);
}
// normal forms with respect to arbitrary lists, and S-polynomials
template <class Tc, class C> void division_case(Rng& R) {
    typedef Ctx<Tc, C> X; typedef typename X::M M; unsigned nv = 1 + R.below(4); cv::vars(6); X c; MkCtx<Tc, C>::go(c, R, nv); std::vector<M> g; unsigned n = R.below(4); for (unsigned i = 0; i < n; ++i) { M m = rpoly(R, c, nv, 1 + R.below(3), 1 + R.below(3), R.below(3)); if (!m.zero()) g.push_back(m); } M f = rpoly(R, c, nv, 1 + R.below(6), 1 + R.below(6), R.below(3)); if (R.chance(1, 2)) f = f + combination(R, c, nv, g); std::string d = "division [" + c.name + "] f=" + f.str() + " by "; for (auto& x : g) d += x.str() + " ; "; vh::desc(d); EQ e; e.o = c.ord; Budget bb{200000}; e.b = &bb; std::vector<EQ::S> gs; for (auto& x : g) gs.push_back(e.srt(rat(x))); mdl::Q want; EF ef; ef.o = c.ord; Budget b2{60000}; ef.b = &b2; std::vector<EF::S> gf; for (auto& x : g) gf.push_back(ef.srt(modp(x, P1))); ef.nf(ef.srt(modp(f, P1)), gf); want = e.back(e.nf(e.srt(rat(f)), gs));
    std::vector<typename X::Poly> L; for (auto& x : g) L.push_back(c.mk(x)); const auto L0 = L; auto A = c.mk(f); const auto A0 = A; auto r = clpoly::normal_form(A, L); VREQ(A == A0 && L == L0, "operand-changed", "argument changed"); auto why = cv::canon(r, c.ord); VREQ(why.empty(), "canonical", why << " in " << r); mdl::Q rq = rat(cv::from(r));
    for (auto& t : rq.t) for (auto& x : gs) VREQ(!mdl::edivides(x.begin()->first, t.first), "reducible", "remainder " << rq << " has a reducible term");
    bool single = g.size() <= 1; if (single) check_nf<Tc, C>(c.ord, rq, want, "remainder"); // with several divisors the remainder depends on the choices, f - r must lie in the ideal
    else if (std::is_same_v<Tc, QQ>) { EF m; m.o = c.ord; Budget b3{60000}; m.b = &b3; std::vector<mdl::F> gm; for (auto& x : g) gm.push_back(modp(x, P1)); auto B = m.basis(gm); auto rest = m.nf(m.srt(modp(mdl::Q(rat(f) - rq), P1)), B); VREQ(rest.empty(), "not-congruent", "f minus the remainder " << rq << " is not in the ideal"); }
    vh::event("divisions"); if (g.size() > 0 && f.t.size() > 1) vh::nontrivial(vh::hash_str(d));
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) { auto S = clpoly::s_polynomial(L[i], L[j]); auto why2 = cv::canon(S, c.ord); VREQ(why2.empty(), "canonical:s-polynomial", why2 << " in " << S); mdl::Q w = e.back(e.spol(gs[i], gs[j])); check_nf<Tc, C>(c.ord, rat(cv::from(S)), w, "S-polynomial"); vh::event("S-polynomials"); }
}
}
#endif
