// P04 scenarios, instantiated per coefficient ring.
#ifndef RINGOPS_HH
#define RINGOPS_HH
#include "ring.hh"
namespace ring {
template <class M> uint64_t mhash(const M& a) { return vh::hash_str(a.str()); }
template <class X> void describe(const X& c, const typename X::M& a, const typename X::M& b) { vh::desc(c.name + (c.p ? " p=" + std::to_string(c.p) : "") + " A=" + vh::clip(a.str(), 1500) + " B=" + vh::clip(b.str(), 1500)); }
template <class X> void all_ops(const X& c, Rng& R, const typename X::M& a, const typename X::M& b) {
    auto A = c.mk(a), B = c.mk(b); const auto A0 = A, B0 = B;
    auto prod = a * b;
    c.same(A + B, a + b, "+"); c.same(A - B, a - b, "-"); c.same(A * B, prod, "*"); c.same(B * A, prod, "*"); c.same(-A, -a, "neg"); c.same(B - A, b - a, "-");
    c.same(A + A, a + a, "A+A"); c.same(A - A, typename X::M(), "A-A");
    auto k = R.chance(1, 6) ? typename X::K(c.k(0)) : rcoef(R, c, (int)R.below(4));
    c.same(A * c.c(k), a * k, "*scalar");
    VREQ(A == A0 && B == B0, "operand-changed", "an operand changed");
    VREQ((A == B) == (a == b) && (A != B) == !(a == b), "equality", "equality answer wrong");
    { auto S = A + B; auto S2 = B + A; VREQ(S == S2 && S.data().size() == S2.data().size(), "commute", "A+B and B+A differ"); }
    if (!a.zero() && !b.zero()) VREQ(std::hash<typename X::Poly>()(A * B) == std::hash<typename X::Poly>()(c.mk(prod)), "hash", "hash depends on how the product was built");
}
template <class X> void ops_case(Rng& R) {
    cv::vars(70); unsigned nv = pick_nv(R); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    typename X::M a, b; bool graded = c.ord.graded;
    switch (R.below(6)) {
        case 0: case 1: { // exponent sums around the packed limit 2^l
            if (nv < 2) nv = 2 + R.below(6);
            unsigned l = 64 / word_fields(graded, nv); uint64_t lim = l >= 31 ? 0 : (1ull << l); unsigned t = 2 + R.below(4);
            if (!lim || lim > (1u << 21)) lim = 1ull << (R.chance(1, 2) ? 10 : 20);
            int64_t tot = (int64_t)lim + R.range(-2, 2); if (tot < 0) tot = 0; uint64_t d1 = R.below(tot + 1); if (R.chance(1, 2)) d1 = tot / 2;
            a = bpoly(R, c, nv, d1, std::max(t, R.chance(1, 2) ? nv : 0u), graded); b = bpoly(R, c, nv, tot - d1, t, graded); break; }
        case 2: a = rpoly(R, c, nv, 2 + R.below(8), R.below(12), (int)R.below(4), true); b = rpoly(R, c, nv, 2 + R.below(8), R.below(12), (int)R.below(4), true); break;
        case 3: { a = rpoly(R, c, nv, 1 + R.below(6), 1 + R.below(10), (int)R.below(4)); b = -a; for (unsigned i = R.below(4); i--;) b.add_term(gen::exp_upto(R, nv, 6), rcoef(R, c, 0)); break; } // heavy cancellation
        case 4: { auto g = rpoly(R, c, nv, 3, 4, 0), h = rpoly(R, c, nv, 3, 4, 0); a = g + h; b = g - h; break; } // cross terms cancel in the product
        default: a = rpoly(R, c, nv, 1 + R.below(30), R.below(25), (int)R.below(4)); b = rpoly(R, c, nv, 1 + R.below(30), R.below(25), (int)R.below(4));
    }
    if (R.chance(1, 25)) a = typename X::M(); if (R.chance(1, 25)) b = typename X::M(c.k(1)); if (R.chance(1, 25)) b = typename X::M(rcoef(R, c, 1));
    describe(c, a, b);
    all_ops(c, R, a, b);
    vh::event_max("variables", nv); vh::event_max("terms of a product", (a * b).t.size());
    if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mhash(a) * 31 + mhash(b) + vh::hash_str(c.name));
    if (nv > 5) vh::sample(c.name + " nv=" + std::to_string(nv) + " A=" + a.str());
}
// dense enough products: heap chains with many equal monomials
template <class X> void dense_case(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(3); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    auto a = rpoly(R, c, nv, 6, 60, 1, true), b = rpoly(R, c, nv, 6, 40, 1, true); describe(c, a, b);
    all_ops(c, R, a, b); vh::event_max("terms of a product", (a * b).t.size()); vh::nontrivial(mhash(a) * 31 + mhash(b) + vh::hash_str(c.name));
}
// operands of hundreds of terms each: long heaps and chains, checked by an independent accumulation over packed exponents
template <class X> void big_case(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(3); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    static const unsigned sides[] = {257, 300, 301, 384, 512, 600}; auto pick = [&]() -> size_t { return R.chance(1, 3) ? sides[R.below(6)] + R.below(3) : 200 + R.below(500); };
    unsigned cap = nv == 1 ? 1000 + R.below(3000) : nv == 2 ? 30 + R.below(40) : 10 + R.below(10); int cls = R.chance(1, 4) ? 1 : 0;
    auto a = spread(R, c, nv, cap, pick(), cls), b = spread(R, c, nv, cap, R.chance(1, 4) ? 1 + R.below(60) : pick(), cls); if (R.chance(1, 2)) std::swap(a, b); describe(c, a, b); auto m = packed_mul(c, a, b, nv, cap);
    if (nv > 1 && R.chance(1, 2)) { uint32_t k = nv == 2 ? 1u << 24 : 1u << 21; a = stretch(a, k); b = stretch(b, k); m = stretch(m, k); describe(c, a, b); vh::event(nv == 2 && !c.ord.graded ? "large products with long exponents" : "large products that cannot use packed exponents"); }
    auto A = c.mk(a), B = c.mk(b); const auto A0 = A, B0 = B; c.same(A * B, m, "*big"); if (R.chance(1, 3)) { c.same(B * A, m, "*big"); c.same(A + B, a + b, "+big"); c.same(A - B, a - b, "-big"); } VREQ(A == A0 && B == B0, "operand-changed", "an operand changed");
    vh::event_max("terms of a factor", std::min(a.t.size(), b.t.size())); vh::event_max("terms of a product", m.t.size()); if (a.t.size() > 200 && b.t.size() > 200) vh::event("products of two operands above 200 terms"); vh::nontrivial(mhash(a) * 31 + mhash(b) + vh::hash_str(c.name));
}
template <class X> void pow_case(Rng& R) {
    cv::vars(70); unsigned nv = R.chance(1, 6) ? pick_nv(R) : 1 + R.below(4); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    auto a = rpoly(R, c, nv, 1 + R.below(5), 1 + R.below(4), (int)R.below(3)); if (R.chance(1, 12)) a = typename X::M(rcoef(R, c, 1));
    int64_t e = R.below(9); if (a.zero() && c.p) e += 1; /* 0^0 over Z/p: no modulus is known */ vh::desc(c.name + " p=" + std::to_string(c.p) + " A=" + a.str() + " e=" + std::to_string(e));
    if (R.chance(1, 15) && e > 0) a = typename X::M();
    auto A = c.mk(a); const auto A0 = A; auto P = clpoly::pow(A, e); typename X::M m(c.k(1)); for (int64_t i = 0; i < e; ++i) m = m * a;
    c.same(P, m, "pow");
    VREQ(A == A0, "operand-changed", "pow changed its operand");
    if (a.t.size() > 1 && e > 1) vh::nontrivial(mhash(a) * 31 + e + vh::hash_str(c.name));
}
// construction from arbitrary term lists: unsorted, repeated, cancelling and zero terms
template <class X> void construct_case(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(4); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    typedef clpoly::basic_monomial<typename X::comp_t> Mono; std::vector<std::pair<Mono, typename X::coeff>> v; typename X::M m; std::string d; unsigned n = R.below(9);
    std::vector<std::pair<Exp, typename X::K>> seen;
    for (unsigned i = 0; i < n; ++i) {
        Exp e; typename X::K k;
        if (!seen.empty() && R.chance(1, 2)) { auto& s = seen[R.below(seen.size())]; e = s.first; k = R.chance(1, 2) ? typename X::K(-s.second) : rcoef(R, c, 0); } else { e = gen::exp_upto(R, nv, 3); k = R.chance(1, 8) ? c.k(0) : rcoef(R, c, 0); }
        seen.push_back({e, k}); m.add_term(e, k);
        std::vector<std::pair<variable, int64_t>> f; for (size_t j = 0; j < e.size(); ++j) if (e[j]) { f.push_back({cv::V()[j], (int64_t)e[j]}); }
        Mono mm(c.comp); std::sort(f.begin(), f.end(), [&](auto& x, auto& y) { return (*c.comp)(x.first, y.first); }); for (auto& x : f) mm.push_back(x);
        v.push_back({mm, c.c(k)}); { typename X::M t; t.add_term(e, k); d += "[" + t.str() + "]"; }
    }
    vh::desc(c.name + " terms " + d);
    { typename X::Poly P(c.comp); P.data() = v; P.normalization(); c.same(P, m, "normalization"); }
    if (c.comp == &X::comp_t::init) { typename X::Poly P(v); c.same(P, m, "construct from term list"); }
    if (seen.size() > 1) vh::nontrivial(vh::hash_str(d));
}
// histories: a register program with copies, moves, swaps, aliasing; mirrored in the model
template <class X> void history_case(Rng& R) {
    cv::vars(70); unsigned nv = R.chance(1, 5) ? 6 + R.below(14) : 1 + R.below(4); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv);
    const int N = 4; std::vector<typename X::Poly> x; std::vector<typename X::M> m(N); std::string tr = c.name + " p=" + std::to_string(c.p);
    for (int i = 0; i < N; ++i) { m[i] = rpoly(R, c, nv, 4, R.below(5), (int)R.below(3)); x.push_back(c.mk(m[i])); tr += " R" + std::to_string(i) + "=" + m[i].str(); }
    vh::desc(tr); uint64_t h = vh::hash_str(tr); unsigned steps = 6 + R.below(14);
    for (unsigned s = 0; s < steps; ++s) {
        int i = R.below(N), j = R.below(N), k = R.below(N), op = R.below(12); h = h * 1000003 + op * 64 + i * 16 + j * 4 + k; vh::desc_add(VMSG(" ; op" << op << " " << i << "," << j << "," << k));
        if (m[i].t.size() > 150) { m[i] = typename X::M(c.k(2)); x[i] = c.mk(m[i]); }
        switch (op) {
            case 0: x[i] = x[j] + x[k]; m[i] = m[j] + m[k]; break;
            case 1: x[i] = x[j] - x[k]; m[i] = m[j] - m[k]; break;
            case 2: case 3: if (m[j].t.size() * m[k].t.size() < 1500 && m[j].tdeg() + m[k].tdeg() < 400) { x[i] = x[j] * x[k]; m[i] = m[j] * m[k]; } break;
            case 4: x[i] = -x[j]; m[i] = -m[j]; break;
            case 5: x[i] = x[j]; m[i] = m[j]; break;
            case 6: if (i != j) { auto t = std::move(x[i]); x[i] = std::move(x[j]); x[j] = std::move(t); std::swap(m[i], m[j]); } break;
            case 7: x[i].swap(x[j]); std::swap(m[i], m[j]); break;
            case 8: { auto kq = rcoef(R, c, 1); x[i] = x[j] * c.c(kq); m[i] = m[j] * kq; break; }
            case 9: if (m[j].t.size() < 20 && m[j].tdeg() < 60) { x[i] = clpoly::pow(x[j], (int64_t)2); m[i] = m[j] * m[j]; } break;
            case 10: clpoly::pair_vec_add(x[i].data(), x[i].data(), x[k].data(), *c.comp); m[i] = m[i] + m[k]; break;
            default: if (m[i].t.size() * m[k].t.size() < 1500 && m[i].tdeg() + m[k].tdeg() < 400) { clpoly::pair_vec_multiplies(x[i].data(), x[i].data(), x[k].data(), *c.comp); m[i] = m[i] * m[k]; }
        }
        for (int q = 0; q < N; ++q) c.same(x[q], m[q], VMSG("history op" << op));
    }
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) VREQ((x[i] == x[j]) == (m[i] == m[j]), "equality", "registers " << i << "," << j << " compare wrongly");
    vh::event("steps", steps); vh::nontrivial(h);
}
// univariate
template <class Tc> struct UCtx { typedef Tc coeff; typedef typename cv::KT<Tc>::K K; typedef mdl::P<K> M; uint64_t p = 0; K k(long v) const { if constexpr (std::is_same_v<K, mdl::Fp>) return mdl::Fp(mpz_fdiv_ui(mpz_class(v).get_mpz_t(), p), p); else return K(v); } Tc c(const K& x) const { return cv::KT<Tc>::out(x, p); }
    clpoly::upolynomial_<Tc> mk(const M& m) const { return cv::tou<Tc>(m, p); }
    void same(const clpoly::upolynomial_<Tc>& r, const M& e, const std::string& key) const { std::string why = cv::canon(r); if (!why.empty()) vh::fail("canonical:u" + key, key + ": " + why); vh::event("checks"); M g = cv::from(r); if (!(g == e)) vh::fail("value:u" + key, key + ": got " + vh::clip(g.str(), 1000) + " expected " + vh::clip(e.str(), 1000)); } };
template <class X> typename X::M rupoly(Rng& R, const X& c, unsigned deg, int cls, unsigned zero_in) { typename X::M r; for (unsigned i = 0; i <= deg; ++i) if (i == deg || !R.chance(1, zero_in)) { Exp e(1, i); r.add_term(e, rcoef(R, c, cls)); } return r; }
template <class Tc> void upoly_case(Rng& R) {
    cv::vars(1); UCtx<Tc> c; c.p = setp<Tc>(R); unsigned d1 = R.below(R.chance(1, 10) ? 120 : 14), d2 = R.below(R.chance(1, 10) ? 120 : 14); int cls = R.below(4);
    auto a = rupoly(R, c, d1, cls, 1 + R.below(4) + 1), b = R.chance(1, 5) ? typename UCtx<Tc>::M(-a) : rupoly(R, c, d2, cls, 1 + R.below(4) + 1); if (R.chance(1, 4)) b.add_term(Exp(1, (uint32_t)R.below(5000)), rcoef(R, c, 0));
    if (R.chance(1, 25)) a = typename UCtx<Tc>::M();
    vh::desc("p=" + std::to_string(c.p) + " A=" + vh::clip(a.str()) + " B=" + vh::clip(b.str()));
    auto A = c.mk(a), B = c.mk(b); const auto A0 = A, B0 = B;
    c.same(A + B, a + b, "+"); c.same(A - B, a - b, "-"); c.same(A * B, a * b, "*"); c.same(-A, -a, "neg"); c.same(A - A, typename UCtx<Tc>::M(), "A-A");
    auto k = rcoef(R, c, 1); c.same(A * c.c(k), a * k, "*scalar"); c.same(c.c(k) * A, a * k, "scalar*");
    if (d1 < 15 && !a.zero()) { unsigned e = R.below(6); typename UCtx<Tc>::M m(c.k(1)); for (unsigned i = 0; i < e; ++i) m = m * a; c.same(clpoly::pow(A, (int64_t)e), m, "pow"); }
    VREQ((A == B) == (a == b), "uequality", "equality"); VREQ(A == A0 && B == B0, "operand-changed", "operand changed");
    vh::nontrivial(mhash(a) * 31 + mhash(b));
}
#define RING_REG(TC, CN, C, Q, T)                                                                   \
    static vh::Reg r_ops_##CN("ops_" #CN, Q, T, [](Rng& R) { ops_case<Ctx<TC, C>>(R); });          \
    static vh::Reg r_den_##CN("dense_" #CN, (Q) / 20, (T) / 20, [](Rng& R) { dense_case<Ctx<TC, C>>(R); }); \
    static vh::Reg r_big_##CN("big_" #CN, (Q) / 100, (T) / 100, [](Rng& R) { big_case<Ctx<TC, C>>(R); }); \
    static vh::Reg r_pow_##CN("pow_" #CN, (Q) / 4, (T) / 4, [](Rng& R) { pow_case<Ctx<TC, C>>(R); }); \
    static vh::Reg r_con_##CN("construct_" #CN, (Q) / 3, (T) / 3, [](Rng& R) { construct_case<Ctx<TC, C>>(R); }); \
    static vh::Reg r_his_##CN("history_" #CN, (Q) / 5, (T) / 5, [](Rng& R) { history_case<Ctx<TC, C>>(R); });
}
#endif
