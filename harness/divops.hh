// P06 scenarios, instantiated per coefficient ring.
#ifndef DIVOPS_HH
#define DIVOPS_HH
#include "ring.hh"
namespace ring {
inline std::string pstr(uint64_t p) { return p ? " p=" + std::to_string(p) : ""; }
// leading exponent in the order of the context
template <class X> std::pair<Exp, typename X::K> lead(const X& c, const typename X::M& m) { auto best = m.t.begin(); for (auto it = m.t.begin(); it != m.t.end(); ++it) if (c.ord.cmp(it->first, best->first) > 0) best = it; return *best; }
template <class K> bool cdiv(const K& a, const K& b) { if constexpr (std::is_same_v<K, mpz_class>) return mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t()); else return true; }
template <class X> void canon_req(const X& c, const typename X::Poly& r, const std::string& key) {
    std::string why = cv::canon(r, c.ord); if (!why.empty()) vh::fail("canonical:" + key, key + " [" + c.name + "]: " + why + " in " + vh::clip(r.str(), 600));
    for (auto& t : r.data()) { if (!(t.first.comp() == *c.comp)) vh::fail("order-object:" + key, key + ": a term carries a different order"); if constexpr (std::is_same_v<typename X::coeff, Zp>) if (t.second.prime() != c.p) vh::fail("prime:" + key, key + ": coefficient modulus changed"); }
}
template <class X> void div_check(const X& c, const typename X::M& a, const typename X::M& b, const typename X::M* exact) {
    typedef typename X::M M; typename X::Poly A = c.mk(a), B = c.mk(b); const auto A0 = A, B0 = B; typename X::Poly Q(c.comp), Q1(c.comp);
    auto lb = lead(c, b);
    if constexpr (!std::is_same_v<typename X::coeff, QQ>) { // (remainder form is not offered for rationals)
        typename X::Poly R(c.comp);
        clpoly::polynomial_div(Q, R, A, B); canon_req(c, Q, "quotient"); canon_req(c, R, "remainder");
        M q = cv::from(Q), r = cv::from(R);
        VREQ(q * b + r == a, "identity", "A != Q*B+R [" << c.name << "]: Q=" << vh::clip(Q.str(), 600) << " R=" << vh::clip(R.str(), 600));
        for (auto& t : r.t) VREQ(!(mdl::edivides(lb.first, t.first) && cdiv(t.second, lb.second)), "reduced", "remainder term divisible by the divisor's leading term [" << c.name << "]: R=" << vh::clip(R.str(), 600));
        if (exact) VREQ(q == *exact && r.zero(), "exact", "exact division: Q=" << vh::clip(Q.str(), 500) << " R=" << vh::clip(R.str(), 500) << " expected Q=" << vh::clip(exact->str(), 500));
        clpoly::polynomial_div(Q1, A, B); canon_req(c, Q1, "quotient-only"); VREQ(Q1 == Q, "quotient-agree", "quotient without remainder differs [" << c.name << "]: " << vh::clip(Q1.str(), 500) << " vs " << vh::clip(Q.str(), 500));
        auto Q2 = A / B; canon_req(c, Q2, "operator/"); VREQ(Q2 == Q, "quotient-agree", "operator/ differs from polynomial_div");
        vh::event(r.zero() ? "exact divisions" : "inexact divisions");
    } else {
        clpoly::polynomial_div(Q1, A, B); canon_req(c, Q1, "quotient-only"); M q = cv::from(Q1), r = a - q * b;
        for (auto& t : r.t) VREQ(!mdl::edivides(lb.first, t.first), "reduced", "A-Q*B has a term divisible by the divisor's leading term [" << c.name << "]: Q=" << vh::clip(Q1.str(), 600));
        if (exact) VREQ(q == *exact, "exact", "exact division: Q=" << vh::clip(Q1.str(), 500) << " expected " << vh::clip(exact->str(), 500));
        auto Q2 = A / B; canon_req(c, Q2, "operator/"); VREQ(Q2 == Q1, "quotient-agree", "operator/ differs from polynomial_div");
        vh::event(r.zero() ? "exact divisions" : "inexact divisions");
    }
    VREQ(A == A0 && B == B0, "operand-changed", "division changed an operand");
}
template <class X> typename X::M nonzero(Rng& R, const X& c, unsigned nv, unsigned deg, unsigned terms, int cls, bool box = false) { for (int i = 0; i < 20; ++i) { auto r = rpoly(R, c, nv, deg, terms, cls, box); if (!r.zero()) return r; } return typename X::M(c.k(1)); }
template <class X> void div_case(Rng& R) {
    cv::vars(70); unsigned nv = pick_nv(R); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv); bool graded = c.ord.graded; typedef typename X::M M;
    M a, b, q; bool exact = false; int cls = (int)R.below(4); if (std::is_same_v<typename X::coeff, QQ> && cls == 3) cls = 1;
    switch (R.below(8)) {
        case 6: { // only the divisor is too large for packed exponents: its trailing terms exceed every exponent of the dividend
            nv = 3 + R.below(6); unsigned l = 64 / word_fields(graded, nv); uint64_t unit = 1ull << (l - (R.chance(1, 2) ? 0 : 1)); size_t top = 0; for (size_t i = 1; i < nv; ++i) { Exp x(i + 1, 0), y(top + 1, 0); x[i] = 1; y[top] = 1; if (c.ord.cmp(x, y) > 0) top = i; }
            auto M1 = [&](size_t v, uint64_t e) { Exp x(v + 1, 0); x[v] = (uint32_t)e; M m; m.add_term(x, rcoef(R, c, 0)); if (m.zero()) m.add_term(x, c.k(1)); return m; }; unsigned dt = 1 + R.below(2); b = M1(top, dt); for (unsigned i = 1 + R.below(2); i--;) { size_t v = R.below(nv); if (v == top) v = (v + 1) % nv; b = b + M1(v, unit * (1 + R.below(2)) + (R.chance(1, 2) ? R.below(4) : 0) - (R.chance(1, 4) ? 1 : 0)); }
            a = M1(top, dt + R.below(3)) + rpoly(R, c, nv, 2, R.below(4), 0); if (R.chance(1, 2)) a = a * M1(R.below(nv), 1 + R.below(3)); break; }
        case 0: case 1: b = nonzero(R, c, nv, 1 + R.below(5), 1 + R.below(6), cls); q = rpoly(R, c, nv, 1 + R.below(6), R.below(8), cls); a = b * q; exact = true; break;
        case 2: { // exponents at the packed limit of the division (2^(l-1)), exact
            unsigned l = 64 / word_fields(graded, std::max(nv, 2u)); if (nv < 2) nv = 2; uint64_t lim = l >= 31 ? 1u << 20 : l == 0 ? 1 : 1ull << (l - 1); if (lim > (1u << 20)) lim = 1u << 20; if (!lim) lim = 1; int64_t tot = (int64_t)lim + R.range(-2, 1); if (tot < 0) tot = 0; uint64_t d1 = R.below(tot + 1);
            b = bpoly(R, c, nv, d1, 2 + R.below(4), graded); q = bpoly(R, c, nv, tot - d1, 1 + R.below(4), graded); if (b.zero()) b = M(c.k(1)); a = b * q; exact = true; break; }
        case 3: { // sparse with large gaps
            auto big = [&](unsigned n) { M r; for (unsigned i = 0; i < n; ++i) { Exp e(std::min(nv, 3u), 0); for (auto& x : e) x = R.chance(1, 2) ? 0 : (uint32_t)(R.chance(1, 3) ? R.below(1u << 31) : R.below(40)); r.add_term(e, rcoef(R, c, cls)); } return r; };
            b = big(1 + R.below(2)); if (b.zero()) b = M(c.k(1)); q = big(1 + R.below(3)); for (auto& t : b.t) for (auto& x : t.first) if (x > 1u << 30) {} a = b * q; exact = true;
            for (auto& t : a.t) for (auto x : t.first) if (x >= 1u << 31) exact = exact; break; }
        case 4: { // inexact, shallow: quotient stays small
            b = nonzero(R, c, nv, 1 + R.below(4), 1 + R.below(4), cls); a = rpoly(R, c, nv, 2 + R.below(6), R.below(10), cls); break; }
        case 5: { b = nonzero(R, c, nv, 1 + R.below(4), 1 + R.below(5), cls); q = rpoly(R, c, nv, 1 + R.below(4), R.below(6), cls); a = b * q + rpoly(R, c, nv, 1 + R.below(5), R.below(4), cls); break; }
        default: { // the dividend's small terms explode under lex: x - y^k divisors
            if (nv < 2) nv = 2; M x = M::var1(0, c.k(1)), y = M::var1(1, c.k(1)); M yk; { Exp e(2, 0); e[1] = (uint32_t)(1 + R.below(nv > 5 ? 9 : 40)); yk.add_term(e, c.k(1)); }
            b = x - yk * rcoef(R, c, 0) + (R.chance(1, 2) ? M(rcoef(R, c, 0)) : M()); { Exp e(2, 0); e[0] = (uint32_t)(1 + R.below(8)); a.add_term(e, rcoef(R, c, 0)); } a = a + rpoly(R, c, nv, 3, R.below(4), 0); }
    }
    if (R.chance(1, 30)) { a = M(); q = M(); } if (R.chance(1, 30)) { b = M(rcoef(R, c, 1)); exact = false; } if (R.chance(1, 40)) { a = b; q = M(c.k(1)); exact = true; }
    vh::desc(c.name + pstr(c.p) + " A=" + vh::clip(a.str()) + " B=" + vh::clip(b.str()));
    div_check(c, a, b, exact && !a.zero() ? &q : nullptr);
    vh::event_max("variables", nv); if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b) + vh::hash_str(c.name));
}
// divisors and quotients of hundreds of terms: long heaps, both with many terms per chain and nearly disjoint ones
template <class X> void bigdiv_case(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(3); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv); typedef typename X::M M; unsigned cap = nv == 1 ? 600 + R.below(1500) : nv == 2 ? 25 + R.below(30) : 8 + R.below(8); int cls = R.chance(1, 4) && !std::is_same_v<typename X::coeff, QQ> ? 1 : 0;
    auto pick = [&]() -> size_t { switch (R.below(4)) { case 0: return 1 + R.below(30); case 1: return 250 + R.below(100); default: return 60 + R.below(200); } }; M b = spread(R, c, nv, cap, pick(), cls), q = spread(R, c, nv, cap, pick(), cls); if (b.zero()) b = M(c.k(1)); M a = packed_mul(c, b, q, nv, cap); bool exact = true; uint32_t st = nv > 1 && R.chance(1, 2) ? nv == 2 ? 1u << 24 : 1u << 21 : 1; if (st > 1) { a = stretch(a, st); b = stretch(b, st); q = stretch(q, st); if (nv > 2 || c.ord.graded) vh::event("large divisions that cannot use packed exponents"); }
    if (R.chance(1, 2)) { M r = spread(R, c, nv, R.chance(1, 2) ? 3 : cap / 4 + 1, R.below(60), cls); auto lb = lead(c, b); M keep; for (auto& t : r.t) if (!mdl::edivides(lb.first, t.first)) keep.add_term(t.first, t.second); if (!keep.zero()) { a = a + keep; if (b.t.size() * q.t.size() > 0) { vh::event("large divisions with a planted remainder"); } exact = false; vh::desc(c.name + pstr(c.p) + " A=" + vh::clip(a.str()) + " B=" + vh::clip(b.str())); 
        if constexpr (!std::is_same_v<typename X::coeff, QQ>) { typename X::Poly Q(c.comp), S(c.comp); clpoly::polynomial_div(Q, S, c.mk(a), c.mk(b)); canon_req(c, Q, "quotient"); canon_req(c, S, "remainder"); VREQ(cv::from(Q) == q && cv::from(S) == keep, "exact", "planted quotient and remainder not recovered [" << c.name << "]"); } else { typename X::Poly Q(c.comp); clpoly::polynomial_div(Q, c.mk(a), c.mk(b)); VREQ(cv::from(Q) == q, "exact", "planted quotient not recovered [" << c.name << "]"); } } }
    if (exact) { vh::desc(c.name + pstr(c.p) + " A=" + vh::clip(a.str()) + " B=" + vh::clip(b.str())); auto A = c.mk(a), B = c.mk(b); typename X::Poly Q(c.comp); clpoly::polynomial_div(Q, A, B); canon_req(c, Q, "quotient"); VREQ(cv::from(Q) == q, "exact", "large exact division: wrong quotient of " << Q.size() << " terms, expected " << q.t.size() << " [" << c.name << "]"); if constexpr (!std::is_same_v<typename X::coeff, QQ>) { typename X::Poly Q2(c.comp), S(c.comp); clpoly::polynomial_div(Q2, S, A, B); VREQ(Q2 == Q && S.empty(), "exact", "large exact division leaves a remainder [" << c.name << "]"); } vh::event("large exact divisions"); }
    vh::event_max("terms of a divisor", b.t.size()); vh::event_max("terms of a quotient", q.t.size()); vh::event_max("terms of a dividend", a.t.size()); vh::nontrivial(mdl::hash(b) * 31 + mdl::hash(q) + vh::hash_str(c.name));
}
template <class X> void zero_case(Rng& R) { // division by the zero polynomial is an exception
    cv::vars(70); unsigned nv = 1 + R.below(3); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv); auto a = rpoly(R, c, nv, 3, R.below(4), 1); vh::desc(c.name + pstr(c.p) + " A=" + a.str() + " B=0"); auto A = c.mk(a); const auto A0 = A; typename X::Poly Z(c.comp), Q(c.comp), S(c.comp); int n = 0;
    try { clpoly::polynomial_div(Q, A, Z); } catch (const std::invalid_argument&) { ++n; }
    try { auto t = A / Z; } catch (const std::invalid_argument&) { ++n; }
    if constexpr (std::is_same_v<typename X::coeff, Zp>) n += 2; else {
        try { auto t = clpoly::prem(A, Z, cv::V()[0]); } catch (const std::invalid_argument&) { ++n; }
        try { auto t = clpoly::pquo(A, Z, cv::V()[0]); } catch (const std::invalid_argument&) { ++n; } }
    VREQ(n == 4, "zero-divisor", "division by zero raised only " << n << " of 4 exceptions"); VREQ(A == A0, "operand-changed", "operand changed"); vh::nontrivial(mdl::hash(a) + vh::hash_str(c.name));
}
template <class X> void pseudo_case(Rng& R) {
    cv::vars(70); unsigned nv = R.chance(1, 8) ? 6 + R.below(12) : 1 + R.below(4); X c; MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv); typedef typename X::M M; size_t v = R.below(nv); if (std::is_same_v<typename X::coeff, Zp>) for (size_t i = 0; i < nv; ++i) { Exp e(i + 1, 0), f(nv, 0); e[i] = 1; bool top = true; for (size_t j = 0; j < nv; ++j) if (j != i) { Exp g(j + 1, 0); g[j] = 1; if (c.ord.cmp(e, g) < 0) top = false; } if (top) v = i; } int cls = (int)R.below(3);
    auto shape = [&](unsigned d, unsigned terms) { M r = rpoly(R, c, nv, 2, terms, cls); for (unsigned i = 0; i <= d; ++i) if (i == d || R.chance(1, 2)) r = r + rpoly(R, c, nv, 1 + R.below(2), 1 + R.below(3), cls).subst(v, c.k(0)).shift(v, i); return r; };
    M f = shape(R.below(4), R.below(3)), g = shape(R.below(7), R.below(4));
    if (R.chance(1, 10)) f = rpoly(R, c, nv, 2, 2, cls).subst(v, c.k((long)R.below(2))); if (R.chance(1, 15)) g = g.subst(v, c.k(0)); if (R.chance(1, 8)) g = f * g; if (R.chance(1, 20)) f = M(rcoef(R, c, 0)); if (R.chance(1, 25)) g = M(); if (f.zero()) f = M(c.k(1));
    vh::desc(c.name + pstr(c.p) + " v=" + cv::V()[v].name() + " G=" + vh::clip(g.str()) + " F=" + vh::clip(f.str()));
    auto G = c.mk(g), F = c.mk(f); const auto G0 = G, F0 = F; auto var = cv::V()[v];
    int64_t dg = g.deg(v), df = f.deg(v); M lc = f.lc(v);
    for (int isL = 0; isL < 2; ++isL) {
        typename X::Poly S(c.comp); typename X::Poly P(c.comp), Q(c.comp), Qo(c.comp);
        if constexpr (std::is_same_v<typename X::coeff, Zp>) { clpoly::prem(P, G, F, var, isL == 1); clpoly::pquo(Q, S, G, F, var, isL == 1); Qo = Q; } // the order's own main variable only
        else { P = clpoly::prem(G, F, var, isL == 1); Q = clpoly::pquo(S, G, F, var, isL == 1); Qo = clpoly::pquo(G, F, var, isL == 1); }
        canon_req(c, P, "prem"); canon_req(c, Q, "pquo"); canon_req(c, S, "pquo-rem"); M r = cv::from(S), q = cv::from(Q), p = cv::from(P);
        VREQ(Q == Qo, "pquo-agree", "pquo with and without remainder differ"); VREQ(p == r, "prem-agree", "prem " << vh::clip(P.str(), 400) << " != remainder of pquo " << vh::clip(S.str(), 400) << " is_L=" << isL);
        VREQ(r.zero() || r.deg(v) < df, "prem-degree", "degree of pseudo-remainder is " << r.deg(v) << " >= " << df);
        M rhs = q * f + r, lhs = g; bool ok = false; int64_t top = df == 0 ? dg + 1 : std::max<int64_t>(0, dg - df + 1); if (f.is_const() && df == 0) {}
        if (isL && df > 0) { for (int64_t i = 0; i < top; ++i) lhs = lhs * lc; ok = lhs == rhs; }
        else { for (int64_t i = 0; i <= top && !ok; ++i) { ok = lhs == rhs; lhs = lhs * lc; } }
        VREQ(ok, "pseudo-identity", "lc^k*G != Q*F+R is_L=" << isL << " Q=" << vh::clip(Q.str(), 500) << " R=" << vh::clip(S.str(), 500));
    }
    if constexpr (!std::is_same_v<typename X::coeff, Zp> && !std::is_same_v<typename X::comp_t, clpoly::lex> && !std::is_same_v<typename X::comp_t, clpoly::grlex>) { // the divisor may live in a differently configured order
        X c2; MkCtx<typename X::coeff, typename X::comp_t>::go(c2, R, nv); if (f.is_const()) c2.comp = c.comp, c2.name = c.name; /* operators on constants require one order */ auto F2 = c2.mk(f); auto P = clpoly::prem(G, F, var), P2 = clpoly::prem(G, F2, var); canon_req(c, P2, "prem-mixed-orders"); VREQ(P2 == P, "prem-mixed-orders", "prem depends on the divisor's order object: " << vh::clip(P2.str(), 400) << " instead of " << vh::clip(P.str(), 400) << " divisor in " << c2.name);
        typename X::Poly S(c.comp), S2(c.comp); auto Q = clpoly::pquo(S, G, F, var), Q2 = clpoly::pquo(S2, G, F2, var); canon_req(c, Q2, "pquo-mixed-orders"); canon_req(c, S2, "pquo-mixed-orders"); VREQ(Q2 == Q && S2 == S, "pquo-mixed-orders", "pquo depends on the divisor's order object " << c2.name); if (c2.name != c.name) vh::event("pseudo-divisions across two orders"); }
    VREQ(G == G0 && F == F0, "operand-changed", "pseudo-division changed an operand");
    if (df > 0 && dg >= df) { vh::nontrivial(mdl::hash(f) * 31 + mdl::hash(g) + v + vh::hash_str(c.name)); vh::event("pseudo-divisions with positive degree"); }
}
template <class Tc> void udiv_case(Rng& R) {
    cv::vars(1); typedef typename cv::KT<Tc>::K K; typedef mdl::P<K> M; Ctx<Tc, clpoly::lex> c; c.p = setp<Tc>(R); c.ord = cv::ord_lex(); int cls = (int)R.below(4); if (std::is_same_v<Tc, QQ> && cls == 3) cls = 1;
    auto ru = [&](unsigned d) { M r; unsigned z = 1 + R.below(4); for (unsigned i = 0; i <= d; ++i) if (i == d || !R.chance(1, z + 1)) r.add_term(Exp(1, i), rcoef(R, c, cls)); return r; };
    M b = ru(R.below(R.chance(1, 8) ? 60 : 9)), a, q; bool exact = R.chance(1, 2); if (exact) { q = ru(R.below(R.chance(1, 8) ? 60 : 9)); if (R.chance(1, 30)) q = M(); a = b * q; } else a = ru(R.below(R.chance(1, 8) ? 80 : 14)); if (R.chance(1, 6)) { M s; s.add_term(Exp(1, 1000 + (uint32_t)R.below(R.chance(1, 10) ? 20000 : 2500)), rcoef(R, c, 0)); if (b.t.size() < 3) { a = s + (R.chance(1, 2) ? a : M()); exact = false; if (b.deg(0) < 50) b = b * M(c.k(1)); Exp e(1, 700); if (b.deg(0) < 700) b.add_term(e, rcoef(R, c, 0)); } }
    vh::desc(pstr(c.p) + " A=" + vh::clip(a.str()) + " B=" + vh::clip(b.str()));
    auto A = cv::tou<Tc>(a, c.p), B = cv::tou<Tc>(b, c.p); const auto A0 = A, B0 = B; clpoly::upolynomial_<Tc> Q, Q1; auto cn = [&](const clpoly::upolynomial_<Tc>& x, const char* k) { std::string w = cv::canon(x); if (!w.empty()) vh::fail(std::string("canonical:u") + k, std::string(k) + ": " + w); };
    clpoly::polynomial_div(Q1, A, B); cn(Q1, "quotient"); M q1 = cv::from(Q1); M r = a - q1 * b;
    if constexpr (!std::is_same_v<Tc, QQ>) { clpoly::upolynomial_<Tc> S; clpoly::polynomial_div(Q, S, A, B); cn(Q, "quotient"); cn(S, "remainder"); VREQ(Q == Q1, "uquotient-agree", "quotients differ"); VREQ(cv::from(S) == r, "uidentity", "A != QB+R: Q=" << vh::clip(Q.str(), 500) << " R=" << vh::clip(S.str(), 500)); }
    if constexpr (!std::is_same_v<Tc, ZZ>) VREQ(r.zero() || r.deg(0) < b.deg(0), "udegree", "remainder degree " << r.deg(0)); else { for (auto& t : r.t) VREQ(!(mdl::eget(t.first, 0) >= b.deg(0) && cdiv<K>(t.second, b.lc(0).constant())), "ureduced", "reducible remainder term"); }
    if (exact && !a.zero()) VREQ(q1 == q, "uexact", "exact quotient " << vh::clip(Q1.str(), 500) << " expected " << vh::clip(q.str(), 500));
    { auto Q2 = A / B; VREQ(Q2 == Q1, "uquotient-agree", "operator/ differs"); } VREQ(A == A0 && B == B0, "operand-changed", "operand changed");
    if constexpr (std::is_same_v<Tc, ZZ>) if (a.deg(0) < 40 && b.deg(0) < 20) { clpoly::upolynomial_<ZZ> S; clpoly::upoly_prem(S, A, B, cv::V()[0]); cn(S, "upoly_prem"); M s = cv::from(S), lhs = a, lc = b.lc(0), qq; for (int64_t i = 0; i < std::max<int64_t>(0, a.deg(0) - b.deg(0) + 1); ++i) lhs = lhs * lc; VREQ((b.deg(0) == 0 && s.zero()) || (b.deg(0) > 0 && (s.zero() || s.deg(0) < b.deg(0)) && mdl::divexact(lhs - s, b, qq)), "upoly_prem", "upoly_prem wrong: " << vh::clip(S.str(), 500)); }
    if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b));
}
#define DIV_REG(TC, CN, C, Q, T)                                                                   \
    static vh::Reg r_div_##CN("div_" #CN, Q, T, [](Rng& R) { div_case<Ctx<TC, C>>(R); });          \
    static vh::Reg r_bigd_##CN("big_" #CN, (Q) / 80, (T) / 80, [](Rng& R) { bigdiv_case<Ctx<TC, C>>(R); }); \
    static vh::Reg r_zer_##CN("zero_" #CN, 40, 400, [](Rng& R) { zero_case<Ctx<TC, C>>(R); });     \
    static vh::Reg r_pse_##CN("pseudo_" #CN, (Q) / 2, (T) / 2, [](Rng& R) { if constexpr (!(std::is_same_v<TC, Zp> && std::is_same_v<C, clpoly::grlex>)) pseudo_case<Ctx<TC, C>>(R); });
}
#endif
