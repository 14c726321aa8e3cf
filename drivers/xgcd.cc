#include "gcdops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
// ---- prime field: s*F + t*G = g, g monic gcd, classical degree bounds ----
static mdl::F fp(Rng& R, uint64_t p, unsigned d) { mdl::F r; for (unsigned i = 0; i <= d; ++i) { uint64_t k = R.chance(1, 4) ? 0 : R.chance(1, 3) ? p - 1 : R.next() % p; if (i == d && !k) k = 1; r.add_term(Exp(1, i), mdl::Fp(k, p)); } return r; }
SCENARIO(prime_field, 6000, 400000) {
    uint64_t p = gen::prime(R); unsigned m = R.chance(1, 12) ? 40 : 7; auto g = fp(R, p, R.below(m)), x = fp(R, p, R.below(m)), y = fp(R, p, R.below(m)); mdl::F a, b; switch (R.below(8)) { case 0: a = x; b = y; break; case 1: a = g; b = g * x; break; case 2: a = g * x; b = g; break; case 3: a = g; b = R.chance(1, 2) ? g : -g; break; case 4: a = mdl::F(mdl::Fp(1 + R.next() % (p - 1), p)); b = R.chance(1, 2) ? x : mdl::F(mdl::Fp(1 + R.next() % (p - 1), p)); break; case 5: { a = x * x * g; b = a.diff(0); if (b.zero()) b = g; break; } default: a = g * x; b = g * y; } if (R.chance(1, 2)) std::swap(a, b);
    vh::desc("p=" + std::to_string(p) + " F=" + a.str() + " G=" + b.str()); auto A = cv::tou<Zp>(a, p), B = cv::tou<Zp>(b, p); const auto A0 = A, B0 = B; clpoly::upolynomial_<Zp> S, T; if (R.chance(1, 3)) { S = A; T = B; }
    auto G = R.chance(1, 2) ? clpoly::polynomial_GCD(A, B, S, T) : clpoly::gcd(A, B, S, T); for (auto* q : {&G, &S, &T}) { auto why = cv::canon(*q); VREQ(why.empty(), "canonical", why); for (auto& t : q->data()) VREQ(t.second.prime() == p, "prime", "modulus changed"); }
    auto gg = cv::from(G), s = cv::from(S), t = cv::from(T); VREQ(s * a + t * b == gg, "identity", "s*F+t*G is not g: g=" << gg << " s=" << s << " t=" << t); VREQ(gg == fl::gcd(a, b, p), "wrong-gcd", "got " << gg << " expected " << fl::gcd(a, b, p));
    int64_t dg = gg.deg(0), da = a.deg(0), db = b.deg(0); if (da > 0 && db > 0) { VREQ(s.zero() || s.deg(0) <= std::max<int64_t>(db - dg - 1, 0), "degree-bound", "deg s = " << s.deg(0) << " deg G=" << db << " deg g=" << dg); VREQ(t.zero() || t.deg(0) <= std::max<int64_t>(da - dg - 1, 0), "degree-bound", "deg t = " << t.deg(0)); } VREQ(A == A0 && B == B0, "operand-changed", "an argument changed");
    if (da > 0 && db > 0) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b) + p); vh::sample("p=" + std::to_string(p) + " " + vh::clip(a.str(), 150) + " , " + vh::clip(b.str(), 150)); if (dg > 0) vh::event("gcd of positive degree");
}
// the result g is a greatest common divisor over Q(other variables)[x]: same degree in x and divides both up to a factor free of x
static bool similar(const Z& g, const Z& w, size_t v) { // g * c = w * d with c,d free of v
    if (g.zero() || w.zero()) return g.zero() && w.zero(); return g.deg(v) == w.deg(v) && g * w.lc(v) == w * g.lc(v);
}
SCENARIO(integers, 3000, 200000) {
    int cls = R.below(4); unsigned m = 1 + R.below(5); Z g = gen::upoly(R, R.below(m), cls), x = gen::upoly(R, R.below(m), cls), y = gen::upoly(R, R.below(m), R.below(4)), a, b; switch (R.below(8)) { case 0: a = x; b = y; break; case 1: a = g; b = g * x; break; case 2: a = g * x; b = g; break; case 3: a = g * gen::coef(R, 1); b = g * gen::coef(R, 1); break; case 4: a = Z(gen::coef(R, cls)); b = R.chance(1, 2) ? x : Z(gen::coef(R, cls)); break; case 5: a = x * x * g; b = a.diff(0); if (b.zero()) b = g; break; default: a = g * x; b = g * y; } if (R.chance(1, 2)) std::swap(a, b);
    vh::desc("F=" + a.str() + " G=" + b.str()); auto A = cv::tou<ZZ>(a), B = cv::tou<ZZ>(b); const auto A0 = A, B0 = B; clpoly::upolynomial_<ZZ> S, T; if (R.chance(1, 3)) { S = A; T = B; } auto G = clpoly::polynomial_GCD(A, B, S, T); for (auto* q : {&G, &S, &T}) { auto why = cv::canon(*q); VREQ(why.empty(), "canonical", why); }
    auto gg = cv::from(G), s = cv::from(S), t = cv::from(T); VREQ(s * a + t * b == gg, "identity", "s*F+t*G is not g: g=" << gg << " s=" << s << " t=" << t); VREQ(!gg.zero() && gg.t.rbegin()->second > 0, "sign", "leading coefficient not positive: " << gg); VREQ(similar(gg, fl::gcd(a, b), 0), "wrong-gcd", "got " << gg << " which is not a gcd over Q; gcd " << fl::gcd(a, b)); VREQ(A == A0 && B == B0, "operand-changed", "an argument changed");
    int64_t dg = gg.deg(0), da = a.deg(0), db = b.deg(0); if (da > 0 && db > 0) { VREQ(s.zero() || s.deg(0) <= std::max<int64_t>(db - dg - 1, 0), "degree-bound", "deg s = " << s.deg(0)); VREQ(t.zero() || t.deg(0) <= std::max<int64_t>(da - dg - 1, 0), "degree-bound", "deg t = " << t.deg(0)); vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b)); } vh::sample(vh::clip(a.str(), 150) + " , " + vh::clip(b.str(), 150)); if (dg > 0) vh::event("gcd of positive degree");
}
template <class X> static void multi(Rng& R) {
    cv::vars(8); unsigned nv = 1 + R.below(3); X c; MkCtx<ZZ, typename X::comp_t>::go(c, R, nv); auto T1 = [&] { return 1 + (unsigned)R.below(3); }; int cls = R.below(3); Z g = zr(R, nv, 1, T1(), 0), x = zr(R, nv, 1 + R.below(2), T1(), cls), y = zr(R, nv, 1 + R.below(2), T1(), cls), a, b;
    switch (R.below(9)) { case 0: a = x; b = y; break; case 1: a = g; b = g * x; break; case 2: a = g * gen::coef(R, 1); b = g * gen::coef(R, 1); break; case 3: a = Z(gen::coef(R, cls)); b = Z(gen::coef(R, cls)); break; case 4: a = Z(gen::coef(R, cls)); b = x; break; case 5: a = g * x; break; case 6: b = g * x; break; default: a = g * x; b = g * y; } if (R.chance(1, 2)) std::swap(a, b);
    vh::desc(c.name + " F=" + a.str() + " G=" + b.str()); auto A = c.mk(a), B = c.mk(b); const auto A0 = A, B0 = B; typename X::Poly S(c.comp), T(c.comp); if (R.chance(1, 3)) { S = A; T = B; } auto G = clpoly::polynomial_GCD(A, B, S, T); for (auto* q : {&G, &S, &T}) { auto why = cv::canon(*q, c.ord); VREQ(why.empty(), "canonical", why); }
    auto gg = cv::from(G), s = cv::from(S), t = cv::from(T); VREQ(s * a + t * b == gg, "identity", "s*F+t*G is not g: g=" << gg << " s=" << s << " t=" << t);
    if (a.zero() || b.zero()) VREQ(gg == (a.zero() ? b : a), "gcd-with-zero", "got " << gg); else { Z w = fl::gcd(a, b); auto first = [&](const Z& q) { int v = -1; for (int i : mdl::vars_of(q)) if (v < 0 || c.ord.rk(i) < c.ord.rk(v)) v = i; return v; }; int va = first(a), vb = first(b); /* different first variables: which of them is the main one is not specified */ if (va < 0 && vb < 0) VREQ(gg == w, "wrong-gcd", "integer gcd " << gg << " expected " << w); else VREQ((va >= 0 && similar(gg, w, (size_t)va)) || (vb >= 0 && similar(gg, w, (size_t)vb)), "wrong-gcd", "got " << gg << " which is not a gcd in the main variable; gcd " << w); VREQ(G.front().second > 0, "sign", "leading coefficient not positive: " << gg); }
    VREQ(A == A0 && B == B0, "operand-changed", "an argument changed"); if (a.t.size() > 1 && b.t.size() > 1) vh::nontrivial(mdl::hash(a) * 31 + mdl::hash(b)); if (nv > 1) vh::sample(c.name + " " + vh::clip(a.str(), 150) + " , " + vh::clip(b.str(), 150));
}
static vh::Reg r1("multi_lex", 900, 60000, multi<Ctx<ZZ, clpoly::lex>>), r2("multi_custom", 700, 40000, multi<Ctx<ZZ, clex>>);
