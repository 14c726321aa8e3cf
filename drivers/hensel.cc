#include "facops.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace ring; using mdl::F; using mdl::Fp;
typedef std::vector<F> FV;
static F mul(const F& a, const F& b, uint64_t p) { fl::NP x(p), y(p), z(p); fl::put(x, a); fl::put(y, b); nmod_poly_mul(z.p, x.p, y.p); return fl::get(z); }
static Z modz(const Z& a, const mpz_class& m) { Z r; for (auto& t : a.t) { mpz_class c; mpz_fdiv_r(c.get_mpz_t(), t.second.get_mpz_t(), m.get_mpz_t()); r.add_term(t.first, c); } return r; }
// monic irreducible factors of f mod p, or empty when p is not admissible (divides lc, or f mod p not squarefree)
static FV modfac(const Z& f, uint64_t p) { F g = mdl::toF(f, p); if (g.deg(0) != f.deg(0) || g.zero()) return {}; FV r; for (auto& x : fl::factor(g, p)) { if (x.second != 1) return {}; r.push_back(x.first); } return r; }
static uint64_t pickp(Rng& R) { switch (R.below(6)) { case 0: case 1: { static const uint64_t s[] = {2, 3, 5, 7, 11, 13, 17, 19, 23}; return s[R.below(9)]; } case 2: return gen::prime(R); case 3: return gen::odd_prime_big(R); default: { uint64_t p = gen::prime_below(3 + R.below(200)); return p; } } }
static void lift(Rng& R, const Z& f, uint64_t p, FV fac, const char* kind, bool recombine) {
    R.shuffle(fac); bool grouped = !recombine && R.chance(1, 3) && fac.size() > 2; if (grouped) { size_t k = 1 + R.below(fac.size() - 2); for (size_t i = 0; i < k; ++i) { size_t a = R.below(fac.size() - 1); fac[a] = mul(fac[a], fac.back(), p); fac.pop_back(); } if (fac.size() < 2) return; }
    int target = recombine ? 0 : R.chance(1, 3) ? 0 : R.chance(1, 2) ? 1 + (int)R.below(6) : 1 + (int)R.below(40); if (p >> 32 && target > 12) target = 12; std::string d = std::string(kind) + " p=" + std::to_string(p) + " a=" + std::to_string(target) + " F=" + f.str() + " factors:"; for (auto& x : fac) d += " {" + x.str() + "}"; vh::desc(d);
    auto Fz = cv::tou<ZZ>(f); const auto F0 = Fz; std::vector<clpoly::upolynomial_<Zp>> in; for (auto& x : fac) in.push_back(cv::tou<Zp>(x, p)); const auto in0 = in; auto out = target ? clpoly::__hensel_lift(Fz, in, p, target) : clpoly::__hensel_lift(Fz, in, p); VREQ(Fz == F0 && in == in0, "operand-changed", "argument changed");
    mpz_class m = cv::mz(out.second), q = m, P = u64(p), need; unsigned k = 0; while (q > 1 && mpz_divisible_p(q.get_mpz_t(), P.get_mpz_t())) { q /= P; ++k; } VREQ(q == 1 && k >= 1, "modulus", "modulus " << m << " is not a power of p"); if (target) VREQ(k >= (unsigned)target, "precision", "lifted to p^" << k);
    VREQ(out.first.size() == fac.size(), "factor-count", out.first.size() << " lifted factors"); Z prod(f.t.rbegin()->second); for (size_t i = 0; i < fac.size(); ++i) { auto why = cv::canon(out.first[i]); VREQ(why.empty(), "canonical", why); Z g = cv::from(out.first[i]); VREQ(g.deg(0) == fac[i].deg(0) && g.t.rbegin()->second == 1, "not-monic", "lifted factor " << g); for (auto& t : g.t) VREQ(t.second > 0 && t.second < m, "not-reduced", "coefficient " << t.second << " of lifted factor"); VREQ(mdl::toF(g, p) == fac[i], "not-congruent", "lifted factor " << g << " is not congruent to {" << fac[i] << "}"); prod = modz(prod * g, m); } VREQ(prod == modz(f, m), "product", "lc times product of lifted factors is " << prod << " modulo " << m);
    vh::event("lifts checked"); vh::event_max("lift exponent", k); vh::event_max("modular factors", fac.size()); if (f.t.rbegin()->second != 1) vh::event("lifts with non-monic leading coefficient"); if (fac.size() >= 2 && k >= 2) vh::nontrivial(mdl::hash(f) * 31 + p + k); vh::event(std::string("kind ") + kind); vh::sample(std::string(kind) + " p=" + std::to_string(p) + " k=" + std::to_string(k) + " " + vh::clip(f.str(), 180));
    if (!recombine) return; auto w = fl::factor_uni(f, 0); // full precision: every true factor times lc fits into the symmetric range
    auto chk = [&](const std::vector<clpoly::upolynomial_<ZZ>>& r, const char* name) { std::vector<std::pair<Z, uint64_t>> l; Z pr(mpz_class(1)); for (auto& x : r) { auto why = cv::canon(x); VREQ(why.empty(), "canonical", why); l.push_back({cv::from(x), 1}); pr = pr * l.back().first; VREQ(pr.deg(0) <= f.deg(0), std::string("recombine-product:") + name, "product too large"); } Z s = pr; VREQ(s == f || -s == f, std::string("recombine-product:") + name, name << ": product of recombined factors is " << s); for (size_t i = 0; i < l.size(); ++i) { bool hit = false; for (auto& y : w.f) hit |= fl::same_up_to_unit(y.first, l[i].first); VREQ(hit, std::string("recombine-factor:") + name, name << ": " << l[i].first << " is not an irreducible factor"); } VREQ(l.size() == w.f.size(), std::string("recombine-count:") + name, name << ": " << l.size() << " factors, expected " << w.f.size()); vh::event(std::string("recombinations checked: ") + name); };
    if (fac.size() <= 11) chk(clpoly::__zassenhaus_recombine(Fz, out.first, out.second), "zassenhaus"); chk(clpoly::__vanhoeij_recombine(Fz, out.first, out.second), "vanhoeij"); if (fac.size() <= 11 || R.chance(1, 2)) chk(clpoly::__factor_recombine(Fz, out.first, out.second), "recombine"); if (w.f.size() < fac.size()) vh::event("recombinations that had to join factors"); if (w.f.size() > 1 && w.f.size() < fac.size()) vh::event("recombinations with several joined true factors");
}
// squarefree primitive f with positive leading coefficient
static bool prep(Z& f) { if (f.deg(0) < 2) return false; mpz_class c = mdl::content(f); if (f.t.rbegin()->second < 0) c = -c; Z q; mdl::divexact(f, Z(c), q); f = q; return fl::squarefree(f); }
static void go(Rng& R, Z f, const char* kind, bool rec, unsigned maxf) { if (!prep(f)) return; cv::vars(1); for (int t = 0; t < 12; ++t) { uint64_t p = pickp(R); auto v = modfac(f, p); if (v.size() < 2 || v.size() > maxf) continue; lift(R, f, p, v, kind, rec); return; } vh::event("no admissible prime"); }
SCENARIO(lift_random, 1500, 80000) { int cls = R.below(4); Z f(mpz_class(1)); unsigned k = 1 + R.below(4); for (unsigned i = 0; i < k; ++i) f = f * gen::upoly(R, 1 + R.below(5), R.chance(1, 2) ? 0 : cls); go(R, f, "random", false, 40); }
SCENARIO(lift_linear, 400, 20000) { // many linear modular factors, deep unbalanced trees
    Z f(mpz_class((long)R.range(1, 30))); unsigned k = 2 + R.below(14); std::vector<long> rs; for (unsigned i = 0; i < k; ++i) { long r = R.range(-60, 60); if (std::find(rs.begin(), rs.end(), r) != rs.end()) continue; rs.push_back(r); f = f * (Z::var(0) * mpz_class((long)(R.chance(3, 4) ? 1 : R.range(1, 5))) - Z(mpz_class(r))); } mdl::Z g = f; if (!fl::squarefree(g)) return; mpz_class c = mdl::content(g); Z q; mdl::divexact(g, Z(c), q); uint64_t p = gen::prime_below(150 + R.below(2000)); if (R.chance(1, 4)) p = gen::odd_prime_big(R); auto v = modfac(q, p); if (v.size() < 2) return; if (q.t.rbegin()->second < 0) q = -q; lift(R, q, p, v, "linear", false); }
SCENARIO(lift_not_a_product, 500, 25000) { // f irreducible over Z, or imprimitive, with negative leading coefficient: lifting needs neither
    Z f = gen::upoly(R, 2 + R.below(12), R.below(4)); if (f.zero()) return; for (int t = 0; t < 10; ++t) { uint64_t p = pickp(R); auto v = modfac(f, p); if (v.size() < 2) continue; lift(R, f, p, v, "irreducible", false); return; } }
SCENARIO(recombine_random, 900, 50000) { Z f(mpz_class(1)); unsigned k = 1 + R.below(5); for (unsigned i = 0; i < k; ++i) f = f * gen::upoly(R, 1 + R.below(4), R.chance(1, 2) ? 0 : R.below(4)); go(R, f, "random", true, 12); }
SCENARIO(recombine_splitting, 700, 40000) { Z f(mpz_class(1)); unsigned k = 1 + R.below(4); for (unsigned i = 0; i < k && f.deg(0) < 20; ++i) { Z g = splitting(R); if (R.chance(1, 2)) g = affine(R, g); if (R.chance(1, 4)) g = reversed(g); f = f * g; } go(R, f, "splitting", true, 13); }
SCENARIO(recombine_small_primes, 500, 30000) { // factors that agree modulo the lifting prime's small powers, leading coefficients sharing primes
    uint64_t p = pickp(R); if (p > 1000) p = 13; Z a = gen::upoly(R, 1 + R.below(4), 0), b = a + Z(mpz_class((long)R.range(1, 3))) * mpz_class((long)R.range(1, 50)), c = gen::upoly(R, 1 + R.below(3), 1); if (b.zero() || b.deg(0) != a.deg(0)) return; Z f = a * b * c; if (!prep(f)) return; auto v = modfac(f, p); if (v.size() < 2 || v.size() > 12) { go(R, f, "close", true, 12); return; } lift(R, f, p, v, "close", true); }
// building blocks: modular division, symmetric residues, bounds
SCENARIO(helpers, 1500, 80000) {
    mpz_class m = R.chance(1, 2) ? mpz_class(u64(gen::prime(R))) : gen::bigint(R, 2 + R.below(200)) + 2; { mpz_class pw = u64(gen::prime(R)); m = R.chance(1, 2) ? m : mpz_class(pw * pw * pw); } mpz_class a = R.chance(1, 4) ? mpz_class(m * (long)R.range(-3, 3) + (long)R.range(-1, 1)) : R.chance(1, 3) ? mpz_class(m / 2 + (long)R.range(-1, 1)) : gen::integer(R); vh::desc("a=" + a.get_str() + " m=" + m.get_str()); mpz_class r = cv::mz(clpoly::__symmetric_mod(cv::zz(a), cv::zz(m))); VREQ(mpz_congruent_p(a.get_mpz_t(), r.get_mpz_t(), m.get_mpz_t()) && 2 * r <= m && 2 * r > -m, "symmetric-mod", "got " << r);
    mpz_class n = abs(gen::integer(R)); if (R.chance(1, 2)) { n = n * n + (long)R.range(-1, 1); if (n < 0) n = 0; } mpz_class s = cv::mz(clpoly::__isqrt_ceil(cv::zz(n))); vh::desc("isqrt " + n.get_str()); VREQ(s * s >= n, "isqrt", "ceil sqrt of " << n << " gave " << s);
    int64_t N = (int64_t)R.below(90), K = (int64_t)R.below(95) - 2; mpz_class bi = 0; if (K >= 0 && K <= N) mpz_bin_uiui(bi.get_mpz_t(), N, K); vh::desc("binomial " + std::to_string(N) + " " + std::to_string(K)); VREQ(cv::mz(clpoly::__binomial(N, K)) == bi, "binomial", "C(" << N << "," << K << ")");
    // the bound really bounds every integer factor's coefficients
    Z g = gen::upoly(R, 1 + R.below(6), R.below(3)), h = gen::upoly(R, R.below(6), R.below(3)); if (R.chance(1, 3)) { g = cyclotomic(1 + R.below(40)); h = Z::var(0, 60) - Z(mpz_class(1)); Z q; unsigned nn = 1; for (nn = 1; nn <= 210; ++nn) if (mdl::divexact(Z::var(0, nn) - Z(mpz_class(1)), g, q)) { h = q; break; } if (nn > 210) return; } Z f = g * h; vh::desc("mignotte F=" + f.str()); mpz_class B = cv::mz(clpoly::__mignotte_bound(cv::tou<ZZ>(f))); for (auto* x : {&g, &h}) for (auto& t : x->t) VREQ(abs(t.second) <= B, "mignotte", "factor " << *x << " exceeds the bound " << B); vh::nontrivial(R.next());
}
