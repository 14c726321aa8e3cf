#include "facops.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace ring;
template <class C> static void one(Rng& R, const Z& a, unsigned nv, const fl::Fac& w, const char* kind) {
    Ctx<ZZ, C> c; MkCtx<ZZ, C>::go(c, R, nv); vh::desc(std::string(kind) + " [" + c.name + "] F=" + a.str()); auto A = c.mk(a); const auto A0 = A; auto r = clpoly::factorize(A);
    VREQ(A == A0, "operand-changed", "argument changed"); std::vector<std::pair<Z, uint64_t>> l; for (auto& x : r.factors) { auto why = cv::canon(x.first, c.ord); VREQ(why.empty(), "canonical", why << " in " << x.first); l.push_back({cv::from(x.first), x.second}); }
    factors_ok(cv::mz(r.content), l, a, w); vh::event("order " + c.name.substr(0, c.name.find('('))); vh::event("irreducible factors certified", l.size()); vh::event_max("distinct factors", l.size());
}
static bool force_zero = false;
static void run(Rng& R, Z a, unsigned nv, const char* kind) {
    if (a.zero()) a = Z(mpz_class(1)); if (a.t.size() > 1200 || a.tdeg() > 40) return; clpoly::__g_use_large_prime = R.chance(1, 8); vh::set_random_device(force_zero ? vh::RD::Zero : vh::random_rd_mode(R), R.next()); cv::vars(nv); vh::desc(std::string(kind) + " F=" + a.str());
    auto w = fl::factor(a); switch (R.below(6)) { case 0: one<clpoly::grlex>(R, a, nv, w, kind); break; case 1: one<clpoly::lex>(R, a, nv, w, kind); break; case 2: one<uorder>(R, a, nv, w, kind); break; case 3: one<clpoly::lex>(R, a, nv, w, kind); one<clex>(R, a, nv, w, kind); break; default: one<clex>(R, a, nv, w, kind); }
    clpoly::__g_use_large_prime = false; if (mdl::vars_of(a).size() >= 2) vh::nontrivial(mdl::hash(a)); vh::sample(std::string(kind) + " " + vh::clip(a.str(), 250)); vh::event(std::string("kind ") + kind); vh::event_max("terms", a.t.size()); vh::event_max("variables", mdl::vars_of(a).size()); vh::event_max("total degree", a.tdeg());
}
static unsigned nvar(Rng& R) { return 2 + R.below(R.chance(1, 4) ? 4 : 2); }
static Z lin(Rng& R, unsigned nv, int cls) { Z r; for (unsigned i = 0; i < nv; ++i) if (R.chance(2, 3)) r = r + Z::var(i) * gen::coef(R, cls); if (R.chance(2, 3)) r = r + Z(gen::coef(R, cls)); return r.zero() ? Z::var(0) : r; }
SCENARIO(products, 400, 40000) { unsigned nv = nvar(R), k = 1 + R.below(3); int cls = R.below(R.chance(1, 3) ? 4 : 2); Z a(R.chance(1, 2) ? mpz_class((long)(R.chance(1, 2) ? 1 : -1)) : gen::coef(R, 1)); for (unsigned i = 0; i < k; ++i) a = a * mdl::pw(zr(R, nv, 1 + R.below(3), 1 + R.below(4), cls), R.chance(4, 5) ? 1 : 2); run(R, a, nv, "products"); }
// leading coefficients with shared factors, fixed divisors, constants that hide them
SCENARIO(leading, 300, 30000) { unsigned nv = nvar(R), v = R.below(nv), k = 2 + R.below(2); Z a(mpz_class(1)); std::vector<Z> ls; for (unsigned i = 0; i < 3; ++i) ls.push_back(R.chance(1, 2) ? sub(R, 0, nv, 1, 2, 0) : Z::var((v + 1) % nv) + Z(mpz_class((long)R.range(-3, 3)))); for (unsigned i = 0; i < k; ++i) { Z l(mpz_class((long)(R.chance(1, 2) ? 1 : R.range(2, 12)))); for (auto& x : ls) if (R.chance(1, 2)) l = l * x; Z lc; for (auto& t : l.t) if (!mdl::eget(t.first, v)) lc.add_term(t.first, t.second); if (lc.zero()) lc = Z(mpz_class(2)); a = a * (lc * Z::var(v, 1 + R.below(2)) + zr(R, nv, 1, 2, 0)); } run(R, a, nv, "leading"); }
// fixed prime divisors: some leading-coefficient factors share a divisor at every integer point
SCENARIO(fixed_divisor, 60, 4000) { unsigned nv = 2 + R.below(2); Z y = Z::var(1); auto fd = [&] { long c = 2 * R.range(-3, 3); Z q = R.chance(2, 3) ? y * y + y + Z(mpz_class(c)) : mdl::pw(y, 3) - y + Z(mpz_class(6 * (long)R.range(-2, 2))); return q; }; Z a(mpz_class(1)); unsigned k = 2 + R.below(2); for (unsigned i = 0; i < k; ++i) a = a * (fd() * Z::var(0) + zr(R, nv, 1, 2, 0)); run(R, a, nv, "fixed divisor"); }
// irreducible or few factors although every specialisation splits further
SCENARIO(oversplit, 120, 12000) { unsigned nv = nvar(R); Z a(mpz_class(1)); unsigned k = 1 + R.below(2); for (unsigned i = 0; i < k; ++i) { Z g = R.chance(1, 3) ? Z::var(0, 4) - Z::var(1, 1 + R.below(2)) * gen::coef(R, 0) : R.chance(1, 2) ? swinnerton({sqfree_small(R)}) : Z::var(0, 2) - Z::var(1); if (R.chance(1, 3)) g = swinnerton({2, R.chance(1, 2) ? 3 : -1}); unsigned v = R.below(nv); Z s = Z::var(0) + (R.chance(2, 3) ? Z::var(v) * mpz_class((long)R.range(1, 3)) : Z::var(v) * Z::var((v + 1) % nv)); g = g.subst_poly(0, s); if (R.chance(1, 2)) { Z h; uint32_t D = 0; for (auto& t : g.t) D = std::max<uint32_t>(D, mdl::edeg(t.first)); for (auto& t : g.t) { Exp e = t.first; e.resize(std::max<size_t>(e.size(), nv)); e[nv - 1] += D - (uint32_t)mdl::edeg(t.first); mdl::trim(e); h.add_term(e, t.second); } g = h; } a = a * g; } if (a.tdeg() <= 10) run(R, a, nv, "oversplit"); }
SCENARIO(linear_forms, 150, 10000) { unsigned nv = 2 + R.below(4), k = 2 + R.below(3); Z a(mpz_class(1)); for (unsigned i = 0; i < k; ++i) a = a * lin(R, nv, R.below(4) ? 0 : 1); run(R, a, nv, "linear forms"); }
SCENARIO(multiplicity, 120, 8000) { unsigned nv = 2 + R.below(2); Z a(gen::coef(R, 0)); for (int i = 0; i < 2; ++i) a = a * mdl::pw(lin(R, nv, 0), 1 + R.below(5)); if (R.chance(1, 2)) a = a * zr(R, nv, 2, 3, 0); run(R, a, nv, "multiplicity"); }
SCENARIO(separated, 120, 8000) { // factors in disjoint variables, integer and monomial contents
    unsigned nv = 2 + R.below(3); Z a(gen::coef(R, 1)); for (unsigned i = 0; i < nv; ++i) if (R.chance(2, 3)) { Z u = gen::upoly(R, 1 + R.below(3), 0, 3, i); a = a * u; } for (unsigned i = 0; i < nv; ++i) if (R.chance(1, 3)) a = a * Z::var(i, 1 + R.below(3)); if (R.chance(1, 3)) a = a * zr(R, nv, 2, 2, 1); run(R, a, nv, "separated"); }
SCENARIO(monomials, 100, 2000) { unsigned nv = 1 + R.below(6); Z a; a.add_term(gen::exp_box(R, nv, 5), gen::coef(R, 3)); if (R.chance(1, 3)) { a = a * (Z::var(0, 1 + R.below(3)) - Z::var(nv - 1)); } if (a.zero()) a = Z(gen::coef(R, 2)); run(R, a, nv, "monomials"); }
SCENARIO(classical, 80, 3000) { unsigned nv = 3 + R.below(2); Z a; switch (R.below(6)) { case 0: { unsigned n = 2 + R.below(11); a = Z::var(0, n) - Z::var(1, n); break; } case 1: { a = Z(mpz_class(1)); for (unsigned i = 0; i < nv; ++i) for (unsigned j = 0; j < i; ++j) a = a * (Z::var(i) - Z::var(j)); break; } case 2: a = mdl::pw(Z::var(0), 3) + mdl::pw(Z::var(1), 3) + mdl::pw(Z::var(2), 3) - Z::var(0) * Z::var(1) * Z::var(2) * mpz_class(3); break; case 3: { Z s = Z::var(0), t = Z::var(1), u = Z::var(2); a = (s + t + u) * (s + t - u) * (s - t + u) * (t + u - s); break; } case 4: { std::vector<std::vector<Z>> M(3, std::vector<Z>(3)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i][j] = Z::var((i + 3 - j) % 3); a = mdl::det(M); break; } default: { a = Z::var(0, 4) + Z::var(1, 4) * mpz_class(4); } } if (R.chance(1, 2)) { unsigned v = R.below(nv); a = a.subst_poly(v, lin(R, nv, 0)); } if (R.chance(1, 3)) a = a + Z(mpz_class((long)R.range(-1, 1))); run(R, a, nv, "classical"); }
SCENARIO(wide, 60, 4000) { unsigned nv = 2 + R.below(2); Z a = zr(R, nv, 2, 3, 3) * zr(R, nv, 2, 3, 3); if (R.chance(1, 2)) a = a * gen::coef(R, 3); run(R, a, nv, "wide"); }
// coefficients that make the lifting prime unlucky
SCENARIO(unlucky_prime, 60, 4000) { unsigned nv = 2 + R.below(2); mpz_class p = R.chance(1, 2) ? u64(libprime(R)) : firstprimes(1 + R.below(3)); Z x = zr(R, nv, 1 + R.below(2), 2 + R.below(2), 0), y = R.chance(1, 2) ? x + zr(R, nv, 1, 1 + R.below(2), 0) * p : Z::var(R.below(nv), 2) * p + zr(R, nv, 1, 2, 0); if (y.zero()) y = Z::var(0) + Z(p); run(R, x * y, nv, "unlucky prime"); }
SCENARIO(many_variables, 25, 800) { unsigned nv = 5 + R.below(5); Z x = Z::var(0), y = Z::var(0); for (unsigned i = 1; i < nv; ++i) { if (R.chance(3, 4)) x = x + Z::var(i) * gen::coef(R, 0); if (R.chance(3, 4)) y = y + Z::var(i) * gen::coef(R, 0); } if (R.chance(1, 3)) x = x + Z(gen::coef(R, 0)); run(R, x * y, nv, "many variables"); }
// some factors lose part of their support modulo the first lifting primes while the others are lifted exactly
SCENARIO(lost_support, 60, 3000) {
    unsigned nv = 2 + R.below(2); mpz_class p("18446744073709551557"); if (R.chance(1, 3)) p *= mpz_class("18446744073709551533"); Z a(mpz_class((long)1)); unsigned good = R.below(3), bad = 1 + R.below(3); for (unsigned i = 0; i < good; ++i) a = a * lin(R, nv, 0);
    for (unsigned i = 0; i < bad; ++i) { unsigned v = R.below(nv); Z b = Z::var(v, 1 + R.below(2)) + Z::var((v + 1) % nv) * (R.chance(1, 2) ? mpz_class(p * (long)R.range(1, 5)) : gen::coef(R, 0)) + Z(mpz_class((long)R.range(1, 9))); if (R.chance(1, 2)) b = b + Z::var(v) * Z::var((v + 1) % nv) * mpz_class(p * (long)R.range(-3, 3)); a = a * b; }
    run(R, a, nv, "lost support"); }
// a factor with larger coefficients than the product, around the sizes at which one prime (or one more power of it) stops being enough
SCENARIO(tall_factors, 60, 3000) {
    unsigned nv = 2 + R.below(3), m = nv == 2 ? 4 + R.below(7) : 2 + R.below(2), k = nv == 2 ? 2 + R.below(m) : 1; Z one(mpz_class((long)1)), h = one, a = one, b = one; if (nv > 3) { m = 2; }
    for (unsigned i = 1; i < nv; ++i) { Z y = Z::var(i); h = h * mdl::pw(y + one, m); a = a * mdl::pw(one - y, k); b = b * mdl::pw(y * y - y + one, nv == 2 ? 1 + R.below(k) : 1); }
    auto height = [](const Z& z) { mpz_class r = 0; for (auto& t : z.t) if (abs(t.second) > r) r = abs(t.second); return r; }; mpz_class hf = height(h), hF = height(h * a); mpz_class hb = height(h * b); if (hb > hF) hF = hb;
    mpz_class T = 1; static const unsigned bits[] = {64, 64, 64, 128, 128, 192, 63, 62, 32, 31}; T <<= bits[R.below(10)]; mpz_class lo = T / (4 * hf) + 1, hi = T / hF + 2; mpz_class n = lo + gen::bigint(R, 224) % (hi > lo ? mpz_class(hi - lo) : mpz_class((long)1));
    Z f = Z::var(0, 1 + (nv == 2 && R.chance(1, 4))) * (R.chance(1, 4) ? mpz_class((long)3) : mpz_class((long)1)) + h * n, g = a * Z::var(0) + b; if (R.chance(1, 3)) g = g + Z(mpz_class((long)R.range(-2, 2))); if (R.chance(1, 4)) std::swap(f, g);
    if (R.chance(1, 2)) { // the growth is in the main variable and every factor is monic in it
        nv = 2 + R.below(2); Z x = Z::var(0); m = 4 + R.below(4); k = 3 + R.below(m - 1); unsigned j = R.below((k + 1) / 2); Z w = Z::var(1, 1 + R.below(m + 3)); if (nv == 3) w = w * Z::var(2, R.below(4)) + (R.chance(1, 2) ? Z::var(2) : Z()); h = mdl::pw(x + one, m); a = mdl::pw(x - one, k); b = mdl::pw(x * x - x + one, j);
        hf = height(h); hF = height(h * a); hb = height(h * b); if (hb > hF) hF = hb; lo = T / (4 * hf) + 1; hi = T / hF + 2; n = lo + gen::bigint(R, 224) % (hi > lo ? mpz_class(hi - lo) : mpz_class((long)1)); f = Z::var(0, m + 1) + h * n + Z::var(1, 1 + R.below(m + 3)); g = a + w * b; }
    Z F = f * g; if (height(f) > height(F) || height(g) > height(F)) vh::event("factor taller than the product"); run(R, F, nv, "tall factors"); }
// a cooperating random device: coefficients vanish at the predicted interpolation points of the sparse Diophantine solver
SCENARIO(unlucky_points, 60, 3000) {
    unsigned nv = 2 + R.below(2); std::mt19937 gen(0u); std::uniform_int_distribution<uint64_t> d(1, 18446744073709551556ull); std::vector<mpz_class> be; for (int i = 0; i < 3; ++i) { be.push_back(u64(d(gen))); }
    Z a(mpz_class((long)1)); unsigned k = 2 + R.below(2); for (unsigned i = 0; i < k; ++i) { Z x = Z::var(0), b = x * x + Z(mpz_class((long)R.range(1, 9))); Z r = Z::var(1 + R.below(nv - 1)) - Z(R.chance(1, 3) ? mpz_class(be[0] * be[0] % mpz_class("18446744073709551557")) : be[R.below(be.size())]); switch (R.below(3)) { case 0: b = b + x * r; break; case 1: b = b + r * gen::coef(R, 0); break; default: b = b + x * x * x * r + Z::var(1); } if (nv > 2) b = b + Z::var(2) * gen::coef(R, 0); a = a * b; }
    force_zero = true; run(R, a, nv, "predicted unlucky points"); force_zero = false; }
