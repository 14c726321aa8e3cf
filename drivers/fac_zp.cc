#include "gcdops.hh"
#include <random>
#include <set>
#include <clpoly/polynomial_factorize.hh>
using namespace ring; using mdl::F; using mdl::Fp;
typedef std::vector<std::pair<F, unsigned long>> FL;
static F one(uint64_t p) { return F(Fp(1, p)); }
static F X(uint64_t p, unsigned e = 1) { F r; r.add_term(Exp(1, e), Fp(1, p)); return r; }
static F fp(Rng& R, uint64_t p, unsigned d) { F r; for (unsigned i = 0; i <= d; ++i) { uint64_t k = R.chance(1, 5) ? 0 : R.chance(1, 3) ? p - 1 : R.next() % p; if (i == d && !k) k = 1; r.add_term(Exp(1, i), Fp(k, p)); } return r; }
static F mul(const F& a, const F& b, uint64_t p) { fl::NP x(p), y(p), z(p); fl::put(x, a); fl::put(y, b); nmod_poly_mul(z.p, x.p, y.p); return fl::get(z); }
static F pwf(F a, unsigned n, uint64_t p) { F r = one(p); while (n--) r = mul(r, a, p); return r; }
static F monic(F a) { if (a.zero()) return a; Fp i = a.t.rbegin()->second.inv(); return a * i; }
static F frob(const F& a, unsigned p) { F r; for (auto& t : a.t) r.t[Exp(t.first.empty() ? 0 : 1, t.first.empty() ? 0 : t.first[0] * p)] = t.second; return r; }
static void ck(const clpoly::upolynomial_<Zp>& x, uint64_t p, const char* w) { auto why = cv::canon(x); VREQ(why.empty(), std::string("canonical:") + w, why << " in " << x); for (auto& t : x.data()) VREQ(t.second.prime() == p, "prime", "coefficient modulus changed"); }
static std::string key(FL v) { std::vector<std::string> o; for (auto& x : v) o.push_back(x.first.str() + "^" + std::to_string(x.second)); std::sort(o.begin(), o.end()); std::string r; for (auto& s : o) r += s + " | "; return r; }
static void run(Rng& R, const F& a, uint64_t p, const char* kind) {
    if (a.zero()) return; vh::desc(std::string(kind) + " p=" + std::to_string(p) + " F=" + a.str()); cv::vars(2); vh::set_random_device(vh::random_rd_mode(R), R.next()); auto A = cv::tou<Zp>(a, p); const auto A0 = A; FL want = a.deg(0) ? fl::factor(a, p) : FL();
    // complete factorization
    auto r = clpoly::__factor_Zp(A); VREQ(A == A0, "operand-changed", "argument changed"); VREQ(r.first.number() == a.t.rbegin()->second.v && r.first.prime() == p, "leading-coefficient", "leading coefficient " << r.first.number()); FL got; F prod(Fp(r.first.number(), p)); for (auto& x : r.second) { ck(x.first, p, "factor"); F f = cv::from(x.first); VREQ(f.deg(0) > 0 && x.second > 0, "constant-factor", "factor " << f << "^" << x.second); VREQ(f.t.rbegin()->second.v == 1, "not-monic", "factor " << f << " not monic"); VREQ(x.second <= (uint64_t)a.deg(0), "multiplicity", "multiplicity " << x.second); for (uint64_t i = 0; i < x.second; ++i) prod = mul(prod, f, p); VREQ(prod.deg(0) <= a.deg(0), "product", "product too large"); VREQ(fl::irreducible(f, p), "reducible-factor", "factor " << f << " reducible"); got.push_back({f, x.second}); }
    VREQ(prod == a, "product", "product of factors is " << prod); VREQ(key(got) == key(want), "factor-list", "factors " << key(got) << " expected " << key(want));
    vh::event("irreducible factors certified", got.size()); vh::event_max("degree", a.deg(0)); vh::event_max("distinct factors", got.size()); if (a.deg(0) < 1) return;
    F m = monic(a); auto M = cv::tou<Zp>(m, p);
    // squarefree stage
    auto s = clpoly::__squarefree_Zp(M); F sp = one(p); std::vector<std::pair<F, unsigned long>> parts; for (auto& x : s) { ck(x.first, p, "squarefree"); F f = cv::from(x.first); VREQ(!f.zero() && x.second > 0, "squarefree-entry", "entry " << f << "^" << x.second); VREQ(f.deg(0) > 0, "squarefree-entry", "constant entry"); fl::NP np(p); fl::put(np, f); VREQ(nmod_poly_is_squarefree(np.p), "squarefree-part", "part " << f << " is not squarefree"); sp = mul(sp, pwf(f, x.second, p), p); for (auto& y : parts) VREQ(fl::gcd(y.first, f, p).deg(0) == 0, "squarefree-coprime", "parts share a factor"); parts.push_back({f, x.second}); if (x.second > 1) vh::event("squarefree parts of multiplicity > 1"); if (x.second % p == 0) vh::event("p-th powers separated"); } VREQ(sp == m, "squarefree-product", "squarefree parts multiply to " << sp);
    // distinct degree and equal degree stages
    for (auto& x : s) { F f = cv::from(x.first); if (f.t.rbegin()->second.v != 1) { f = monic(f); } auto FF = cv::tou<Zp>(f, p); auto dd = clpoly::__ddf_Zp(FF); std::map<unsigned long, F> byd; for (auto& y : fl::factor(f, p)) { auto it = byd.emplace((unsigned long)y.first.deg(0), one(p)).first; it->second = mul(it->second, y.first, p); } VREQ(dd.size() == byd.size(), "ddf-groups", "distinct-degree stage returned " << dd.size() << " groups, expected " << byd.size() << " for " << f); for (auto& g : dd) { ck(g.first, p, "ddf"); auto it = byd.find(g.second); VREQ(it != byd.end(), "ddf-degree", "no irreducible factor of degree " << g.second); VREQ(cv::from(g.first) == it->second, "ddf-group", "degree " << g.second << " group is " << cv::from(g.first) << " expected " << it->second); vh::event("distinct-degree groups checked");
            std::mt19937 rng((unsigned)(R.chance(1, 2) ? 42 : R.next())); std::vector<clpoly::upolynomial_<Zp>> out; if (R.chance(1, 4)) out.push_back(M); size_t pre = out.size(); clpoly::__edf_Zp(out, g.first, g.second, rng); VREQ(!pre || out[0] == M, "edf-prefix", "an element already in the output changed"); F q = one(p); std::set<std::string> seen; for (size_t i = pre; i < out.size(); ++i) { ck(out[i], p, "edf"); F h = cv::from(out[i]); VREQ((unsigned long)h.deg(0) == g.second && h.t.rbegin()->second.v == 1 && fl::irreducible(h, p), "edf-factor", "equal-degree factor " << h << " for degree " << g.second); VREQ(seen.insert(h.str()).second, "edf-duplicate", h << " twice"); q = mul(q, h, p); } VREQ(q == it->second, "edf-product", "equal-degree factors multiply to " << q); if (out.size() - pre > 1) vh::event("equal-degree splits"); if (p == 2 && out.size() - pre > 1) vh::event("equal-degree splits over GF(2)"); } }
    vh::nontrivial(mdl::hash(a) * 31 + p); vh::event(std::string("kind ") + kind); if (p < 100) vh::event("prime " + std::to_string(p)); else vh::event(p >> 63 ? "prime 64 bits" : p >> 32 ? "prime 33..63 bits" : "prime up to 32 bits"); vh::sample(std::string(kind) + " p=" + std::to_string(p) + " " + vh::clip(a.str(), 200));
}
static uint64_t tiny(Rng& R) { static const uint64_t s[] = {2, 2, 3, 3, 5, 7, 11, 13}; return s[R.below(8)]; }
static uint64_t pr(Rng& R) { return R.chance(1, 2) ? tiny(R) : gen::prime(R); }
SCENARIO(dense, 800, 60000) { uint64_t p = pr(R); run(R, fp(R, p, R.below(p > 100 ? 16 : 30)), p, "dense"); }
SCENARIO(products, 1200, 90000) { uint64_t p = pr(R); F a(Fp(1 + R.next() % (p - 1), p)); unsigned k = 1 + R.below(6); for (unsigned i = 0; i < k && a.deg(0) < 25; ++i) a = mul(a, pwf(fp(R, p, 1 + R.below(4)), R.chance(1, 2) ? 1 : 1 + R.below(4), p), p); run(R, a, p, "products"); }
// multiplicities that are multiples of the characteristic, nested p-th powers
SCENARIO(pth_powers, 900, 60000) { static const unsigned ps[] = {2, 2, 3, 3, 5, 7}; unsigned p = ps[R.below(6)]; F a(Fp(1 + R.next() % (p - 1), p)); unsigned k = 1 + R.below(3); for (unsigned i = 0; i < k && a.deg(0) < 40; ++i) { F g = fp(R, p, 1 + R.below(3)); unsigned e = 1 + R.below(3); for (unsigned j = R.below(3); j; --j) e *= p; if (g.deg(0) * e + a.deg(0) > 90) e = p; a = mul(a, pwf(g, e, p), p); } if (R.chance(1, 3)) a = frob(a.deg(0) < 30 ? a : fp(R, p, 4), p); run(R, a, p, "p-th powers"); }
// all elements of small fields as roots, x^(p^d)-x, all irreducibles of one degree
SCENARIO(field_equations, 200, 6000) { uint64_t p = tiny(R); unsigned d = 1, n = (unsigned)p; while (n * p <= 64 && R.chance(1, 2)) { n *= (unsigned)p; ++d; } F a = X(p, n) - X(p); if (R.chance(1, 3)) a = mul(a, fp(R, p, 3), p); if (R.chance(1, 3)) a = a + F(Fp(1, p)); run(R, a * Fp(1 + R.next() % (p - 1), p), p, "field equation"); }
SCENARIO(linear_factors, 250, 12000) { uint64_t p = gen::prime(R); F a = one(p); unsigned k = 2 + R.below(14); for (unsigned i = 0; i < k; ++i) { uint64_t r = R.chance(1, 3) ? R.below(4) : R.chance(1, 2) ? p - 1 - R.below(std::min<uint64_t>(p - 1, 4)) : R.next() % p; a = mul(a, X(p) - F(Fp(r, p)), p); } run(R, a, p, "linear factors"); }
SCENARIO(equal_degree, 200, 10000) { uint64_t p = pr(R); unsigned d = 1 + R.below(p > 1000 ? 3 : 6), k = 2 + R.below(4); F a = one(p); std::set<std::string> s; for (unsigned i = 0, tries = 0; i < k && tries < 300; ++tries) { F g = monic(fp(R, p, d)); if (!fl::irreducible(g, p)) continue; if (!s.insert(g.str()).second) { if (p > 5) continue; ++i; continue; } a = mul(a, g, p); ++i; } run(R, a, p, "equal degree"); }
SCENARIO(sparse, 150, 6000) { uint64_t p = pr(R); F a = X(p, 2 + R.below(60)); a = a + F(Fp(R.next() % p, p)); if (R.chance(1, 2)) a = a + X(p, 1 + R.below(20)); run(R, a, p, "sparse"); }
SCENARIO(large, 12, 600) { uint64_t p = R.chance(1, 2) ? tiny(R) : gen::odd_prime_big(R); run(R, fp(R, p, 60 + R.below(60)), p, "large"); }
SCENARIO(constants, 100, 1000) { uint64_t p = gen::prime(R); run(R, F(Fp(1 + R.next() % (p - 1), p)), p, "constants"); run(R, fp(R, p, 1), p, "linear"); }
// modular powering against repeated multiplication
SCENARIO(powmod, 600, 30000) {
    uint64_t p = pr(R); F m = fp(R, p, 1 + R.below(8)), b = fp(R, p, R.below(12)); mpz_class e = R.chance(1, 2) ? mpz_class((long)R.below(40)) : gen::bigint(R, 1 + R.below(150)); vh::desc("p=" + std::to_string(p) + " base=" + b.str() + " e=" + e.get_str() + " mod " + m.str()); auto B = cv::tou<Zp>(b, p), M = cv::tou<Zp>(m, p); const auto B0 = B, M0 = M; auto r = clpoly::__upoly_powmod(B, cv::zz(e), M); ck(r, p, "powmod"); VREQ(B == B0 && M == M0, "operand-changed", "argument changed");
    fl::NP x(p), y(p), z(p); fl::put(x, b); fl::put(y, m); nmod_poly_rem(x.p, x.p, y.p); fmpz_t k; fmpz_init(k); fmpz_set_mpz(k, e.get_mpz_t()); nmod_poly_powmod_fmpz_binexp(z.p, x.p, k, y.p); fmpz_clear(k); VREQ(cv::from(r) == fl::get(z), "powmod", "got " << cv::from(r) << " expected " << fl::get(z)); auto q = clpoly::__upoly_mod(B, M); ck(q, p, "mod"); VREQ(cv::from(q) == fl::get(x), "mod", "got " << cv::from(q)); clpoly::upolynomial_<Zp> qq, rr; clpoly::__upoly_divmod(qq, rr, B, M); VREQ(cv::from(rr) == fl::get(x) && mul(cv::from(qq), m, p) + cv::from(rr) == b, "divmod", "quotient " << qq << " remainder " << rr); if (e > 1 && m.deg(0) > 1) vh::nontrivial(mdl::hash(b) * 31 + mdl::hash(m) + p);
}
