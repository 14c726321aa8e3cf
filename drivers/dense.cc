#include "gcdops.hh"
#include <clpoly/dense_upoly_zp.hh>
using namespace ring; typedef std::vector<uint64_t> V; typedef clpoly::dense_upoly_zp D;
struct N { nmod_poly_t p; uint64_t m; explicit N(uint64_t q) : m(q) { nmod_poly_init(p, q); } ~N() { nmod_poly_clear(p); } N(const N&) = delete; void set(const V& v) { nmod_poly_zero(p); for (size_t i = v.size(); i-- > 0;) nmod_poly_set_coeff_ui(p, i, v[i]); } V get() const { V r(nmod_poly_length(p)); for (size_t i = 0; i < r.size(); ++i) r[i] = nmod_poly_get_coeff_ui(p, i); return r; } };
static std::string show(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 60; ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + (v.size() > 60 ? ",...] len " + std::to_string(v.size()) : "]"); }
static clpoly::upolynomial_<Zp> sp(const V& v, uint64_t p) { clpoly::upolynomial_<Zp> r; for (size_t i = v.size(); i-- > 0;) if (v[i]) r.data().push_back({clpoly::umonomial((int64_t)i), Zp((uint64_t)v[i], p)}); return r; }
static D mk(const V& v, uint64_t p) { return D(sp(v, p), p); }
static V get(const D& d, uint64_t p, const char* w) { VREQ(d.prime() == p, std::string("prime:") + w, w << ": modulus " << d.prime()); V r; for (size_t i = 0; i < d.size(); ++i) r.push_back(d[i]); VREQ(r.empty() || r.back() != 0, std::string("normalised:") + w, w << ": leading zero kept"); for (auto x : r) VREQ(x < p, std::string("reduced:") + w, w << ": coefficient " << x << " not reduced"); VREQ(d.deg() == (int64_t)r.size() - 1 && d.empty() == r.empty() && d.lead() == (r.empty() ? 0 : r.back()) && d[r.size()] == 0 && d[r.size() + 100] == 0, std::string("queries:") + w, w << ": deg/lead/empty"); return r; }
static V rv(Rng& R, uint64_t p, size_t n) { V v(n); unsigned st = R.below(5); for (auto& x : v) switch (st) { case 0: x = p - 1; break; case 1: x = R.chance(3, 4) ? 0 : R.next() % p; break; case 2: x = R.chance(1, 2) ? p - 1 - R.below(std::min<uint64_t>(p - 1, 3)) : R.below(std::min<uint64_t>(p, 3)); break; default: x = R.next() % p; } while (!v.empty() && !v.back()) v.back() = st == 0 ? 1 : R.next() % p; return v; }
static uint64_t pr(Rng& R) { return R.chance(1, 3) ? gen::odd_prime_big(R) : gen::prime(R); }
static V fmul(const V& a, const V& b, uint64_t p) { N x(p), y(p), z(p); x.set(a); y.set(b); nmod_poly_mul(z.p, x.p, y.p); return z.get(); }
static V fadd(const V& a, const V& b, uint64_t p) { N x(p), y(p), z(p); x.set(a); y.set(b); nmod_poly_add(z.p, x.p, y.p); return z.get(); }
static V slow(const V& a, const V& b, uint64_t p) { if (a.empty() || b.empty()) return V(); V r(a.size() + b.size() - 1); for (size_t k = 0; k < r.size(); ++k) { unsigned __int128 s = 0; for (size_t i = k < b.size() ? 0 : k - b.size() + 1; i < a.size() && i <= k; ++i) s = (s + (unsigned __int128)a[i] * b[k - i] % p) % p; r[k] = (uint64_t)s; } while (!r.empty() && !r.back()) r.pop_back(); return r; }
#define EQ(got, want, w) do { V g__ = get(got, p, w); const V w__ = want; VREQ(g__ == w__, w, w << ": got " << show(g__) << " expected " << show(w__)); } while (0)
static void pairops(Rng& R, const V& a, const V& b, uint64_t p, bool withgcd) {
    vh::desc("p=" + std::to_string(p) + " A=" + show(a) + " B=" + show(b)); const D A = mk(a, p), B = mk(b, p); EQ(A, a, "from-sparse"); EQ(B, b, "from-sparse"); VREQ(A.to_upoly() == sp(a, p), "to-sparse", "to_upoly"); auto why = cv::canon(A.to_upoly()); VREQ(why.empty(), "canonical", why); N x(p), y(p), z(p), w(p); x.set(a); y.set(b); D C(R.chance(1, 2) ? p : 7); if (R.chance(1, 2)) C = mk(rv(R, p, R.below(40)), p); // outputs hold old values
    D::add(C, A, B); nmod_poly_add(z.p, x.p, y.p); EQ(C, z.get(), "add"); D::sub(C, A, B); nmod_poly_sub(z.p, x.p, y.p); EQ(C, z.get(), "sub"); D::mul(C, A, B); nmod_poly_mul(z.p, x.p, y.p); EQ(C, z.get(), "mul"); if (a.size() * b.size() < 3000) EQ(C, slow(a, b, p), "mul-schoolbook"); if (std::max(a.size(), b.size()) >= 16) vh::event("products above the Karatsuba threshold");
    { D T = A; switch (R.below(7)) { case 0: D::add(T, T, B); nmod_poly_add(z.p, x.p, y.p); break; case 1: D::add(T, B, T); nmod_poly_add(z.p, x.p, y.p); break; case 2: D::sub(T, T, B); nmod_poly_sub(z.p, x.p, y.p); break; case 3: D::sub(T, B, T); nmod_poly_sub(z.p, y.p, x.p); break; case 4: D::mul(T, T, B); nmod_poly_mul(z.p, x.p, y.p); break; case 5: D::mul(T, T, T); nmod_poly_mul(z.p, x.p, x.p); break; default: D::sub(T, T, T); nmod_poly_zero(z.p); } EQ(T, z.get(), "aliased"); }
    { D T = A; uint64_t c = R.chance(1, 4) ? R.below(std::min<uint64_t>(p, 3)) : R.chance(1, 3) ? p - 1 : R.next() % p; T.scalar_mul(c); nmod_poly_scalar_mul_nmod(z.p, x.p, c); EQ(T, z.get(), "scalar-mul"); }
    if (!b.empty()) { D Q(p), S(p); if (R.chance(1, 2)) { Q = mk(rv(R, p, R.below(30)), p); S = mk(rv(R, p, R.below(30)), p); } D::divrem(Q, S, A, B); nmod_poly_divrem(z.p, w.p, x.p, y.p); EQ(Q, z.get(), "quotient"); EQ(S, w.get(), "remainder"); V q = get(Q, p, "quotient"), r = get(S, p, "remainder"); VREQ(r.size() < b.size(), "remainder-degree", "remainder too long"); VREQ(fadd(fmul(q, b, p), r, p) == a, "division-identity", "q*b+r is not a"); D T = A, U = B, W(p); switch (R.below(4)) { case 0: D::divrem(T, W, T, B); EQ(T, q, "aliased-quotient"); EQ(W, r, "aliased-remainder"); break; case 1: D::divrem(W, T, T, B); EQ(T, r, "aliased-remainder"); EQ(W, q, "aliased-quotient"); break; case 2: D::divrem(U, W, A, U); EQ(U, q, "aliased-quotient"); EQ(W, r, "aliased-remainder"); break; default: D::divrem(T, U, T, U); EQ(T, q, "aliased-quotient"); EQ(U, r, "aliased-remainder"); } if (a.size() >= b.size()) vh::event("divisions with a non-trivial quotient"); }
    if (withgcd) { D G(p); if (R.chance(1, 2)) G = mk(rv(R, p, R.below(30)), p); D::gcd(G, A, B); V g = get(G, p, "gcd"); nmod_poly_gcd(z.p, x.p, y.p); V e = z.get(); VREQ(g.size() == e.size(), "gcd-degree", "gcd has length " << g.size() << ", expected " << e.size()); if (!g.empty()) { uint64_t i = nmod_inv(g.back(), x.p->mod); for (auto& k : g) k = (uint64_t)((unsigned __int128)k * i % p); } VREQ(g == e, "gcd", "gcd is " << show(g) << " expected " << show(e)); D T = A; if (R.chance(1, 2)) D::gcd(T, T, B); else { T = B; D::gcd(T, A, T); } V t = get(T, p, "gcd-aliased"); if (!t.empty()) { uint64_t i = nmod_inv(t.back(), x.p->mod); for (auto& k : t) k = (uint64_t)((unsigned __int128)k * i % p); } VREQ(t == e, "gcd-aliased", "aliased gcd is " << show(t)); if (std::min(a.size(), b.size()) >= 340) vh::event("gcds above the half-gcd threshold"); if (e.size() > 1) vh::event("gcds of positive degree"); }
    EQ(A, a, "operand-changed"); EQ(B, b, "operand-changed"); if (a.size() > 1 && b.size() > 1) { uint64_t h = p; for (auto k : a) h = h * 1000003 + k; for (auto k : b) h = h * 1000033 + k; vh::nontrivial(h); } vh::event_max("length", std::max(a.size(), b.size())); vh::event(p >> 63 ? "prime 64 bits" : p >> 32 ? "prime 33..63 bits" : p > 100 ? "prime up to 32 bits" : "prime below 100"); vh::sample("p=" + std::to_string(p) + " lengths " + std::to_string(a.size()) + "," + std::to_string(b.size()));
}
SCENARIO(small, 6000, 400000) { uint64_t p = pr(R); V a = rv(R, p, R.below(14)), b = rv(R, p, R.below(14)); switch (R.below(6)) { case 0: { V g = rv(R, p, R.below(8)); a = fmul(a, g, p); b = fmul(b, g, p); break; } case 1: b = a; break; case 2: { b = a; for (auto& x : b) x = x ? p - x : 0; break; } case 3: b = fmul(a, b, p); break; default:; } pairops(R, a, b, p, true); }
// every length around the thresholds, balanced and unbalanced
SCENARIO(thresholds, 1500, 80000) { uint64_t p = pr(R); static const unsigned c[] = {15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 99, 100, 101, 127, 128, 129}; auto sz = [&]() -> size_t { return R.chance(1, 3) ? R.below(150) : c[R.below(16)] + R.below(3); }; size_t n = sz(), m = R.chance(1, 4) ? 1 + R.below(6) : R.chance(1, 2) ? n + R.below(3) : sz(); V a = rv(R, p, n), b = rv(R, p, m); if (R.chance(1, 2)) std::swap(a, b); pairops(R, a, b, p, R.chance(1, 2)); }
SCENARIO(lengths_exhaustive, 1200, 20000) { uint64_t p = R.chance(1, 2) ? 18446744073709551557ull : pr(R); size_t n = 1 + R.below(40), m = 1 + R.below(40); pairops(R, V(n, p - 1), V(m, p - 1), p, true); }
// pairs with a prescribed Euclidean quotient degree sequence: abnormal remainder sequences
static std::pair<V, V> euclid(Rng& R, uint64_t p, size_t target, const V& g) { V a = g, b; unsigned style = R.below(6); while (a.size() < target) { size_t d; switch (style) { case 0: d = 1; break; case 1: d = 1 + R.below(3); break; case 2: d = R.chance(1, 8) ? 1 + R.below(60) : 1; break; case 3: d = 1 + R.below(40); break; case 4: d = R.chance(1, 20) ? 1 + R.below(target) : 1 + R.below(2); break; default: d = 1 + R.below(1 + target / 3); } V q = rv(R, p, d + 1); V n = fadd(fmul(q, a, p), b, p); b = a; a = n; } return {a, b}; }
SCENARIO(remainder_sequences, 700, 30000) { uint64_t p = pr(R); V g = rv(R, p, 1 + R.below(R.chance(1, 3) ? 60 : 5)); if (g.empty()) g = {1}; auto q = euclid(R, p, 5 + R.below(200), g); pairops(R, q.first, q.second, p, true); }
SCENARIO(half_gcd, 260, 12000) { uint64_t p = R.chance(1, 4) ? (R.chance(1, 2) ? 2 : 3) : pr(R); size_t t; switch (R.below(4)) { case 0: t = 341 + R.below(6); break; case 1: t = 345 + R.below(60); break; case 2: t = 400 + R.below(300); break; default: t = 680 + R.below(500); } V g = rv(R, p, 1 + R.below(R.chance(1, 2) ? 3 : R.chance(1, 2) ? 120 : 400)); if (g.empty()) g = {1}; auto q = euclid(R, p, t, g); V a = q.first, b = q.second; if (R.chance(1, 4)) { V c = rv(R, p, 1 + R.below(200)); if (!c.empty()) a = fadd(fmul(c, b, p), R.chance(1, 2) ? a : V(), p); } if (R.chance(1, 2)) std::swap(a, b); pairops(R, a, b, p, true); }
SCENARIO(half_gcd_planted, 120, 5000) { uint64_t p = R.chance(1, 4) ? 2 + R.below(2) : pr(R); V g = rv(R, p, R.below(500)), a = rv(R, p, 200 + R.below(400)), b = rv(R, p, 200 + R.below(400)); if (g.empty()) g = {1}; if (R.chance(1, 4)) b = fadd(a, rv(R, p, 1 + R.below(20)), p); if (R.chance(1, 6)) { a.assign(341 + R.below(400), 0); a.back() = 1; a[0] = p - 1; b.assign(341 + R.below(400), 0); b.back() = 1; b[0] = p - 1; } pairops(R, fmul(a, g, p), fmul(b, g, p), p, true); }
// gcd(0,.), constants, equal polynomials, exact multiples at large sizes
SCENARIO(degenerate, 300, 10000) { uint64_t p = pr(R); size_t n = R.chance(1, 3) ? 300 + R.below(200) : R.below(20); V a = rv(R, p, n), b; switch (R.below(4)) { case 0: b = V(); break; case 1: b = V{1 + R.next() % (p - 1)}; break; case 2: b = a; break; default: b = fmul(a, rv(R, p, R.below(300)), p); } if (R.chance(1, 2)) std::swap(a, b); pairops(R, a, b, p, true); }
// word arithmetic
SCENARIO(words, 3000, 200000) { uint64_t p = pr(R); D d(p); vh::desc("p=" + std::to_string(p)); for (int i = 0; i < 40; ++i) { auto v = [&]() -> uint64_t { switch (R.below(4)) { case 0: return R.below(std::min<uint64_t>(p, 4)); case 1: return p - 1 - R.below(std::min<uint64_t>(p, 4)); default: return R.next() % p; } }; uint64_t a = v(), b = v(); VREQ(d.nmod_mul(a, b) == (uint64_t)((unsigned __int128)a * b % p), "nmod-mul", a << "*" << b << " mod " << p << " gave " << d.nmod_mul(a, b)); if (a) { uint64_t i = d.nmod_inv(a); VREQ(i < p && (unsigned __int128)a * i % p == 1 % p, "nmod-inv", "inverse of " << a << " mod " << p << " gave " << i); } } vh::nontrivial(R.next()); }
// the rarest branch of the word reduction, seen through every polynomial operation that uses it
SCENARIO(reduction_corrections, 300, 15000) { uint64_t p, a, b; bool hit = gen::hard_product(R, p, a, b); if (!hit) { vh::event("searches without a hard product"); return; } vh::event("products needing the second correction"); size_t n = R.below(30); V A = rv(R, p, R.below(12)), B; uint64_t m = (uint64_t)((unsigned __int128)a * b % p); vh::desc("p=" + std::to_string(p) + " a=" + std::to_string(a) + " b=" + std::to_string(b)); D d(p); VREQ(d.nmod_mul(a, b) == m && d.nmod_mul(b, a) == m, "nmod-mul", a << "*" << b << " mod " << p << " gave " << d.nmod_mul(a, b));
    pairops(R, V{a}, V{b}, p, true); V x(n + 1, 0), y(1 + R.below(4), 0); x[n] = a; y.back() = b; pairops(R, x, y, p, false); if (a) { B = A; B.push_back(a); pairops(R, B, V{b}, p, true); uint64_t i = nmod_inv(b, N(p).p->mod); pairops(R, B, V{i ? i : 1}, p, true); pairops(R, fmul(B, V{i ? i : 1, 1}, p), V{i ? i : 1, 1}, p, true); }
    for (size_t k = 0; k < 20; ++k) A.push_back(R.chance(1, 2) ? a : gen::near(R, p)); A.push_back(a); D T = mk(A, p); T.scalar_mul(b); V w = A; for (auto& k : w) k = (uint64_t)((unsigned __int128)k * b % p); while (!w.empty() && !w.back()) w.pop_back(); EQ(T, w, "scalar-mul"); vh::nontrivial(a ^ b ^ p); }
// histories on registers holding sparse and dense copies
SCENARIO(histories, 500, 30000) { uint64_t p = pr(R); std::vector<D> r; std::vector<V> m; for (int i = 0; i < 4; ++i) { m.push_back(rv(R, p, R.below(12))); r.push_back(mk(m.back(), p)); } std::string log = "p=" + std::to_string(p); for (int s = 0; s < 25; ++s) { size_t i = R.below(4), j = R.below(4), k = R.below(4), l = R.below(4); unsigned op = R.below(7); log += " op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ")"; vh::desc(log + " j=" + show(m[j]) + " k=" + show(m[k])); N x(p), y(p), z(p), w(p); x.set(m[j]); y.set(m[k]); switch (op) { case 0: D::add(r[i], r[j], r[k]); nmod_poly_add(z.p, x.p, y.p); m[i] = z.get(); break; case 1: D::sub(r[i], r[j], r[k]); nmod_poly_sub(z.p, x.p, y.p); m[i] = z.get(); break; case 2: if (m[j].size() + m[k].size() > 400) break; D::mul(r[i], r[j], r[k]); nmod_poly_mul(z.p, x.p, y.p); m[i] = z.get(); break; case 3: if (m[k].empty() || i == l) break; D::divrem(r[i], r[l], r[j], r[k]); nmod_poly_divrem(z.p, w.p, x.p, y.p); m[i] = z.get(); m[l] = w.get(); EQ(r[l], m[l], "history"); break; case 4: r[i] = r[j]; m[i] = V(m[j]); break; case 5: r[i] = D(r[j].to_upoly(), p); m[i] = V(m[j]); break; default: { D t(std::move(r[i])); r[i] = mk(m[i] = rv(R, p, R.below(30)), p); } } EQ(r[i], m[i], "history"); } for (size_t i = 0; i < 4; ++i) EQ(r[i], m[i], "history-end"); vh::nontrivial(vh::hash_str(log)); }
