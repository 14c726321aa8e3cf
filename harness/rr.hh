// P23 / P24 oracle: exact real root counting by Sturm sequences over the rationals (own implementation, GMP only).
#ifndef RR_HH
#define RR_HH
#include "vh.hh"
#include "gen.hh"
#include "conv.hh"
#include <clpoly/realroot.hh>
#include <algorithm>
#include <set>
namespace rr {
using clpoly::ZZ; using clpoly::QQ; using clpoly::uroot; using vh::Rng;
typedef std::vector<mpz_class> U; typedef std::vector<mpq_class> UQ; // dense, constant term first
typedef clpoly::upolynomial_<ZZ> LP;
inline void trim(U& f) { while (!f.empty() && f.back() == 0) f.pop_back(); }
inline U mul(const U& a, const U& b) { if (a.empty() || b.empty()) return U(); U r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
inline U add(const U& a, const U& b) { U r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] += b[i]; trim(r); return r; }
inline U scale(U a, const mpz_class& k) { for (auto& c : a) c *= k; trim(a); return a; }
inline U upow(const U& a, unsigned k) { U r{1}; while (k--) r = mul(r, a); return r; }
inline U diff(const U& a) { U r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * (unsigned long)i); trim(r); return r; }
inline U prim(U a) { trim(a); mpz_class g = 0; for (auto& c : a) g = gcd(g, c); if (g != 0) for (auto& c : a) c /= g; return a; }
inline U srem(U a, const U& b) { while (a.size() >= b.size() && !a.empty()) { mpz_class l = abs(b.back()), c = a.back() * sgn(b.back()); size_t s = a.size() - b.size(); for (auto& x : a) x *= l; for (size_t i = 0; i < b.size(); ++i) a[i + s] -= c * b[i]; trim(a); a = prim(a); } return a; } // positive multiple of the remainder
inline U gcd_u(U a, U b) { a = prim(a); b = prim(b); while (!b.empty()) { U r = srem(a, b); a = b; b = r; } if (!a.empty() && a.back() < 0) a = scale(a, -1); return a; }
inline U exquo(U a, const U& b) { // exact division up to a constant
    UQ x(a.begin(), a.end()); UQ q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0); for (size_t s = q.size(); s-- > 0;) { q[s] = x[s + b.size() - 1] / mpq_class(b.back()); for (size_t i = 0; i < b.size(); ++i) x[s + i] -= q[s] * b[i]; } mpz_class l = 1; for (auto& c : q) { c.canonicalize(); l = lcm(l, c.get_den()); } U r; for (auto& c : q) { mpq_class d = c * l; r.push_back(d.get_num()); } return prim(r); }
inline U sqfree(const U& a) { if (a.size() <= 1) return a; return exquo(a, gcd_u(a, diff(a))); }
inline mpq_class value(const U& f, const mpq_class& x) { mpq_class r = 0; for (size_t i = f.size(); i-- > 0;) r = r * x + f[i]; return r; }
inline int sign(const U& f, const mpq_class& x) { return sgn(value(f, x)); }
struct Sturm { std::vector<U> s; Sturm() {} explicit Sturm(const U& f) { U a = sqfree(prim(f)); if (a.size() <= 1) return; s.push_back(a); s.push_back(prim(diff(a))); while (s.back().size() > 1) { U r = srem(s[s.size() - 2], s.back()); if (r.empty()) break; s.push_back(scale(r, -1)); } }
    const U& f() const { return s[0]; } bool none() const { return s.empty(); }
    int var(const mpq_class& x) const { int v = 0, l = 0; for (auto& p : s) { int g = sign(p, x); if (g && l && g != l) ++v; if (g) l = g; } return v; }
    int inf(bool pos) const { int v = 0, l = 0; for (auto& p : s) { int g = sgn(p.back()); if (!pos && !(p.size() & 1)) g = -g; if (g && l && g != l) ++v; if (g) l = g; } return v; }
    int all() const { return none() ? 0 : inf(false) - inf(true); }
    int open(const mpq_class& a, const mpq_class& b) const { if (none() || !(a < b)) return 0; return var(a) - var(b) - (sign(f(), b) == 0); }
    int below(const mpq_class& a) const { return none() ? 0 : inf(false) - var(a) - (sign(f(), a) == 0); } // roots < a
    bool at(const mpq_class& a) const { return !none() && sign(f(), a) == 0; }
    int in(const mpq_class& a, const mpq_class& b) const { return a == b ? (int)at(a) : open(a, b); } };
// a real algebraic number: the only root of f in the open interval (a,b), or the point a when a == b
struct Alg { Sturm s; mpq_class a, b; void half() { if (a == b) return; mpq_class m = (a + b) / 2; if (s.at(m)) { a = b = m; return; } if (s.open(a, m)) b = m; else a = m; } };
inline std::vector<Alg> isolate(const U& f) { std::vector<Alg> r; Sturm s(f); if (s.none()) return r; mpz_class B = 0; for (auto& c : s.f()) B = std::max<mpz_class>(B, abs(c)); B = B / abs(s.f().back()) + 2; struct J { mpq_class a, b; }; std::vector<J> st{{mpq_class(-B), mpq_class(B)}}; while (!st.empty()) { J j = st.back(); st.pop_back(); int n = s.open(j.a, j.b); if (!n) continue; if (n == 1) { r.push_back({s, j.a, j.b}); continue; } mpq_class m = (j.a + j.b) / 2; st.push_back({m, j.b}); st.push_back({j.a, m}); if (s.at(m)) r.push_back({s, m, m}); } std::sort(r.begin(), r.end(), [](const Alg& x, const Alg& y) { return x.a < y.a || (x.a == y.a && x.b < y.b); }); return r; }
// -1, 0, 1 for x <, =, > y
inline int cmp(Alg x, Alg y) { U g = gcd_u(x.s.f(), y.s.f()); Sturm G(g); for (int it = 0;; ++it) { if (x.a == x.b && y.a == y.b) return x.a < y.a ? -1 : x.a > y.a; if (x.b <= y.a && !(x.a == x.b && y.a == y.b)) return -1; if (y.b <= x.a && !(x.a == x.b && y.a == y.b)) return 1; if (!G.none()) { mpq_class lo = std::max(x.a, y.a), hi = std::min(x.b, y.b); if (lo < hi && G.open(lo, hi)) return 0; if (x.a == x.b && y.s.at(x.a) && y.a < x.a && x.a < y.b) return 0; if (y.a == y.b && x.s.at(y.a) && x.a < y.a && y.a < x.b) return 0; } if (it > 20000) throw vh::Inconclusive{"root comparison"}; x.half(); y.half(); } }
inline int cmp(Alg x, const mpq_class& q) { for (int it = 0;; ++it) { if (x.a == x.b) return x.a < q ? -1 : x.a > q; if (q <= x.a) return 1; if (q >= x.b) return -1; if (x.s.at(q)) return 0; if (it > 20000) throw vh::Inconclusive{"root comparison"}; x.half(); } }
inline bool is_root(const U& f, const Alg& x) { if (f.size() <= 1) return f.empty(); if (x.a == x.b) return sign(f, x.a) == 0; U g = gcd_u(f, x.s.f()); return Sturm(g).open(x.a, x.b) > 0; }
inline unsigned mult(U f, const Alg& x) { unsigned m = 0; while (f.size() > 1 && is_root(f, x)) { ++m; f = gcd_u(f, diff(f)); } return m; }
inline LP lib(const U& f) { LP r; for (size_t i = f.size(); i-- > 0;) if (f[i] != 0) r.push_back(std::make_pair(clpoly::umonomial((int64_t)i), cv::zz(f[i]))); return r; }
inline U take(const LP& p) { U r; int64_t last = -1; for (auto& t : p.data()) { int64_t d = t.first.deg(); VREQ(d >= 0 && (last < 0 || d < last) && t.second, "canonical:upoly", "polynomial is not in normal form: " << p); last = d; if (r.size() <= (size_t)d) r.resize(d + 1, 0); r[d] = cv::mz(t.second); } return r; }
inline std::string str(const U& f) { std::string s; for (size_t i = f.size(); i-- > 0;) if (f[i] != 0) s += (f[i] > 0 ? "+" : "") + f[i].get_str() + (i ? "x^" + std::to_string(i) : ""); return s.empty() ? "0" : s; }
inline U lin(const mpq_class& q) { return U{-q.get_num(), q.get_den()}; }
inline mpq_class dyadic(Rng& R, unsigned bits = 6) { mpz_class d = mpz_class(1) << (unsigned)R.below(bits + 1); mpq_class q(mpz_class(R.range(-40, 40)), d); q.canonicalize(); return q; }
inline mpq_class rat(Rng& R) { if (R.chance(1, 2)) return dyadic(R); mpq_class q(mpz_class(R.range(-30, 30)), mpz_class(R.range(1, 12))); q.canonicalize(); return q; }
inline U rnd(Rng& R, unsigned deg, unsigned cls) { U f(deg + 1, 0); for (auto& c : f) c = R.chance(1, 4) ? mpz_class(0) : cls == 0 ? mpz_class(R.range(-5, 5)) : cls == 1 ? mpz_class(R.range(-1000, 1000)) : gen::bigint(R, 20 + R.below(160)) * (R.chance(1, 2) ? 1 : -1); if (f.back() == 0) f.back() = R.chance(1, 2) ? 1 : -3; return f; }
// one factor: few real roots of a special kind
inline U factor(Rng& R) { switch (R.below(12)) {
    case 0: return U{0, 1}; case 1: case 2: return lin(dyadic(R)); case 3: return lin(rat(R)); case 4: { mpz_class n = R.range(1, 40); return U{-n, 0, 1}; }
    case 5: { mpz_class k = gen::bigint(R, 1 + R.below(60)) + 2; mpq_class q = rat(R); U l = mul(lin(q), U{k}); return mul(l, add(l, U{mpz_class(R.chance(1, 2) ? 1 : -1)})); } // two roots 1/k apart
    case 6: { unsigned n = 3 + R.below(4); mpz_class a = gen::bigint(R, 2 + R.below(12)) + 2; U f(n + 1, 0); f[n] = 1; return add(f, scale(upow(U{-1, a}, 2), -2)); } // Mignotte
    case 7: { U c0{1}, c1{0, 1}; unsigned n = 2 + R.below(6); for (unsigned i = 1; i < n; ++i) { U t = add(scale(mul(U{0, 1}, c1), 2), scale(c0, -1)); c0 = c1; c1 = t; } return c1; } // Chebyshev
    case 8: return add(upow(lin(rat(R)), 2), U{mpz_class(R.range(1, 3))}); // no real root
    case 9: { U f = upow(lin(dyadic(R, 3)), 2); return add(scale(f, gen::bigint(R, 1 + R.below(50)) + 1), U{mpz_class(-R.range(1, 3))}); } // pair close around a dyadic point
    case 10: { U f{-gen::bigint(R, 1 + R.below(100)) - 1, 0, 0, 1}; if (R.chance(1, 2)) f[1] = R.range(-50, 50); return f; }
    default: return rnd(R, 1 + R.below(6), R.below(3)); } }
inline U product(Rng& R, unsigned maxdeg, unsigned maxf) { U f{mpz_class(R.chance(1, 3) ? R.range(-6, 6) : 1)}; if (f[0] == 0) f[0] = -1; unsigned k = 1 + R.below(maxf); for (unsigned i = 0; i < k; ++i) { U g = factor(R); if (R.chance(1, 6)) g = upow(g, 2 + R.below(2)); if (f.size() + g.size() - 2 > maxdeg) continue; f = mul(f, g); } trim(f); return f; }
inline U squarefree_product(Rng& R, unsigned maxdeg, unsigned maxf) { U f = sqfree(product(R, maxdeg, maxf)); if (R.chance(1, 3)) f = scale(f, mpz_class(R.chance(1, 2) ? -1 : R.range(2, 9))); return f; }
// ------------------------------------------------------------------ P23
struct Iv { mpq_class a, b; };
inline std::string show(const std::vector<Iv>& v) { std::string s; for (auto& i : v) s += "[" + i.a.get_str() + "," + i.b.get_str() + "] "; return s; }
// sorted, disjoint, each isolating exactly one root of all; none missing
inline void isolating(const std::vector<Iv>& v, const U& all, const char* w) { Sturm s(all); std::string k(w); for (size_t i = 0; i < v.size(); ++i) { VREQ(v[i].a <= v[i].b, "inverted:" + k, "interval " << i << " is inverted: " << show(v)); if (i) VREQ(v[i - 1].b <= v[i].a && (v[i - 1].b < v[i].a || v[i - 1].a < v[i - 1].b || v[i].a < v[i].b), "overlap:" + k, "intervals overlap or are out of order: " << show(v)); int n = s.in(v[i].a, v[i].b); VREQ(n == 1, "not-isolating:" + k, "interval [" << v[i].a << "," << v[i].b << "] contains " << n << " roots; all: " << show(v)); } VREQ((int)v.size() == s.all(), "count:" + k, v.size() << " intervals for " << s.all() << " real roots: " << show(v)); vh::event("roots isolated", v.size()); for (auto& i : v) if (i.a == i.b) vh::event("exact points"); }
inline Iv iv(const QQ& a, const QQ& b) { return {cv::mq(a), cv::mq(b)}; }
inline void realroot_case(Rng& R, bool big) {
    std::vector<U> F; unsigned n = 1 + R.below(4); std::vector<U> pool; for (unsigned i = 0; i < 3; ++i) pool.push_back(factor(R)); for (unsigned i = 0; i < n; ++i) { U f = product(R, big ? 14 : 8, 3); if (R.chance(1, 2)) { U g = pool[R.below(3)]; if (R.chance(1, 4)) g = upow(g, 2); if (f.size() + g.size() < (big ? 18u : 12u)) f = mul(f, g); } F.push_back(f); } if (R.chance(1, 10)) F.push_back(F[R.below(F.size())]); if (R.chance(1, 10)) F.push_back(scale(F[0], -1)); if (R.chance(1, 10)) F.push_back(U{mpz_class(R.range(1, 5))}); 
    std::string d = "realroot"; for (auto& f : F) d += " ; " + str(f); vh::desc(d); cv::vars(3); std::vector<clpoly::polynomial_ZZ> L; unsigned xi = R.below(3); for (auto& f : F) { mdl::Z m; for (size_t i = 0; i < f.size(); ++i) { mdl::Exp e(xi + 1, 0); e[xi] = (uint32_t)i; m.add_term(e, f[i]); } L.push_back(cv::to<ZZ, clpoly::grlex>(m)); } const auto L0 = L; auto W = clpoly::realroot(L); VREQ(L == L0, "operand-changed", "list changed");
    VREQ(W.first.size() == W.second.size(), "size", "roots and multiplicity vectors differ in number"); std::vector<Iv> v; U all{1}; for (auto& f : F) if (f.size() > 1) all = sqfree(mul(all, sqfree(f))); std::vector<U> ps; for (auto& r : W.first) { VREQ(!r.isinf() && !r.isneginf(), "infinite", "an isolated root is infinite"); v.push_back(iv(r.left(), r.right())); ps.push_back(take(r.poly())); } isolating(v, all, "realroot"); Sturm SA(all);
    for (size_t i = 0; i < v.size(); ++i) { Sturm sp(ps[i]); VREQ(sp.in(v[i].a, v[i].b) == 1, "poly:realroot", "defining polynomial " << str(ps[i]) << " has " << sp.in(v[i].a, v[i].b) << " roots in its interval"); Alg al{SA, v[i].a, v[i].b}; VREQ(is_root(ps[i], al), "wrong-poly:realroot", "the defining polynomial " << str(ps[i]) << " does not vanish at the root"); std::map<uint64_t, uint64_t> got; for (auto& m : W.second[i]) { VREQ(m.first < F.size(), "index:realroot", "multiplicity refers to polynomial " << m.first); VREQ(!got.count(m.first), "index:realroot", "polynomial listed twice"); got[m.first] = m.second; } for (size_t j = 0; j < F.size(); ++j) { unsigned e = F[j].size() > 1 ? mult(F[j], al) : 0; VREQ(got.count(j) ? got[j] == e && e : e == 0, "multiplicity:realroot", "root in [" << v[i].a << "," << v[i].b << "] has multiplicity " << e << " in polynomial " << j << ", reported " << (got.count(j) ? got[j] : 0)); if (e > 1) vh::event("multiple roots"); } if (got.size() > 1) vh::event("shared roots"); }
    // refinement keeps the root
    for (size_t i = 0; i < W.first.size(); ++i) if (R.chance(1, 2)) { Alg al{SA, v[i].a, v[i].b}; uroot u = W.first[i]; mpq_class w = v[i].b - v[i].a; for (int k = 0; k < 12; ++k) { u.shrinkinterval(); Iv c = iv(u.left(), u.right()); VREQ(c.a <= c.b && c.a >= v[i].a && c.b <= v[i].b, "refine-escape", "refined interval [" << c.a << "," << c.b << "] leaves [" << v[i].a << "," << v[i].b << "]"); VREQ(c.b - c.a <= w / 2, "refine-width", "refinement does not halve the interval"); VREQ(SA.in(c.a, c.b) == 1, "refine-lost", "refined interval [" << c.a << "," << c.b << "] of [" << v[i].a << "," << v[i].b << "] contains " << SA.in(c.a, c.b) << " roots"); w = c.b - c.a; vh::event("refinement steps"); if (u.is_single()) { VREQ(c.a == c.b, "single", "is_single disagrees"); break; } } }
    vh::event_max("roots", v.size()); if (v.size() > 1) vh::nontrivial(vh::hash_str(d)); vh::sample(vh::clip(d, 250) + " -> " + vh::clip(show(v), 200));
}
inline void uspensky_case(Rng& R) { U f = squarefree_product(R, 14, 4); vh::desc("uspensky " + str(f)); auto l = clpoly::uspensky(lib(f)); std::vector<Iv> v; for (auto& i : l) v.push_back(iv(i.first, i.second)); isolating(v, f, "uspensky"); if (v.size() > 1) vh::nontrivial(vh::hash_str(str(f))); }
inline void uspensky_list_case(Rng& R) { std::vector<U> F; U all{1}; unsigned n = 1 + R.below(4); for (unsigned i = 0; i < n; ++i) { if (R.chance(1, 10)) { F.push_back(U{mpz_class(R.range(1, 4))}); continue; } U f = squarefree_product(R, 8, 3); U g = gcd_u(f, all); if (g.size() > 1) f = exquo(f, g); F.push_back(f); all = mul(all, f); } std::string d = "uspensky list"; for (auto& f : F) d += " ; " + str(f); vh::desc(d); std::vector<LP> L; for (auto& f : F) L.push_back(lib(f)); auto W = clpoly::uspensky(L); VREQ(W.first.size() == W.second.size(), "size", "intervals and indices differ in number"); std::vector<Iv> v; for (auto& i : W.first) v.push_back(iv(i.first, i.second)); isolating(v, all, "uspensky-list"); for (size_t i = 0; i < v.size(); ++i) { VREQ(W.second[i] < F.size(), "index", "index out of range"); VREQ(Sturm(F[W.second[i]]).in(v[i].a, v[i].b) == 1, "index", "polynomial " << W.second[i] << " has no root in interval " << i << " [" << v[i].a << "," << v[i].b << "]"); } if (v.size() > 1) vh::nontrivial(vh::hash_str(d)); }
inline U compose_num(const U& f, const U& num, const U& den) { U r; size_t m = f.size() - 1; for (size_t i = 0; i < f.size(); ++i) r = add(r, scale(mul(upow(num, (unsigned)i), upow(den, (unsigned)(m - i))), f[i])); return r; }
inline bool prop(const U& a, const U& b) { if (a.size() != b.size()) return false; return a.empty() || (scale(a, b.back()) == scale(b, a.back()) && sgn(a.back()) == sgn(b.back())); }
inline void transforms_case(Rng& R) { U f = R.chance(1, 2) ? product(R, 12, 3) : rnd(R, R.below(12), R.below(3)); trim(f); if (f.empty()) f = U{1}; vh::desc("transforms " + str(f)); LP p = lib(f); unsigned v = 0; int l = 0; for (size_t i = f.size(); i-- > 0;) { int g = sgn(f[i]); if (g && l && g != l) ++v; if (g) l = g; } VREQ(clpoly::coeffsignchanges(p) == v, "sign-changes", "coeffsignchanges gives " << clpoly::coeffsignchanges(p) << ", not " << v);
    VREQ(prop(take(clpoly::_upolynomial_1toinf(p)), compose_num(f, U{1}, U{1, 1})), "1toinf", "_upolynomial_1toinf(" << str(f) << ")"); mpz_class B = R.chance(1, 2) ? mpz_class(1) << (unsigned)R.below(40) : mpz_class(R.range(-30, 30)); if (B == 0) B = 1; U s = f; mpz_class q = 1; for (auto& c : s) { c *= q; q *= B; } VREQ(take(clpoly::_upolynomial_Bto1(p, cv::zz(B))) == s, "Bto1", "_upolynomial_Bto1(" << str(f) << "," << B << ")"); VREQ(prop(take(clpoly::_upolynomial_01to012(p)), compose_num(f, U{0, 1}, U{2})), "01to012", "_upolynomial_01to012(" << str(f) << ")"); VREQ(prop(take(clpoly::_upolynomial_01to121(p)), compose_num(f, U{1, 1}, U{2})), "01to121", "_upolynomial_01to121(" << str(f) << ")");
    mpq_class a = rat(R), b = rat(R); if (f.size() > 1 && a != b) { mpz_class den = lcm(a.get_den(), b.get_den()); mpq_class x = a * den, y = b * den; VREQ(prop(take(clpoly::_upolynomial_Rtoab(p, cv::qq(a), cv::qq(b))), compose_num(f, U{y.get_num(), x.get_num()}, U{den, den})), "Rtoab", "_upolynomial_Rtoab(" << str(f) << "," << a << "," << b << ")"); }
    if (f.size() > 1) { mpz_class K = cv::mz(clpoly::RealRootBound(p)); Sturm S(f); VREQ(K > 0 && mpz_popcount(K.get_mpz_t()) == 1, "bound-power", "root bound " << K << " is not a power of two"); VREQ(S.open(mpq_class(-K), mpq_class(K)) == S.all(), "bound", "a root lies outside the bound " << K); } vh::nontrivial(vh::hash_str(str(f))); }
// ------------------------------------------------------------------ P24
struct Num { uroot u; Alg m; int inf; std::string how; };
inline uroot mkroot(const U& f, const mpq_class& a, const mpq_class& b) { return uroot(lib(f), cv::qq(a), cv::qq(b)); }
inline void sane(const Num& x, const char* w) { if (x.inf) { VREQ(x.inf > 0 ? x.u.isinf() : x.u.isneginf(), "infinity-lost", "infinity lost after " << w); return; } Iv c = iv(x.u.left(), x.u.right()); U p = take(x.u.poly()); VREQ(c.a <= c.b, "interval-inverted", "interval inverted after " << w); VREQ(is_root(p, x.m), "poly-changed", "after " << w << " the defining polynomial " << str(p) << " no longer vanishes at the number (" << x.how << ")"); if (c.a == c.b) { VREQ(cmp(x.m, c.a) == 0, "moved", "after " << w << " the number is pinned to " << c.a << " (" << x.how << ")"); return; } VREQ(cmp(x.m, c.a) > 0 && cmp(x.m, c.b) < 0, "moved", "after " << w << " the interval [" << c.a << "," << c.b << "] does not contain the number (" << x.how << ")"); VREQ(Sturm(p).open(c.a, c.b) == 1, "not-isolating", "after " << w << " the interval [" << c.a << "," << c.b << "] does not isolate one root of " << str(p)); }
inline std::vector<Num> pool(Rng& R, std::string& d) {
    std::vector<Num> P; std::vector<U> fs; U common = sqfree(factor(R)); unsigned n = 2 + R.below(3); for (unsigned i = 0; i < n; ++i) { U f = sqfree(mul(factor(R), R.chance(1, 2) ? common : factor(R))); if (f.size() > 1 && f.size() < 12) fs.push_back(f); } if (R.chance(1, 3) && common.size() > 1) fs.push_back(common); if (R.chance(1, 4) && !fs.empty()) { U f = fs[0]; f[0] += R.chance(1, 2) ? 1 : -1; trim(f); f = sqfree(scale(f, 1)); if (f.size() > 1) fs.push_back(f); } // a close neighbour
    for (auto& f : fs) { d += " ; " + str(f); switch (R.below(3)) {
        case 0: { std::vector<clpoly::polynomial_ZZ> L; mdl::Z m; for (size_t i = 0; i < f.size(); ++i) { mdl::Exp e(1, 0); e[0] = (uint32_t)i; m.add_term(e, f[i]); } L.push_back(cv::to<ZZ, clpoly::grlex>(m)); auto W = clpoly::realroot(L); for (auto& u : W.first) { Sturm s(f); Iv c = iv(u.left(), u.right()); if (s.in(c.a, c.b) != 1) throw vh::Inconclusive{"isolation"}; P.push_back({u, {s, c.a, c.b}, 0, "realroot " + str(f)}); } break; }
        default: for (auto& a : isolate(f)) { Alg x = a; if (x.a < x.b) { mpq_class lo, hi; // dyadic isolating interval, as wide as possible, of a random grid
                bool done = false; for (unsigned g = R.below(3); g < 64 && !done; ++g) { mpq_class w(1, mpz_class(1) << g); Alg y = x; while (y.b - y.a > w / 4 && y.a < y.b) y.half(); mpz_class k; mpq_class q = y.a / w; mpz_fdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); lo = w * k; hi = w * (k + 1); if (R.chance(1, 5)) hi += w; if (R.chance(1, 8)) lo -= w; if (x.s.at(lo) || x.s.at(hi)) continue; if (x.s.open(lo, hi) == 1 && cmp(x, lo) > 0 && cmp(x, hi) < 0) done = true; } if (!done) continue; P.push_back({mkroot(f, lo, hi), x, 0, "root of " + str(f) + " in [" + lo.get_str() + "," + hi.get_str() + "]"}); } else { if (R.chance(1, 2)) P.push_back({mkroot(f, x.a, x.a), x, 0, "exact " + x.a.get_str()}); else { bool done = false; for (unsigned g = 0; g < 40 && !done; ++g) { mpq_class w(1, mpz_class(1) << g); mpq_class lo = x.a - w * (unsigned long)(1 + R.below(3)), hi = x.a + w * (unsigned long)(1 + R.below(3)); if (x.s.at(lo) || x.s.at(hi) || x.s.open(lo, hi) != 1) continue; done = true; P.push_back({mkroot(f, lo, hi), x, 0, "root " + x.a.get_str() + " of " + str(f) + " in [" + lo.get_str() + "," + hi.get_str() + "]"}); } } } } } }
    while (P.size() > 9) P.erase(P.begin() + (long)R.below(P.size())); size_t k = P.size(); for (size_t i = 0; i < k; ++i) if (R.chance(1, 5)) P.push_back(P[i]); // duplicates evolve separately
    if (R.chance(1, 4)) P.push_back({uroot::inf(), {}, 1, "inf"}); if (R.chance(1, 4)) P.push_back({uroot::neginf(), {}, -1, "-inf"}); return P; }
inline int order(const Num& x, const Num& y) { if (x.inf || y.inf) return x.inf < y.inf ? -1 : x.inf > y.inf; return cmp(x.m, y.m); }
inline int order(const Num& x, const mpq_class& q) { return x.inf ? x.inf : cmp(x.m, q); }
inline void history_case(Rng& R) {
    cv::vars(1); std::string d = "roots"; auto P = pool(R, d); if (P.size() < 2) return; for (auto& x : P) d += "\n  " + x.how; vh::desc(d); unsigned n = 10 + R.below(25); bool close = false; std::set<std::string> seen; for (auto& x : P) sane(x, "construction");
    for (unsigned k = 0; k < n; ++k) { Num& x = P[R.below(P.size())]; std::string w; switch (R.below(8)) {
        case 0: if (!x.inf) { w = "shrinkinterval"; vh::desc_add("\n shrink " + x.how); x.u.shrinkinterval(); sane(x, "shrinkinterval"); vh::event("refinements"); } break;
        case 1: case 2: { mpq_class q = rat(R); if (!x.inf && R.chance(1, 2)) { Iv c = iv(x.u.left(), x.u.right()); switch (R.below(4)) { case 0: q = c.a; break; case 1: q = c.b; break; case 2: q = (c.a + c.b) / 2; break; default: { Alg y = x.m; for (int i = 0; i < (int)R.below(30); ++i) y.half(); q = R.chance(1, 2) ? y.a : y.b; } } } vh::desc_add("\n compare " + x.how + " with " + q.get_str()); int want = order(x, q); QQ Q = cv::qq(q); const QQ Q0 = Q; int op = (int)R.below(13); bool g = false, e = false; switch (op) { case 0: g = x.u < Q; e = want < 0; break; case 1: g = x.u > Q; e = want > 0; break; case 2: g = x.u <= Q; e = want <= 0; break; case 3: g = x.u >= Q; e = want >= 0; break; case 4: g = x.u == Q; e = want == 0; break; case 5: g = x.u != Q; e = want != 0; break; case 6: g = Q < x.u; e = want > 0; break; case 7: g = Q > x.u; e = want < 0; break; case 8: g = Q <= x.u; e = want >= 0; break; case 9: g = Q >= x.u; e = want <= 0; break; case 10: g = Q == x.u; e = want == 0; break; case 11: g = Q != x.u; e = want != 0; break; default: { int c = uroot::comp(&x.u, Q); VREQ(c == -want, "comp-rational", "comp returns " << c << " for a number " << (want < 0 ? "below" : want ? "above" : "equal to") << " " << q); } } VREQ(g == e, "operator-rational", "operator " << op << " answers " << g << " for a number " << (want < 0 ? "below" : want ? "above" : "equal to") << " " << q); VREQ(Q == Q0, "operand-changed", "rational changed"); sane(x, "comparison with a rational"); vh::event("rational comparisons"); if (want == 0) vh::event("equal to the rational"); break; }
        case 3: { Num& y = P[R.below(P.size())]; y.u = x.u; y.m = x.m; y.inf = x.inf; y.how = x.how; sane(y, "copy"); break; }
        default: { Num& y = P[R.below(P.size())]; vh::desc_add("\n compare " + x.how + " with " + y.how); int want = order(x, y); int op = (int)R.below(8); bool g = false, e = false; if (!x.inf && !y.inf && &x != &y) { Iv a = iv(x.u.left(), x.u.right()), b = iv(y.u.left(), y.u.right()); if (a.a == b.a && a.b == b.b) { vh::event("same interval"); close = true; } else if (a.a < b.b && b.a < a.b) { vh::event("overlapping intervals"); close = true; } } switch (op) { case 0: g = x.u < y.u; e = want < 0; break; case 1: g = x.u > y.u; e = want > 0; break; case 2: g = x.u <= y.u; e = want <= 0; break; case 3: g = x.u >= y.u; e = want >= 0; break; case 4: g = x.u == y.u; e = want == 0; break; case 5: g = x.u != y.u; e = want != 0; break; default: { int c = uroot::comp(&x.u, &y.u); VREQ(c == -want, "comp", "comp returns " << c << " although the first number is " << (want < 0 ? "smaller" : want ? "larger" : "equal") << ": " << x.how << " and " << y.how); } } VREQ(g == e, "operator", "operator " << op << " answers " << g << " although the first number is " << (want < 0 ? "smaller" : want ? "larger" : "equal") << ": " << x.how << " and " << y.how); sane(x, "comparison"); sane(y, "comparison"); vh::event("comparisons"); if (want == 0 && &x != &y) vh::event("equal numbers"); } } }
    std::vector<size_t> ix; for (size_t i = 0; i < P.size(); ++i) ix.push_back(i); std::stable_sort(ix.begin(), ix.end(), [&](size_t i, size_t j) { return P[i].u < P[j].u; }); for (size_t i = 1; i < ix.size(); ++i) VREQ(order(P[ix[i - 1]], P[ix[i]]) <= 0, "sort", "sorting by operator< is not by value: " << P[ix[i - 1]].how << " before " << P[ix[i]].how); for (auto& x : P) sane(x, "sorting"); vh::event("sorts"); if (close) vh::nontrivial(vh::hash_str(d)); vh::sample(vh::clip(d, 300)); }
}
#endif
