// P21 / P22 oracle: zeros of polynomial systems over large prime fields (lexicographic bases computed by the
// independent engine of gbops.hh, roots by FLINT), radical membership, model pseudo-division.
#ifndef TRI_HH
#define TRI_HH
#include "gbops.hh"
#include "fl.hh"
#include <clpoly/resultant.hh>
#include <clpoly/charset.hh>
#include <set>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
namespace tri {
using namespace ring; using mdl::Fp; using mdl::Z; typedef mdl::F F; typedef std::vector<Z> ZS; typedef std::vector<F> FS;
typedef clpoly::polynomial_<ZZ, clex> Poly; typedef Ctx<ZZ, clex> X; typedef std::vector<uint64_t> Pt; typedef std::set<Pt> Pts;
struct Infinite {};
// a context whose order lists all n variables; lv[k] = model index of the k-th smallest variable
struct T { X c; std::vector<int> lv; unsigned n; uint64_t p; };
inline void mk(T& t, Rng& R, unsigned n) { cv::vars(6); t.n = n; std::vector<int> o; for (unsigned i = 0; i < n; ++i) o.push_back((int)i); R.shuffle(o); std::vector<variable> v; t.c.name = "order "; for (int i : o) { v.push_back(cv::V()[i]); t.c.name += "x" + std::to_string(i) + ">"; } t.c.own = clex(clpoly::custom_var_order(v)); t.c.comp = &t.c.own; t.c.ord = cv::ord_custom(o); t.lv.assign(o.rbegin(), o.rend()); t.p = gen::prime_below((1ull << 60) + (R.next() >> 5)); }
inline int level(const T& t, const Z& f) { int l = -1; for (unsigned k = 0; k < t.n; ++k) if (f.has(t.lv[k])) l = (int)k; return l; } // -1 constant
inline int64_t mdeg(const T& t, const Z& f) { int l = level(t, f); return l < 0 ? 0 : f.deg(t.lv[l]); }
inline Z prem(Z f, const Z& g, size_t v) { int64_t d = g.deg(v), e = f.deg(v) - d + 1; Z l = g.lc(v); while (!f.zero() && f.deg(v) >= d && (d > 0 || f.deg(v) >= d)) { Z lf = f.lc(v); int64_t df = f.deg(v); f = f * l - (g * lf).shift(v, (uint32_t)(df - d)); --e; if (f.t.size() > 4000) throw vh::Inconclusive{"prem size"}; if (d == 0 && f.zero()) break; } for (; e > 0; --e) f = f * l; return f; }
inline F sub1(const F& f, size_t v, uint64_t a, uint64_t p) { return f.subst(v, Fp(a, p)); }
inline std::vector<uint64_t> roots(const F& g, size_t v, uint64_t p) { fl::NP x(p); for (auto& t : g.t) nmod_poly_set_coeff_ui(x.p, mdl::eget(t.first, v), t.second.v); nmod_poly_factor_t f; nmod_poly_factor_init(f); nmod_poly_roots(f, x.p, 0); std::vector<uint64_t> r; for (slong i = 0; i < f->num; ++i) { uint64_t a = nmod_poly_get_coeff_ui(f->p + i, 0); r.push_back(a ? p - a : 0); } nmod_poly_factor_clear(f); return r; }
inline F ugcd(const F& a, const F& b, size_t v, uint64_t p) { F x, y; for (auto& t : a.t) x.add_term(Exp(1, mdl::eget(t.first, v)), t.second); for (auto& t : b.t) y.add_term(Exp(1, mdl::eget(t.first, v)), t.second); F g = fl::gcd(x, y, p), r; for (auto& t : g.t) { Exp e(v + 1, 0); e[v] = mdl::eget(t.first, 0); r.add_term(e, t.second); } return r; }
// rational points of a system all of whose partial substitutions determine the next variable
inline void solve(const T& t, FS s, unsigned k, Pt& cur, Pts& out) {
    FS rest; for (auto& f : s) { if (f.zero()) continue; if (f.is_const()) return; rest.push_back(f); } if (k == t.n) { out.insert(cur); return; }
    size_t v = t.lv[k]; F g; for (auto& f : rest) { bool uni = true; for (unsigned j = k + 1; j < t.n; ++j) if (f.has(t.lv[j])) uni = false; if (uni) g = g.zero() ? f : ugcd(g, f, v, t.p); } if (g.zero()) throw Infinite{}; if (g.is_const()) return;
    for (uint64_t a : roots(g, v, t.p)) { FS n; for (auto& f : rest) n.push_back(sub1(f, v, a, t.p)); cur.push_back(a); solve(t, n, k + 1, cur, out); cur.pop_back(); }
}
inline FS modp(const ZS& s, uint64_t p) { FS r; for (auto& f : s) r.push_back(gb::modp(f, p)); return r; }
// lexicographic basis (x_lv[0] smallest) modulo p
inline FS lexbasis(const T& t, const FS& s, long budget = 60000) { gb::Budget b{budget}; gb::EF e; e.o = t.c.ord; e.b = &b; FS r; for (auto& x : e.basis(s)) r.push_back(e.back(x)); return r; }
inline bool zerodim(const T& t, const FS& G) { for (unsigned k = 0; k < t.n; ++k) { bool ok = false; gb::EF e; e.o = t.c.ord; for (auto& g : G) { auto s = e.srt(g); const Exp& le = s.begin()->first; bool pure = true; for (unsigned j = 0; j < t.n; ++j) if (j != k && mdl::eget(le, t.lv[j])) pure = false; if (pure) ok = true; } if (!ok) return false; } return true; }
inline Pts zeros(const T& t, const FS& G) { Pts r; Pt c; solve(t, G, 0, c, r); return r; }
// zeros of a triangular set where no initial vanishes; an initial vanishing identically on a partial zero prunes it
inline void tsolve(const T& t, const FS& s, unsigned k, Pt& cur, Pts& out, bool strict) { if (k == t.n) { out.insert(cur); return; } size_t v = t.lv[k]; F f = s[k]; for (unsigned j = 0; j < k; ++j) f = sub1(f, t.lv[j], cur[j], t.p); F ini = s[k].lc(v); for (unsigned j = 0; j < k; ++j) ini = sub1(ini, t.lv[j], cur[j], t.p); if (ini.zero()) { if (strict) throw Infinite{}; return; } if (f.is_const()) return; for (uint64_t a : roots(f, v, t.p)) { cur.push_back(a); tsolve(t, s, k + 1, cur, out, strict); cur.pop_back(); } }
inline Pts tzeros(const T& t, const ZS& s, bool strict) { Pts r; Pt c; tsolve(t, modp(s, t.p), 0, c, r, strict); return r; }
inline Fp value(const T& t, const F& f, const Pt& a) { F g = f; for (unsigned j = 0; j < t.n && j < a.size(); ++j) g = sub1(g, t.lv[j], a[j], t.p); return g.constant(); }
inline std::string show(const T& t, const ZS& s) { std::string d; for (auto& f : s) d += f.str() + " ; "; return d; }
inline std::string show(const Pt& a) { std::string d = "("; for (auto x : a) d += std::to_string(x) + ","; return d + ")"; }
inline std::vector<Poly> lib(const T& t, const ZS& s) { std::vector<Poly> r; for (auto& f : s) r.push_back(t.c.mk(f)); return r; }
inline ZS take(const T& t, const std::vector<Poly>& s, const char* w) { ZS r; for (auto& f : s) { auto why = cv::canon(f, t.c.ord); VREQ(why.empty(), std::string("canonical:") + w, why << " in " << f); r.push_back(cv::from(f)); } return r; }
inline Z rz(Rng& R, const T& t, unsigned deg, unsigned terms, unsigned upto) { Z r; for (unsigned i = 0; i < terms; ++i) { Exp e(t.n, 0); unsigned d = R.below(deg + 1); for (unsigned j = 0; j < d; ++j) e[t.lv[R.below(upto)]]++; r.add_term(e, gen::coef(R, R.chance(1, 8) ? 1 : 0)); } return r; }
inline Z X1(int v) { return Z::var(v); }
// ascending set: levels strictly increase, later elements reduced with respect to earlier ones
inline void ascending(const T& t, const ZS& C, const char* w) { for (size_t i = 0; i < C.size(); ++i) { int l = level(t, C[i]); VREQ(!C[i].zero(), std::string("zero-member:") + w, w << " contains zero"); if (l < 0) { VREQ(C.size() == 1, std::string("constant-member:") + w, w << " contains a constant next to other members"); continue; } for (size_t j = 0; j < i; ++j) { int m = level(t, C[j]); VREQ(m < l, std::string("not-ascending:") + w, w << " has members of the same or decreasing class: " << show(t, C)); VREQ(C[i].deg(t.lv[m]) < C[j].deg(t.lv[m]), std::string("not-reduced:") + w, w << " has a member not reduced with respect to an earlier one: " << show(t, C)); } } }
inline bool ranklt(const T& t, const Z& a, const Z& b) { int x = level(t, a), y = level(t, b); if (x != y) return x < y; return mdeg(t, a) < mdeg(t, b); }
inline bool unit_ideal(const T& t, const FS& s, long budget = 60000) { gb::Budget b{budget}; gb::EF e; e.o = cv::ord_grlex(); e.b = &b; auto G = e.basis(s); return G.size() == 1 && G[0].begin()->first.empty(); }
// f vanishes on every zero of s (over the algebraic closure)
inline bool in_radical(const T& t, const FS& s, const F& f) { FS r = s; r.push_back(F(Fp(1, t.p)) - f * F::var1(5, Fp(1, t.p))); return unit_ideal(t, r); }
// ------------------------------------------------------------------ P21
inline ZS system(Rng& R, const T& t) { ZS s; unsigned n = t.n, m = 1 + R.below(n + 1); unsigned D = n <= 2 ? 3 : 2; switch (R.below(6)) {
    case 0: for (unsigned k = 0; k < n; ++k) s.push_back(rz(R, t, D, 3, k + 1) + Z(mpz_class(R.range(1, 3))) * Z::var(t.lv[k], 1 + (uint32_t)R.below(D))); break; // nearly triangular
    case 1: { for (unsigned k = 0; k < n; ++k) { Z f(mpz_class(1)); for (unsigned j = 0; j < 1 + R.below(2); ++j) f = f * (X1(t.lv[k]) - Z(mpz_class(R.range(-2, 2)))); s.push_back(f); } s.push_back(rz(R, t, 2, 3, n)); break; }
    case 2: { Z h = rz(R, t, 1, 2, n); for (unsigned i = 0; i < 2; ++i) s.push_back(h * rz(R, t, 1, 2, n)); break; }
    case 3: for (unsigned i = 0; i < m; ++i) s.push_back(rz(R, t, 1, 3, n)); break;
    default: for (unsigned i = 0; i < m; ++i) s.push_back(rz(R, t, D, 1 + R.below(3), n)); }
    ZS r; for (auto& f : s) if (!f.zero()) r.push_back(f); if (r.empty()) r.push_back(X1(t.lv[0])); if (R.chance(1, 8)) r.push_back(r[R.below(r.size())]); if (R.chance(1, 8)) r.push_back(r[0] * gen::coef(R, 0)); if (R.chance(1, 30)) r.push_back(Z(gen::coef(R, 0))); if (R.chance(1, 12)) r.push_back(Z()); R.shuffle(r); return r; }
inline void basset_case(Rng& R) {
    T t; mk(t, R, 1 + R.below(4)); ZS s; unsigned m = 1 + R.below(7); for (unsigned i = 0; i < m; ++i) s.push_back(rz(R, t, 1 + R.below(4), 1 + R.below(3), 1 + R.below(t.n))); if (!R.chance(1, 8)) { ZS r; for (auto& f : s) if (!f.is_const()) r.push_back(f); s = r; } if (s.empty()) return; vh::desc("basset [" + t.c.name + "] " + show(t, s));
    auto F = lib(t, s); const auto F0 = F; auto B = take(t, clpoly::basset<ZZ>(F.begin(), F.end()), "basset"); VREQ(F == F0, "operand-changed", "list changed"); ZS nz; for (auto& f : s) if (!f.zero()) nz.push_back(f); if (nz.empty()) { VREQ(B.empty() || (B.size() == 1 && B[0].zero()), "basset-of-zero", "basic set of zeros is " << show(t, B)); return; }
    ascending(t, B, "basic set"); VREQ(!B.empty(), "basset-empty", "basic set is empty"); for (auto& b : B) VREQ(std::find(s.begin(), s.end(), b) != s.end(), "basset-foreign", "member " << b << " is not in the list");
    ZS cur = nz, W; while (!cur.empty()) { size_t k = 0; for (size_t i = 1; i < cur.size(); ++i) if (ranklt(t, cur[i], cur[k])) k = i; Z b = cur[k]; W.push_back(b); ZS n; int l = level(t, b); if (l >= 0) for (auto& f : cur) if (!f.is_const() && f.deg(t.lv[l]) < b.deg(t.lv[l])) n.push_back(f); cur = n; }
    // the rank of a basic set is unique: no ascending subset has lower rank (several of equal rank may exist)
    VREQ(B.size() >= 1 && !ranklt(t, B[0], W[0]) && !ranklt(t, W[0], B[0]), "basset-rank", "first member " << B[0] << " is not of minimal rank");
    if (m <= 7) { // exhaustive minimum over all ascending subsets
        size_t N = nz.size(); auto asc = [&](const ZS& c) { for (size_t i = 0; i < c.size(); ++i) { int l = level(t, c[i]); if (l < 0) return c.size() == 1; for (size_t j = 0; j < i; ++j) { int q = level(t, c[j]); if (!(q < l) || c[i].deg(t.lv[q]) >= c[j].deg(t.lv[q])) return false; } } return true; }; auto less = [&](const ZS& a, const ZS& b) { for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) { if (ranklt(t, a[i], b[i])) return true; if (ranklt(t, b[i], a[i])) return false; } return a.size() > b.size(); };
        for (size_t mask = 1; mask < (1u << N); ++mask) { ZS c; for (size_t i = 0; i < N; ++i) if (mask >> i & 1) c.push_back(nz[i]); std::stable_sort(c.begin(), c.end(), [&](const Z& a, const Z& b) { return ranklt(t, a, b); }); if (asc(c)) VREQ(!less(c, B), "basset-not-minimal", "ascending subset " << show(t, c) << " has lower rank than " << show(t, B)); } }
    for (size_t i = 0; i < nz.size(); ++i) for (size_t j = 0; j < nz.size(); ++j) { auto a = t.c.mk(nz[i]), b = t.c.mk(nz[j]); VREQ(clpoly::rankcompare(a, b) == ranklt(t, nz[i], nz[j]), "rank", "rank comparison of " << nz[i] << " and " << nz[j]); int l = level(t, nz[j]); if (!nz[i].is_const() && l >= 0) VREQ(clpoly::is_reduced(a, b) == (nz[i].deg(t.lv[l]) < nz[j].deg(t.lv[l])), "reduced", "is_reduced(" << nz[i] << ", " << nz[j] << ")"); }
    vh::event_max("basic set size", B.size()); if (B.size() > 1) vh::nontrivial(vh::hash_str(show(t, s) + t.c.name));
}
inline void charset_case(Rng& R) {
    T t; mk(t, R, 1 + R.below(3)); ZS s = system(R, t); vh::desc("charset [" + t.c.name + "] " + show(t, s)); auto P = lib(t, s); const auto P0 = P; FS sp = modp(s, t.p); auto C = take(t, clpoly::charset(P), "charset"); VREQ(P == P0, "operand-changed", "system changed"); ZS nz; for (auto& f : s) if (!f.zero()) nz.push_back(f); if (nz.empty()) return; VREQ(!C.empty(), "charset-empty", "characteristic set is empty"); ascending(t, C, "characteristic set");
    if (C.size() == 1 && C[0].is_const()) { VREQ(unit_ideal(t, sp), "not-contradictory", "constant returned for a system that has zeros"); vh::event("contradictory systems"); return; }
    for (auto& f : s) { Z r = f; for (size_t i = C.size(); i-- > 0;) r = prem(r, C[i], t.lv[level(t, C[i])]); VREQ(r.zero(), "prem-not-zero", "pseudo-remainder of " << f << " by " << show(t, C) << " is not zero"); }
    for (auto& c : C) VREQ(in_radical(t, sp, gb::modp(c, t.p)), "member-not-in-radical", "member " << c << " does not vanish on all zeros of the system");
    vh::event("characteristic sets"); if (C.size() > 1) vh::nontrivial(vh::hash_str(show(t, s) + t.c.name)); vh::event("sets of size " + std::to_string(C.size())); vh::sample(vh::clip(show(t, s), 200) + " -> " + vh::clip(show(t, C), 200));
}
// ------------------------------------------------------------------ P22
inline bool regular(const T& t, const ZS& s) { for (unsigned k = 1; k < s.size(); ++k) { FS g = modp(ZS(s.begin(), s.begin() + k), t.p); Z ini = s[k].lc(t.lv[k]); if (ini.is_const()) continue; g.push_back(gb::modp(ini, t.p)); if (!unit_ideal(t, g)) return false; } return true; }
inline bool radical_chain(const T& t, const ZS& s) { // discriminants do not vanish on the zeros below
    for (unsigned k = 0; k < s.size(); ++k) { FS g = modp(ZS(s.begin(), s.begin() + k + 1), t.p); g.push_back(gb::modp(s[k].diff(t.lv[k]), t.p)); if (s[k].deg(t.lv[k]) == 1) continue; if (!unit_ideal(t, g)) return false; } return true; }
inline void triangular(const T& t, const ZS& s, const char* w) { VREQ(s.size() == t.n, std::string("not-square:") + w, w << ": set has " << s.size() << " members for " << t.n << " variables: " << show(t, s)); for (unsigned k = 0; k < t.n; ++k) VREQ(level(t, s[k]) == (int)k, std::string("not-triangular:") + w, w << ": member " << k << " has the wrong main variable: " << show(t, s)); VREQ(regular(t, s), std::string("not-regular:") + w, w << ": not a regular set: " << show(t, s)); }
inline ZS chain(Rng& R, const T& t, bool squarefree) { // triangular with many rational zeros
    for (int tries = 0; tries < 60; ++tries) { ZS s; for (unsigned k = 0; k < t.n; ++k) { Z f(mpz_class(1)); unsigned d = 1 + R.below(t.n < 3 ? 3 : 2); if (R.chance(1, 4)) { f = rz(R, t, 2, 2, k + 1) + Z::var(t.lv[k], d) * (R.chance(1, 3) && k ? rz(R, t, 1, 2, k) : Z(mpz_class(R.range(1, 3)))); } else for (unsigned j = 0; j < d; ++j) { Z root = k && R.chance(1, 2) ? rz(R, t, 1 + R.below(2), 1 + R.below(2), k) : Z(mpz_class(R.range(-2, 2))); Z lead = R.chance(1, 5) && k ? rz(R, t, 1, 2, k) : Z(mpz_class(R.chance(1, 4) ? 2 : 1)); f = f * (lead * X1(t.lv[k]) - root); } s.push_back(f); } bool ok = true; for (unsigned k = 0; k < t.n; ++k) if (level(t, s[k]) != (int)k || s[k].t.size() > 30) ok = false; if (!ok) continue; if (!regular(t, s)) continue; if (squarefree && !radical_chain(t, s)) continue; return s; } return ZS(); }
inline Z probe(Rng& R, const T& t, const ZS& s) { unsigned k = 1 + R.below(t.n); switch (R.below(5)) { case 0: return rz(R, t, 2, 3, k); case 1: { Z root = k > 1 && R.chance(1, 2) ? rz(R, t, 1, 2, k - 1) : Z(mpz_class(R.range(-2, 2))); return X1(t.lv[k - 1]) - root; } case 2: { Z a = X1(t.lv[k - 1]) - Z(mpz_class(R.range(-2, 2))), b = X1(t.lv[R.below(t.n)]) - Z(mpz_class(R.range(-2, 2))); return a * b; } case 3: return s[k - 1].diff(t.lv[k - 1]); default: return R.chance(1, 6) ? Z(gen::coef(R, 0)) : R.chance(1, 6) ? Z() : R.chance(1, 3) ? s[k - 1] * rz(R, t, 1, 2, t.n) + rz(R, t, 1, 1, t.n) * (R.chance(1, 2) ? mpz_class(0) : mpz_class(1)) : X1(t.lv[0]) - X1(t.lv[t.n - 1]) + Z(mpz_class(R.range(-1, 1))); } }
template <class Fn> void rsd_case(Rng& R, Fn fn, const char* w, bool squarefree) { // rsd: sets with nilpotent elements below are the recorded finding
    T t; mk(t, R, 1 + R.below(3)); ZS s = chain(R, t, squarefree || R.chance(1, 2)); if (s.empty()) return; Z f = probe(R, t, s); vh::desc(std::string(w) + " [" + t.c.name + "] T=" + show(t, s) + " f=" + f.str()); auto L = lib(t, s); auto A = t.c.mk(f); const auto L0 = L; const auto A0 = A; auto W = fn(L, A); VREQ(L == L0 && A == A0, "operand-changed", "argument changed"); Pts want = tzeros(t, s, true), H, G; F fp = gb::modp(f, t.p);
    auto part = [&](auto& sets, Pts& out, bool zero) { for (auto& x : sets) { ZS q = take(t, x, w); triangular(t, q, w); Pts z; try { z = tzeros(t, q, true); } catch (Infinite&) { vh::fail(std::string("irregular:") + w, std::string(w) + ": set with an initial vanishing on a zero " + show(t, q)); } for (auto& a : z) { VREQ(want.count(a), std::string("invented:") + w, w << ": zero " << show(a) << " of output " << show(t, q) << " is no zero of the input modulo " << t.p); VREQ(value(t, fp, a).zero() == zero, std::string("wrong-side:") + w, w << ": f is " << (zero ? "not zero" : "zero") << " at " << show(a) << " of " << show(t, q)); out.insert(a); } } };
    part(W.first, H, true); part(W.second, G, false); for (auto& a : want) VREQ(H.count(a) || G.count(a), std::string("lost:") + w, w << ": zero " << show(a) << " of the input modulo " << t.p << " is in no output set"); vh::event("zeros compared", want.size()); if (!W.first.empty() && !W.second.empty()) vh::event("genuine splits"); if (want.size() > 1) vh::nontrivial(vh::hash_str(show(t, s) + f.str() + t.c.name)); vh::event_max("output sets", W.first.size() + W.second.size());
}
inline void compare(const T& t, const Pts& want, const std::vector<std::vector<Poly>>& out, const char* w, bool sqf) { Pts got; for (auto& x : out) { ZS q = take(t, x, w); triangular(t, q, w); if (sqf) VREQ(radical_chain(t, q), std::string("not-squarefree:") + w, w << ": set is not squarefree: " << show(t, q)); Pts z; try { z = tzeros(t, q, true); } catch (Infinite&) { vh::fail(std::string("irregular:") + w, std::string(w) + ": set with an initial vanishing on a zero " + show(t, q)); } for (auto& a : z) { VREQ(want.count(a), std::string("invented:") + w, w << ": zero " << show(a) << " of output " << show(t, q) << " is no zero of the input modulo " << t.p); got.insert(a); } } for (auto& a : want) VREQ(got.count(a), std::string("lost:") + w, w << ": zero " << show(a) << " of the input modulo " << t.p << " is in no output set"); vh::event("zeros compared", want.size()); vh::event_max("output sets", out.size()); if (out.size() > 1) vh::event("decompositions into several sets"); }
inline void sqf_case(Rng& R) { T t; mk(t, R, 1 + R.below(3)); ZS s = chain(R, t, false); if (s.empty()) return; s[0] = [&] { Z g; auto fac = fl::factor_uni(s[0], t.lv[0]); Z r(mpz_class(1)); for (auto& x : fac.f) r = r * x.first; return r; }(); if (!regular(t, s)) return; vh::desc("RCtoSqrfree [" + t.c.name + "] T=" + show(t, s)); auto L = lib(t, s); auto out = clpoly::RCtoSqrfree(L); compare(t, tzeros(t, s, true), out, "RCtoSqrfree", true); vh::nontrivial(vh::hash_str(show(t, s) + t.c.name)); }
inline void zd_case(Rng& R) { // triangular, initials may vanish: zeros where they do not
    T t; mk(t, R, 1 + R.below(3)); ZS s; for (int i = 0; i < 20; ++i) { s.clear(); for (unsigned k = 0; k < t.n; ++k) { Z f(mpz_class(1)); unsigned d = 1 + R.below(2); for (unsigned j = 0; j < d; ++j) { Z root = k && R.chance(1, 2) ? rz(R, t, 1, 2, k) : Z(mpz_class(R.range(-2, 2))); Z lead = R.chance(1, 2) && k ? rz(R, t, 1, 2, k) : Z(mpz_class(1)); f = f * (lead * X1(t.lv[k]) - root); } s.push_back(f); } bool ok = true; for (unsigned k = 0; k < t.n; ++k) if (level(t, s[k]) != (int)k) ok = false; if (ok) break; s.clear(); } if (s.empty()) return;
    vh::desc("ZDtoRC [" + t.c.name + "] T=" + show(t, s)); auto L = lib(t, s); bool lr = clpoly::is_regular(L), mr = regular(t, s); VREQ(lr == mr, "is-regular", "is_regular answers " << lr); auto out = clpoly::ZDtoRC(L); compare(t, tzeros(t, s, false), out, "ZDtoRC", false); vh::event(mr ? "regular inputs" : "irregular inputs"); vh::nontrivial(vh::hash_str(show(t, s) + t.c.name)); }
inline bool zd_system(Rng& R, T& t, ZS& s, Pts& want) { mk(t, R, 1 + R.below(3)); for (int i = 0; i < 20; ++i) { s = system(R, t); ZS r; for (auto& f : s) if (!f.zero() && !f.is_const()) r.push_back(f); s = r; if (s.empty()) continue; FS G; try { G = lexbasis(t, modp(s, t.p), 20000); } catch (vh::Inconclusive&) { continue; } if (G.size() == 1 && G[0].is_const()) { if (!R.chance(1, 6)) continue; want.clear(); return true; } if (!zerodim(t, G)) continue; want = zeros(t, G); if (want.empty() && !R.chance(1, 4)) continue; return true; } return false; }
inline void grd_case(Rng& R) { T t; ZS s; Pts want; if (!zd_system(R, t, s, want)) return; vh::desc("GRDforZD [" + t.c.name + "] P=" + show(t, s)); auto L = lib(t, s); const auto L0 = L; auto out = clpoly::GRDforZD(L); VREQ(L == L0, "operand-changed", "system changed"); compare(t, want, out, "GRDforZD", false); if (want.size() > 0) vh::nontrivial(vh::hash_str(show(t, s) + t.c.name)); vh::sample(vh::clip(show(t, s), 200)); }
inline void wu_case(Rng& R) { // Zero(P) = union of Zero(C_i / initials): members need not be square
    T t; ZS s; Pts want; if (!zd_system(R, t, s, want)) return; vh::desc("Wucharset [" + t.c.name + "] P=" + show(t, s)); auto L = lib(t, s); auto out = clpoly::Wucharset(L); Pts got; for (auto& x : out) { ZS q = take(t, x, "Wucharset"); int last = -1; for (auto& f : q) { int l = level(t, f); VREQ(l > last, "not-triangular:Wucharset", "set is not triangular: " << show(t, q)); last = l; } for (auto& a : want) { bool in = true; for (auto& f : q) if (!value(t, gb::modp(f, t.p), a).zero() || value(t, gb::modp(f.lc(t.lv[level(t, f)]), t.p), a).zero()) in = false; if (in) got.insert(a); } if (q.size() == t.n) { Pts z = tzeros(t, q, false); for (auto& a : z) VREQ(want.count(a), "invented:Wucharset", "zero " << show(a) << " of " << show(t, q) << " with non-vanishing initials is no zero of the system"); } } for (auto& a : want) VREQ(got.count(a), "lost:Wucharset", "zero " << show(a) << " of the system is in no set with non-vanishing initials"); vh::event("zeros compared", want.size()); if (want.size()) vh::nontrivial(vh::hash_str(show(t, s) + t.c.name)); }
inline void sas_case(Rng& R) { // P = 0, G1 >= 0, G2 > 0, H != 0: zeros partitioned with the strict conditions attached to each set
    T t; ZS s; Pts want; if (!zd_system(R, t, s, want)) return; auto some = [&](unsigned m) { ZS r; unsigned k = R.below(m + 1); for (unsigned i = 0; i < k; ++i) { Z f = probe(R, t, [&] { ZS q; for (unsigned j = 0; j < t.n; ++j) q.push_back(X1(t.lv[j]) * X1(t.lv[j]) - Z(mpz_class(R.range(0, 4)))); return q; }()); if (!f.zero() && !f.is_const()) r.push_back(f); } return r; }; ZS G1 = some(2), G2 = some(2), H = some(2);
    vh::desc("GRDforZDSAS [" + t.c.name + "] P=" + show(t, s) + " G1=" + show(t, G1) + " G2=" + show(t, G2) + " H=" + show(t, H)); std::vector<std::vector<Poly>> S{lib(t, s), lib(t, G1), lib(t, G2), lib(t, H)}; const auto S0 = S; auto out = clpoly::GRDforZDSAS(S); VREQ(S == S0, "operand-changed", "system changed"); Pts got; auto nz = [&](const ZS& g, const Pt& a) { for (auto& f : g) if (value(t, gb::modp(f, t.p), a).zero()) return false; return true; };
    for (auto& o : out) { VREQ(o.size() == 4 && o[1].empty() && o[3].empty(), "shape:GRDforZDSAS", "malformed result"); ZS q = take(t, o[0], "GRDforZDSAS"), pos; for (auto& f : o[2]) pos.push_back(cv::from(f)); triangular(t, q, "GRDforZDSAS"); for (auto& g : G2) VREQ(std::find(pos.begin(), pos.end(), g) != pos.end(), "strict-lost", "condition " << g << " > 0 was dropped"); for (auto& f : pos) VREQ(std::find(G1.begin(), G1.end(), f) != G1.end() || std::find(G2.begin(), G2.end(), f) != G2.end(), "strict-foreign", "condition " << f << " > 0 was invented"); Pts z; try { z = tzeros(t, q, true); } catch (Infinite&) { vh::fail("irregular:GRDforZDSAS", "set with an initial vanishing on a zero " + show(t, q)); }
        for (auto& a : z) { VREQ(want.count(a), "invented:GRDforZDSAS", "zero " << show(a) << " of " << show(t, q) << " is no zero of the system modulo " << t.p); VREQ(nz(H, a), "h-vanishes", "an inequation vanishes at zero " << show(a) << " of " << show(t, q)); VREQ(nz(pos, a), "strict-vanishes", "a strict condition vanishes at zero " << show(a) << " of " << show(t, q)); for (auto& g : G1) VREQ(std::find(pos.begin(), pos.end(), g) != pos.end() || value(t, gb::modp(g, t.p), a).zero(), "weak-lost", "condition " << g << " >= 0 was dropped although it does not vanish at " << show(a) << " of " << show(t, q)); got.insert(a); } }
    for (auto& a : want) if (nz(H, a) && nz(G2, a)) { VREQ(got.count(a), "lost:GRDforZDSAS", "zero " << show(a) << " satisfying every condition modulo " << t.p << " is in no output set"); vh::event("admissible zeros compared"); } else vh::event("inadmissible zeros"); if (out.size() > 1) vh::event("systems split"); if (want.size()) vh::nontrivial(vh::hash_str(show(t, s) + t.c.name + show(t, G1) + show(t, G2) + show(t, H))); }
}
#endif
