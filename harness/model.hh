// Independent executable model of multivariate polynomials: a plain map from exponent vectors
// to exact coefficients (GMP), with schoolbook algorithms only.  Shares no code with CLPoly.
#ifndef MODEL_HH
#define MODEL_HH
#include <gmpxx.h>
#include <map>
#include <vector>
#include <string>
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include "vh.hh"

namespace mdl {
typedef std::vector<uint32_t> Exp; // trailing zeros trimmed
inline void trim(Exp& e) { while (!e.empty() && e.back() == 0) e.pop_back(); }
inline Exp eadd(const Exp& a, const Exp& b) {
    Exp r(std::max(a.size(), b.size()), 0);
    for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
    for (size_t i = 0; i < b.size(); ++i) r[i] += b[i];
    return r;
}
inline uint32_t eget(const Exp& a, size_t i) { return i < a.size() ? a[i] : 0; }
inline bool edivides(const Exp& a, const Exp& b) { // a | b
    for (size_t i = 0; i < a.size(); ++i) if (a[i] > eget(b, i)) return false;
    return true;
}
inline Exp esub(const Exp& a, const Exp& b) {
    Exp r(a);
    for (size_t i = 0; i < b.size(); ++i) r[i] -= b[i];
    trim(r); return r;
}
inline uint64_t edeg(const Exp& a) { uint64_t d = 0; for (auto x : a) d += x; return d; }

// prime field element with its own modulus (oracle only)
struct Fp {
    uint64_t v, p; // p==0: plain small integer constant, adopts the other's modulus
    Fp(long x = 0) : v((uint64_t)x), p(0) {}
    Fp(uint64_t x, uint64_t pp) : v(x % pp), p(pp) {}
    static Fp fix(const Fp& a, uint64_t p) {
        if (a.p) return a;
        int64_t s = (int64_t)a.v; __int128 m = s % (__int128)p; if (m < 0) m += p;
        Fp r; r.v = (uint64_t)m; r.p = p; return r;
    }
    static uint64_t mod(const Fp& a, const Fp& b) { return a.p ? a.p : b.p; }
    friend Fp operator+(Fp a, Fp b) { uint64_t p = mod(a, b); if (!p) { Fp r((long)(a.v + b.v)); return r; } a = fix(a, p); b = fix(b, p); return Fp((uint64_t)(((unsigned __int128)a.v + b.v) % p), p); }
    friend Fp operator-(Fp a, Fp b) { uint64_t p = mod(a, b); if (!p) { Fp r((long)(a.v - b.v)); return r; } a = fix(a, p); b = fix(b, p); return Fp((uint64_t)(((unsigned __int128)a.v + (p - b.v)) % p), p); }
    friend Fp operator*(Fp a, Fp b) { uint64_t p = mod(a, b); if (!p) { Fp r((long)(a.v * b.v)); return r; } a = fix(a, p); b = fix(b, p); return Fp((uint64_t)((unsigned __int128)a.v * b.v % p), p); }
    Fp operator-() const { return Fp(0) - *this; }
    Fp inv() const { // Fermat
        Fp r(1, p), b = *this; uint64_t e = p - 2;
        while (e) { if (e & 1) r = r * b; b = b * b; e >>= 1; }
        return r;
    }
    friend Fp operator/(Fp a, Fp b) { uint64_t p = mod(a, b); a = fix(a, p); b = fix(b, p); return a * b.inv(); }
    Fp& operator+=(const Fp& o) { return *this = *this + o; }
    Fp& operator-=(const Fp& o) { return *this = *this - o; }
    Fp& operator*=(const Fp& o) { return *this = *this * o; }
    bool zero() const { return p ? v == 0 : v == 0; }
    friend bool operator==(const Fp& a, const Fp& b) { uint64_t p = mod(a, b); if (!p) return a.v == b.v; return fix(a, p).v == fix(b, p).v; }
    friend bool operator!=(const Fp& a, const Fp& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, const Fp& a) { return o << a.v; }
};
inline bool isz(const mpz_class& x) { return sgn(x) == 0; }
inline bool isz(const mpq_class& x) { return sgn(x) == 0; }
inline bool isz(const Fp& x) { return x.zero(); }

template <class K> struct P {
    std::map<Exp, K> t;
    P() {}
    explicit P(const K& c) { if (!isz(c)) t[Exp()] = c; }
    static P var(size_t i, uint32_t e = 1) { P r; Exp x(i + 1, 0); x[i] = e; trim(x); r.t[x] = K(1); return r; }
    static P var1(size_t i, const K& one) { P r; Exp x(i + 1, 0); x[i] = 1; r.t[x] = one; return r; }
    bool zero() const { return t.empty(); }
    bool is_const() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    K constant() const { auto it = t.find(Exp()); return it == t.end() ? K(0) : it->second; }
    void add_term(Exp e, const K& c) {
        trim(e);
        auto it = t.find(e);
        if (it == t.end()) { if (!isz(c)) t.emplace(std::move(e), c); }
        else { it->second += c; if (isz(it->second)) t.erase(it); }
    }
    friend P operator+(const P& a, const P& b) { P r = a; for (auto& x : b.t) r.add_term(x.first, x.second); return r; }
    friend P operator-(const P& a, const P& b) { P r = a; for (auto& x : b.t) r.add_term(x.first, K(-x.second)); return r; }
    P operator-() const { P r; for (auto& x : t) r.t[x.first] = K(-x.second); return r; }
    friend P operator*(const P& a, const P& b) {
        P r;
        for (auto& x : a.t) for (auto& y : b.t) r.add_term(eadd(x.first, y.first), K(x.second * y.second));
        return r;
    }
    friend P operator*(const P& a, const K& c) { P r; if (isz(c)) return r; for (auto& x : a.t) { K v = x.second * c; if (!isz(v)) r.t[x.first] = v; } return r; }
    friend bool operator==(const P& a, const P& b) { return a.t == b.t; }
    friend bool operator!=(const P& a, const P& b) { return !(a.t == b.t); }
    int64_t deg(size_t v) const { int64_t d = 0; for (auto& x : t) d = std::max<int64_t>(d, eget(x.first, v)); return d; }
    int64_t tdeg() const { int64_t d = 0; for (auto& x : t) d = std::max<int64_t>(d, (int64_t)edeg(x.first)); return d; }
    bool has(size_t v) const { for (auto& x : t) if (eget(x.first, v)) return true; return false; }
    size_t nv() const { size_t n = 0; for (auto& x : t) n = std::max(n, x.first.size()); return n; }
    std::vector<P> coeffs(size_t v) const { // index = degree in v
        std::vector<P> r(deg(v) + 1);
        for (auto& x : t) { Exp e = x.first; uint32_t d = eget(e, v); if (d) { e[v] = 0; trim(e); } r[d].t[e] = x.second; }
        return r;
    }
    P lc(size_t v) const { auto c = coeffs(v); return c.back(); }
    P shift(size_t v, uint32_t d) const { P r; for (auto& x : t) { Exp e = x.first; if (d) { if (e.size() <= v) e.resize(v + 1, 0); e[v] += d; } r.t[e] = x.second; } return r; }
    P diff(size_t v) const { P r; for (auto& x : t) { Exp e = x.first; uint32_t d = eget(e, v); if (!d) continue; e[v]--; r.add_term(e, K(x.second * K((long)d))); } return r; }
    P subst(size_t v, const K& c) const {
        P r; std::map<uint32_t, K> pw;
        for (auto& x : t) {
            Exp e = x.first; uint32_t d = eget(e, v); K k = x.second;
            for (uint32_t i = 0; i < d; ++i) k = K(k * c);
            if (d) e[v] = 0;
            r.add_term(e, k);
        }
        return r;
    }
    P subst_poly(size_t v, const P& q) const { // Horner on coefficients
        auto c = coeffs(v); P r; for (size_t i = c.size(); i-- > 0;) r = r * q + c[i]; return r;
    }
    std::string str() const {
        std::ostringstream o; if (t.empty()) return "0"; bool f = true;
        for (auto it = t.rbegin(); it != t.rend(); ++it) {
            o << (f ? "" : " + ") << "(" << it->second << ")"; f = false;
            for (size_t i = 0; i < it->first.size(); ++i) if (it->first[i]) { o << "*x" << i; if (it->first[i] > 1) o << "^" << it->first[i]; }
        }
        return o.str();
    }
};
template <class K> std::ostream& operator<<(std::ostream& o, const P<K>& p) { return o << p.str(); }
template <class K> P<K> pw(const P<K>& a, unsigned n, const K& one = K(1)) { P<K> r(one), b = a; while (n) { if (n & 1) r = r * b; n >>= 1; if (n) b = b * b; } return r; }

typedef P<mpz_class> Z;
typedef P<mpq_class> Q;
typedef P<Fp> F;

// exact division over Z or a field: true iff b | a, quotient in q
template <class K> bool kdiv(const K& a, const K& b, K& q) { q = a / b; return true; }
template <> inline bool kdiv<mpz_class>(const mpz_class& a, const mpz_class& b, mpz_class& q) { if (!mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t())) return false; mpz_divexact(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return true; }
template <class K> bool divexact(const P<K>& a, const P<K>& b, P<K>& q) {
    q = P<K>();
    if (b.zero()) return false;
    P<K> r = a; auto lb = *b.t.rbegin();
    while (!r.zero()) {
        auto lr = *r.t.rbegin();
        // std::map<Exp> order on trimmed vectors is lex with x0 most significant
        if (!edivides(lb.first, lr.first)) return false;
        K c; if (!kdiv<K>(lr.second, lb.second, c)) return false;
        Exp e = esub(lr.first, lb.first);
        q.add_term(e, c);
        for (auto& x : b.t) r.add_term(eadd(x.first, e), K(-(x.second * c)));
    }
    return true;
}
inline mpz_class content(const Z& a) { mpz_class g = 0; for (auto& x : a.t) g = gcd(g, x.second); return g; }
inline Q toQ(const Z& a) { Q r; for (auto& x : a.t) r.t[x.first] = mpq_class(x.second); return r; }
inline F toF(const Z& a, uint64_t p) {
    F r; for (auto& x : a.t) { mpz_class m; mpz_class pp; mpz_set_ui(pp.get_mpz_t(), p); mpz_fdiv_r(m.get_mpz_t(), x.second.get_mpz_t(), pp.get_mpz_t()); uint64_t v = mpz_get_ui(m.get_mpz_t()); if (v) r.t[x.first] = Fp(v, p); } return r;
}
// clears denominators: returns primitive-ish integer polynomial d*a
inline Z clear_den(const Q& a, mpz_class* dout = nullptr) {
    mpz_class d = 1; for (auto& x : a.t) d = lcm(d, x.second.get_den());
    Z r; for (auto& x : a.t) { mpq_class v = x.second * mpq_class(d); r.t[x.first] = v.get_num(); }
    if (dout) *dout = d; return r;
}
template <class K> std::vector<int> vars_of(const P<K>& a) { std::vector<int> r; for (size_t i = 0; i < a.nv(); ++i) if (a.has(i)) r.push_back((int)i); return r; }
template <class K> uint64_t hash(const P<K>& a) { return vh::hash_str(a.str()); }

// determinant of a matrix of polynomials by fraction-free (Bareiss) elimination
template <class K> P<K> det(std::vector<std::vector<P<K>>> M, const K& one = K(1)) {
    size_t n = M.size(); if (!n) return P<K>(one);
    P<K> prev(one); int sign = 1;
    for (size_t k = 0; k + 1 < n; ++k) {
        size_t piv = k; while (piv < n && M[piv][k].zero()) ++piv;
        if (piv == n) return P<K>();
        if (piv != k) { std::swap(M[piv], M[k]); sign = -sign; }
        for (size_t i = k + 1; i < n; ++i)
            for (size_t j = k + 1; j < n; ++j) {
                P<K> v = M[k][k] * M[i][j] - M[i][k] * M[k][j], q;
                if (!divexact(v, prev, q)) throw vh::Inconclusive{"bareiss"};
                M[i][j] = q;
            }
        prev = M[k][k];
    }
    return sign < 0 ? -M[n - 1][n - 1] : M[n - 1][n - 1];
}
}
#endif
