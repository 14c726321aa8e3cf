// Shared by the polynomial drivers: coefficient rings x monomial orders as contexts.
#ifndef RING_HH
#define RING_HH
#include "vh.hh"
#include "conv.hh"
#include "gen.hh"
namespace ring {
using vh::Rng; using mdl::Exp; using cv::ZZ; using cv::QQ; using cv::Zp; using clpoly::variable;
template <class Tc, class C> struct Ctx {
    typedef Tc coeff; typedef C comp_t; typedef typename cv::KT<Tc>::K K; typedef mdl::P<K> M; typedef clpoly::polynomial_<Tc, C> Poly;
    C own; const C* comp = &C::init; cv::Ord ord; uint64_t p = 0; std::string name;
    Poly mk(const M& m) const { return cv::to<Tc, C>(m, comp, p); }
    K k(long v) const { return kk(mpz_class(v)); }
    K kk(const mpz_class& v) const { if constexpr (std::is_same_v<K, mdl::Fp>) return mdl::Fp(mpz_fdiv_ui(v.get_mpz_t(), p), p); else return K(v); }
    Tc c(const K& x) const { return cv::KT<Tc>::out(x, p); }
    // value, canonical form, order object
    void same(const Poly& r, const M& e, const std::string& key) const {
        std::string why = cv::canon(r, ord);
        if (!why.empty()) vh::fail("canonical:" + key, key + " [" + name + "]: " + why + " in " + vh::clip(r.str(), 600));
        vh::event("checks");
        M g = cv::from(r);
        if (!(g == e)) vh::fail("value:" + key, key + " [" + name + "]: got " + vh::clip(g.str(), 1200) + " expected " + vh::clip(e.str(), 1200));
        if (!r.empty()) for (auto& t : r.data()) {
            if (!(t.first.comp() == *comp)) vh::fail("order-object:" + key, key + ": a term carries a different order");
            if constexpr (std::is_same_v<Tc, Zp>) if (t.second.prime() != p) vh::fail("prime:" + key, key + ": coefficient modulus changed");
        }
    }
    void same_k(const Tc& r, const K& e, const std::string& key) const { vh::event("checks"); K g = cv::KT<Tc>::in(r); if (!(g == e)) vh::fail("value:" + key, VMSG(key << ": got " << g << " expected " << e)); }
};
template <class Tc> uint64_t setp(Rng& R) { if constexpr (std::is_same_v<Tc, Zp>) { uint64_t p = gen::prime(R); Zp::set_prime(R.chance(1, 2) ? p : gen::prime(R)); return p; } else return 0; } // the class-wide default modulus is set to p or to an unrelated prime: results may not depend on it
// build a context for each order type; nv variables are registered beforehand
template <class Tc, class C> struct MkCtx;
template <class Tc> struct MkCtx<Tc, clpoly::grlex> { static void go(Ctx<Tc, clpoly::grlex>& c, Rng& R, unsigned nv) { c.p = setp<Tc>(R); c.ord = cv::ord_grlex(); c.name = "grlex"; } };
template <class Tc> struct MkCtx<Tc, clpoly::lex> { static void go(Ctx<Tc, clpoly::lex>& c, Rng& R, unsigned nv) { c.p = setp<Tc>(R); c.ord = cv::ord_lex(); c.name = "lex"; } };
template <class Tc> struct MkCtx<Tc, clpoly::lex_<clpoly::custom_var_order>> {
    static void go(Ctx<Tc, clpoly::lex_<clpoly::custom_var_order>>& c, Rng& R, unsigned nv) {
        c.p = setp<Tc>(R); std::vector<int> o; for (unsigned i = 0; i < nv; ++i) o.push_back((int)i); R.shuffle(o);
        if (nv > 2 && R.chance(1, 4)) o.resize(1 + R.below(nv)); // variables not listed follow in registration order
        std::vector<variable> v; c.name = "lex("; for (int i : o) { v.push_back(cv::V()[i]); c.name += cv::V()[i].name() + ">"; } c.name += ")";
        c.own = clpoly::lex_<clpoly::custom_var_order>(clpoly::custom_var_order(v)); c.comp = &c.own; c.ord = cv::ord_custom(o);
    } };
template <class Tc> struct MkCtx<Tc, clpoly::univariate_priority_order> {
    static void go(Ctx<Tc, clpoly::univariate_priority_order>& c, Rng& R, unsigned nv) {
        c.p = setp<Tc>(R); int i = (int)R.below(nv); c.own = clpoly::univariate_priority_order(clpoly::univariate_order(cv::V()[i])); c.comp = &c.own; c.ord = cv::ord_uni(i); c.name = "priority(" + cv::V()[i].name() + ")";
    } };
typedef clpoly::lex_<clpoly::custom_var_order> clex;
typedef clpoly::univariate_priority_order uorder;

template <class X> typename X::K rcoef(Rng& R, const X& c, int cls) {
    if constexpr (std::is_same_v<typename X::K, mpq_class>) { mpq_class q(gen::coef(R, cls), R.chance(1, 3) ? mpz_class(1) : mpz_class(abs(gen::coef(R, cls)))); q.canonicalize(); return q; }
    else if constexpr (std::is_same_v<typename X::K, mdl::Fp>) { uint64_t v; do { switch (R.below(4)) { case 0: v = 1; break; case 1: v = c.p - 1 - R.below(std::min<uint64_t>(c.p - 1, 3)); break; default: v = R.next() % c.p; } } while (!v); return mdl::Fp(v, c.p); }
    else return gen::coef(R, cls);
}
template <class X> typename X::M rpoly(Rng& R, const X& c, unsigned nv, unsigned deg, unsigned terms, int cls, bool box = false) {
    typename X::M r; for (unsigned i = 0; i < terms; ++i) r.add_term(box ? gen::exp_box(R, nv, deg) : gen::exp_upto(R, nv, deg), rcoef(R, c, cls)); return r;
}
// polynomials whose exponents sit at the packed-word boundary for the given number of variables
// and whose variables really occur: total/partial degree close to `lim`
template <class X> typename X::M bpoly(Rng& R, const X& c, unsigned nv, uint64_t lim, unsigned terms, bool graded) {
    typename X::M r;
    auto one = [&](unsigned must) {
        Exp e(nv, 0); uint64_t left = lim;
        if (R.chance(1, 4)) left = R.below(lim + 1);
        if (graded) {
            if (left) { e[must] += 1; --left; }
            unsigned parts = 1 + (unsigned)R.below(3);
            for (unsigned i = 0; i < parts && left; ++i) { uint64_t d = i + 1 == parts ? left : R.below(left + 1); e[R.below(nv)] += (uint32_t)d; left -= d; }
        } else { e[must] = (uint32_t)left; for (int i = 0; i < 2; ++i) if (R.chance(1, 2)) e[R.below(nv)] = (uint32_t)(R.chance(1, 2) ? lim : R.below(lim + 1)); }
        return e;
    };
    for (unsigned i = 0; i < terms; ++i) r.add_term(one(i % nv), rcoef(R, c, 0));
    return r;
}
inline unsigned word_fields(bool graded, unsigned nv) { return graded ? nv + 1 : nv; }
// number of variables: mostly few, sometimes at the packed-exponent layout changes
inline unsigned pick_nv(Rng& R) {
    static const unsigned odd[] = {6, 7, 8, 9, 12, 15, 16, 20, 21, 30, 31, 32, 33, 62, 63, 64, 65, 70};
    if (R.chance(1, 3)) return odd[R.below(18)];
    return 1 + (unsigned)R.below(5);
}
// n random terms with exponents below cap in each of nv variables, and the product of two such polynomials over a dense table
template <class X> typename X::M spread(Rng& R, const X& c, unsigned nv, unsigned cap, size_t n, int cls) { typename X::M r; for (size_t i = 0; i < 2 * n && r.t.size() < n; ++i) { Exp e(nv); for (auto& x : e) x = (uint32_t)R.below(cap); while (!e.empty() && !e.back()) e.pop_back(); if (!r.t.count(e)) r.add_term(e, rcoef(R, c, cls)); } return r; }
template <class X> typename X::M packed_mul(const X& c, const typename X::M& a, const typename X::M& b, unsigned nv, unsigned cap) {
    size_t w = 2 * cap, sz = 1; for (unsigned i = 0; i < nv; ++i) sz *= w; std::vector<typename X::K> acc(sz, c.k(0)); std::vector<char> used(sz, 0);
    auto key = [&](const Exp& e) { size_t k = 0; for (unsigned i = nv; i-- > 0;) k = k * w + (i < e.size() ? e[i] : 0); return k; };
    for (auto& x : a.t) for (auto& y : b.t) { size_t k = key(x.first) + key(y.first); acc[k] = acc[k] + x.second * y.second; used[k] = 1; }
    typename X::M m; for (size_t k = 0; k < sz; ++k) if (used[k]) { Exp e; for (size_t t = k, i = 0; i < nv; ++i, t /= w) e.push_back((uint32_t)(t % w)); while (!e.empty() && !e.back()) e.pop_back(); m.add_term(e, acc[k]); }
    return m;
}
// every exponent multiplied by k: moves an example past the limits of packed exponents without changing its shape
template <class M> M stretch(const M& a, uint32_t k) { M r; for (auto& t : a.t) { Exp e = t.first; for (auto& x : e) x *= k; r.add_term(e, t.second); } return r; }
}
#endif
