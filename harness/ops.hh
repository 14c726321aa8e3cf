// P29 / P30: a table of library operations as closures over stored arguments: digest of the arguments,
// digest of the result of one call, and (expected, got) pairs for aliased calls.
#ifndef OPS_HH
#define OPS_HH
#include "ring.hh"
#include <tuple>
#include <memory>
#include <set>
#include <list>
namespace ops {
using vh::Rng; using namespace ring; using mdl::Z; using cv::ZZ; using cv::QQ; using cv::Zp; using clpoly::variable;
typedef std::string S;
struct Inst { S name; std::function<S()> in, run; std::vector<std::pair<S, std::function<std::pair<S, S>()>>> alias; bool stream = false; std::shared_ptr<void> keep; };
struct Entry { S group; std::function<Inst(Rng&)> make; unsigned weight; };
std::vector<Entry>& table();
struct Add { Add(const char* g, unsigned w, std::function<Inst(Rng&)> f) { table().push_back({g, std::move(f), w}); } };
Inst pick(Rng& R);
// ---- digests: the value and every observable part of it ----
template <class T> S dg(const T& v);
inline S dgs(const S& s) { return s; }
template <class T> struct is_poly : std::false_type {}; template <class Tc, class C> struct is_poly<clpoly::basic_polynomial<clpoly::basic_monomial<C>, Tc, C>> : std::true_type {};
template <class T> struct is_upoly : std::false_type {}; template <class Tc> struct is_upoly<clpoly::upolynomial_<Tc>> : std::true_type {};
template <class T> struct is_vec : std::false_type {}; template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {}; template <class T, class A> struct is_vec<std::list<T, A>> : std::true_type {}; template <class T, class B, class A> struct is_vec<std::set<T, B, A>> : std::true_type {};
template <class T> struct is_pair : std::false_type {}; template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> struct is_map : std::false_type {}; template <class A, class B> struct is_map<std::map<A, B>> : std::true_type {};
template <class T> struct is_mono : std::false_type {}; template <class C> struct is_mono<clpoly::basic_monomial<C>> : std::true_type {};
template <class T> concept Fac = requires(const T& t) { t.factors; t.content; };
template <class T> concept Gr = requires(const T& t) { t.mnode(); t.adjacency_list(); };
template <class T> concept Root = requires(const T& t) { t.isneginf(); };
template <class T> concept Dense = requires(const T& t) { t.to_upoly(); t.prime(); };
template <class T> S dg(const T& v) {
    if constexpr (std::is_same_v<T, S>) return v;
    else if constexpr (std::is_same_v<T, bool> || std::is_integral_v<T> || std::is_floating_point_v<T>) return std::to_string(v);
    else if constexpr (std::is_same_v<T, ZZ>) return cv::mz(v).get_str();
    else if constexpr (std::is_same_v<T, QQ>) return cv::mz(v.get_num()).get_str() + "/" + cv::mz(v.get_den()).get_str();
    else if constexpr (std::is_same_v<T, Zp>) return std::to_string(v.number()) + "%" + std::to_string(v.prime());
    else if constexpr (std::is_same_v<T, variable>) return v.name() + "@" + std::to_string(v.serial());
    else if constexpr (std::is_same_v<T, clpoly::umonomial>) return "#" + std::to_string(v.deg());
    else if constexpr (is_mono<T>::value) { S s = "<"; for (auto& x : v.data()) s += dg(x.first) + "^" + std::to_string(x.second) + " "; return s + "d" + std::to_string(v.deg()) + ">"; }
    else if constexpr (is_poly<T>::value || is_upoly<T>::value) { S s = "{"; for (auto& t : v.data()) s += dg(t.second) + dg(t.first) + ";"; return s + "}"; }
    else if constexpr (Dense<T>) { S s = "D" + std::to_string(v.prime()) + "["; for (size_t i = 0; i < v.size(); ++i) s += std::to_string(v[i]) + ","; return s + "]"; }
    else if constexpr (Fac<T>) { S s = "F" + dg(v.content); for (auto& f : v.factors) s += dg(f.first) + "^" + std::to_string(f.second); return s; }
    else if constexpr (Root<T>) { if (v.isinf()) return "inf"; if (v.isneginf()) return "-inf"; return "(" + dg(v.left()) + "," + dg(v.right()) + ":" + dg(v.poly()) + ")"; }
    else if constexpr (Gr<T>) { S s = "G"; for (auto& x : v.nodes()) s += dg(x) + " "; for (auto& a : v.adjacency_list()) { s += "|"; for (auto j : a) s += std::to_string(j) + " "; } return s; }
    else if constexpr (is_pair<T>::value) return "<" + dg(v.first) + "," + dg(v.second) + ">";
    else if constexpr (is_map<T>::value) { S s = "m["; for (auto& x : v) s += dg(x.first) + ":" + dg(x.second) + " "; return s + "]"; }
    else { static_assert(is_vec<T>::value, "no digest"); S s = "["; for (const auto& x : v) s += dg(x) + " "; return s + "]"; }
}
template <class... A> S dgt(const std::tuple<A...>& t) { S s; std::apply([&](const auto&... x) { ((s += dg(x) + " & "), ...); }, t); return s; }
template <class T> bool blank(const T& v) { if constexpr (is_poly<T>::value || is_upoly<T>::value) return v.empty(); else if constexpr (std::is_same_v<T, ZZ> || std::is_same_v<T, QQ>) return !v; else if constexpr (std::is_same_v<T, Zp>) return v.number() == 0; else return false; } // division by it is not allowed
// f(const A&...) -> value
template <class F, class... A> Inst call(S name, F f, A... args) {
    typedef std::tuple<A...> T; auto p = std::make_shared<T>(args...); Inst i; i.name = std::move(name); i.keep = p; const T* q = p.get();
    i.in = [p] { return dgt(*p); }; i.run = [p, q, f] { return std::apply([&](const A&... x) { return dg(f(x...)); }, *q); };
    if constexpr (sizeof...(A) >= 2) { typedef std::tuple_element_t<0, T> A0; typedef std::tuple_element_t<1, T> A1; if constexpr (std::is_same_v<A0, A1> && (is_poly<A0>::value || is_upoly<A0>::value || std::is_same_v<A0, ZZ> || std::is_same_v<A0, QQ> || std::is_same_v<A0, Zp> || is_mono<A0>::value)) if (!blank(std::get<0>(*p)))
        i.alias.push_back({"same object passed twice", [p, f] { T t = *p; std::get<1>(t) = std::get<0>(t); S e = std::apply([&](const A&... x) { return dg(f(x...)); }, (const T&)t); const T& u = *p; S g = [&]<size_t... K>(std::index_sequence<K...>) { return dg(f(std::get<0>(u), std::get<0>(u), std::get<K + 2>(u)...)); }(std::make_index_sequence<sizeof...(A) - 2>()); return std::make_pair(e, g); }}); }
    return i;
}
// g(out, x, y): compound forms writing into one of their arguments; f is the pure form with fresh output
template <class T, class F, class G> void inout(Inst& i, S w, T a, T b, F f, G g) {
    i.alias.push_back({w + " out=first", [=] { T x = a; g(x, x, b); return std::make_pair(dg(f(a, b)), dg(x)); }});
    i.alias.push_back({w + " out=second", [=] { T x = b; g(x, a, x); return std::make_pair(dg(f(a, b)), dg(x)); }});
    i.alias.push_back({w + " all same", [=] { T x = a, y = a; g(x, x, x); return std::make_pair(dg(f(a, y)), dg(x)); }});
}
// x op= y, including x op= x
template <class T, class F, class G> void compound(Inst& i, S w, T a, T b, F f, G g) {
    i.alias.push_back({w, [=] { T x = a; g(x, b); return std::make_pair(dg(f(a, b)), dg(x)); }});
    i.alias.push_back({w + " self", [=] { T x = a; const T y = a; g(x, x); return std::make_pair(dg(f(a, y)), dg(x)); }});
}
template <class X> void hold(Inst& i, std::shared_ptr<X> c) { auto k = i.keep; i.keep = std::shared_ptr<void>((void*)c.get(), [c, k](void*) {}); }
template <class Tc, class C> std::shared_ptr<Ctx<Tc, C>> ctx(Rng& R, unsigned nv) { cv::vars(12); auto c = std::make_shared<Ctx<Tc, C>>(); MkCtx<Tc, C>::go(*c, R, nv); return c; }
// polynomials with degenerate members
template <class X> typename X::M gp(Rng& R, const X& c, unsigned nv, unsigned deg = 3, unsigned terms = 4) { typename X::M r; if (R.chance(1, 14)) return r; if (R.chance(1, 12)) return typename X::M(rcoef(R, c, R.below(4))); for (unsigned i = 0, n = 1 + R.below(terms); i < n; ++i) r.add_term(gen::exp_upto(R, nv, deg), rcoef(R, c, R.chance(3, 4) ? 0 : R.below(4))); return r; }
template <class X> typename X::M gnz(Rng& R, const X& c, unsigned nv, unsigned deg = 3, unsigned terms = 4) { typename X::M r; do r = gp(R, c, nv, deg, terms); while (r.zero()); return r; }
template <class K, class X> mdl::P<K> gu(Rng& R, const X& c, unsigned deg, bool nz = false) { mdl::P<K> r; do { r = mdl::P<K>(); unsigned d = R.below(deg + 1); for (unsigned i = 0; i <= d; ++i) if (i == d || R.chance(2, 3)) r.add_term(Exp(1, i), rcoef(R, c, R.chance(3, 4) ? 0 : R.below(4))); if (!nz && R.chance(1, 14)) r = mdl::P<K>(); } while (nz && r.zero()); return r; }
}
#endif
