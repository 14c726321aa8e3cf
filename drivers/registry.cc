// P26: the variable registry against a reference map, over registration histories.
#include "vh.hh"
#include "gen.hh"
#include "conv.hh"
#include <clpoly/polynomial.hh>
#include <unordered_map>
#include <unordered_set>
#include <set>
using vh::Rng; using clpoly::variable; using clpoly::ZZ;
namespace {
struct Reg { std::map<std::string, size_t> live; std::map<size_t, std::string> by; }; // the reference
struct Handle { variable v; std::string name; };
Reg M; bool started = false;
std::string mkname(Rng& R) { static const char* odd[] = {"_t", "x_1", "x'", "alpha beta", "\xce\xb1", "X", "x", "y", "xx", "x1", "x01", "9z", "#var_", "#var_1", "#", "a b", "+", "x^2", "\n", "very_long_name_that_exceeds_the_small_string_buffer_by_far"}; switch (R.below(6)) { case 0: return odd[R.below(20)]; case 1: return "#var_" + std::to_string(R.below(80)); case 2: { std::string s(1 + R.below(40), 'q'); return s + std::to_string(R.below(4)); } default: return std::string(1, (char)('a' + R.below(26))) + std::to_string(R.below(12)); } }
void check_one(const std::string& n, size_t s) { VREQ(variable::get_variable(s).serial() == s, "by-serial", "get_variable(" << s << ") has serial " << variable::get_variable(s).serial()); VREQ(variable::get_variable(s).name() == n, "name-changed", "serial " << s << " is named '" << variable::get_variable(s).name() << "', registered as '" << n << "'"); variable w = variable::get_variable(n); VREQ(w.serial() == s, "by-name", "name '" << n << "' denotes serial " << w.serial() << ", registered with " << s); }
void check_all() { for (auto& x : M.live) check_one(x.first, x.second); }
void added(const variable& v, const std::string& n, const char* w) { VREQ(v.name() == n && v.str() == n, "name", w << ": new variable is named '" << v.name() << "', not '" << n << "'"); VREQ(!n.empty() && v.serial() != 0, "reserved", w << ": variable shares the reserved serial 0"); auto it = M.by.find(v.serial()); VREQ(it == M.by.end(), "serial-reused", w << ": serial " << v.serial() << " of '" << n << "' already denotes '" << (it == M.by.end() ? "" : it->second) << "'"); VREQ(!M.live.count(n), "name-reused", w << ": name '" << n << "' already denotes serial " << M.live[n]); M.live[n] = v.serial(); M.by[v.serial()] = n; vh::event("registrations"); }
void erase(const std::string& n) { auto it = M.live.find(n); if (it == M.live.end()) return; M.by.erase(it->second); M.live.erase(it); vh::event("deletions"); }
void start() { std::vector<std::string> all; for (auto& x : M.live) all.push_back(x.first); for (auto& n : all) { variable::del_variable(n); erase(n); } started = true; }
}
SCENARIO(history, 1500, 60000) {
    start(); std::vector<Handle> H; std::set<std::string> pinned; struct Kept { clpoly::polynomial_ZZ p; std::string text; mdl::Z m; std::vector<size_t> ser; }; std::vector<Kept> K; unsigned n = 10 + R.below(60); std::string d = "registry history:"; bool del = false, reuse = false; unsigned burst = R.chance(1, 12) ? 200 : 0;
    auto pick = [&]() -> std::string { if (M.live.empty()) return mkname(R); auto it = M.live.begin(); std::advance(it, (long)R.below(M.live.size())); return it->first; };
    for (unsigned k = 0; k < n; ++k) { vh::desc(d); switch (R.below(14)) {
        case 0: case 1: case 2: { std::string nm = R.chance(2, 3) ? mkname(R) : pick(); d += " get(" + nm + ")"; vh::desc(d); bool known = M.live.count(nm); variable v = R.chance(1, 2) ? variable(nm) : variable::get_variable(nm); if (known) VREQ(v.serial() == M.live[nm] && v.name() == nm, "by-name", "lookup of '" << nm << "' gives serial " << v.serial() << " named '" << v.name() << "', registered with " << M.live[nm]); else added(v, nm, "get_variable"); H.push_back({v, nm}); break; }
        case 3: { std::string nm = mkname(R); if (M.live.count(nm)) break; d += " new(" + nm + ")"; vh::desc(d); variable v = variable::new_variable(nm); added(v, nm, "new_variable"); H.push_back({v, nm}); break; }
        case 4: case 5: { unsigned c = burst && R.chance(1, 3) ? burst : 1; d += " new()x" + std::to_string(c); vh::desc(d); while (c--) { variable v = variable::new_variable(); std::string nm = v.name(); added(v, nm, "new_variable()"); H.push_back({v, nm}); } break; }
        case 6: case 7: { std::string nm = R.chance(4, 5) ? pick() : mkname(R); if (pinned.count(nm)) break; bool known = M.live.count(nm); d += " del(" + nm + ")"; vh::desc(d); size_t s = known ? M.live[nm] : 0; std::vector<Handle> h2; for (auto& h : H) if (h.name != nm) h2.push_back(h); switch (R.below(3)) { case 0: variable::del_variable(nm); break; case 1: if (known) variable::del_variable(s); else { variable::del_variable((size_t)1 << 40); variable::del_variable((size_t)0); variable::del_variable(std::string()); } break; default: if (known) variable::del_variable(variable::get_variable(s).name()); else variable::del_variable(nm); } if (known) { erase(nm); del = true; } H = h2; break; }
        case 8: if (H.size() > 1) { Handle &a = H[R.below(H.size())], &b = H[R.below(H.size())]; d += " swap/copy"; if (R.chance(1, 3)) { a.v.swap(b.v); std::swap(a.name, b.name); } else if (R.chance(1, 2)) { a.v = b.v; a.name = b.name; } else { variable c(a.v); H.push_back({c, a.name}); } } break;
        case 9: case 10: if (H.size() > 1) { Handle &a = H[R.below(H.size())], &b = H[R.below(H.size())]; bool eq = a.name == b.name; VREQ((a.v == b.v) == eq && (a.v != b.v) == !eq, "equality", "'" << a.name << "' and '" << b.name << "': == answers " << (a.v == b.v)); int c = M.live[a.name] < M.live[b.name] ? -1 : !eq; VREQ((a.v < b.v) == (c < 0) && (a.v > b.v) == (c > 0) && (a.v <= b.v) == (c <= 0) && (a.v >= b.v) == (c >= 0), "order", "order of '" << a.name << "' and '" << b.name << "' differs from their registration"); std::hash<variable> hs; if (eq) VREQ(hs(a.v) == hs(b.v) && clpoly::hash_value(a.v) == clpoly::hash_value(b.v), "hash", "equal variables hash differently"); VREQ(vh::str(a.v) == a.name, "print", "prints '" << vh::str(a.v) << "', not '" << a.name << "'"); break; } break;
        case 11: if (!H.empty() && K.size() < 4) { std::vector<variable> v; std::vector<std::string> nm; for (unsigned i = 0; i < 1 + R.below(3); ++i) { auto& h = H[R.below(H.size())]; v.push_back(h.v); nm.push_back(h.name); } clpoly::polynomial_ZZ p; for (unsigned t = 0; t < 1 + R.below(4); ++t) { clpoly::polynomial_ZZ q = ZZ((int64_t)R.range(-9, 9)); for (auto& x : v) q = q * clpoly::pow(clpoly::polynomial_ZZ(x), (int64_t)R.below(4)); p = p + q; } std::vector<size_t> ser; for (auto& t : p) for (auto& x : t.first) ser.push_back(x.first.serial()); K.push_back({p, vh::str(p), {}, ser}); for (auto& x : nm) pinned.insert(x); d += " keep(" + vh::str(p) + ")"; vh::event("polynomials kept"); } break;
        default: if (!K.empty()) { auto& q = K[R.below(K.size())]; clpoly::polynomial_ZZ z = q.p + q.p - q.p; VREQ(z == q.p && vh::str(z) == q.text, "polynomial", "polynomial changed to " << z); } } 
        for (auto& h : H) { VREQ(M.live.count(h.name) && h.v.serial() == M.live[h.name] && h.v.name() == h.name, "handle", "handle of '" << h.name << "' is now serial " << h.v.serial() << " named '" << h.v.name() << "'"); }
        for (auto& q : K) VREQ(vh::str(q.p) == q.text, "polynomial-print", "polynomial prints '" << q.p << "', earlier '" << q.text << "'"); if (R.chance(1, 6)) check_all(); VREQ(variable().serial() == 0 && variable().name().empty() && variable(std::string()).serial() == 0, "default", "the default variable changed"); vh::event("operations"); }
    vh::desc(d); check_all(); { std::unordered_set<variable> u; std::set<variable> o; for (auto& h : H) { u.insert(h.v); o.insert(h.v); } std::set<std::string> nm; for (auto& h : H) nm.insert(h.name); VREQ(u.size() == nm.size() && o.size() == nm.size(), "containers", "hashed set has " << u.size() << ", ordered set " << o.size() << ", distinct names " << nm.size()); std::vector<variable> v; std::string w = "[ "; for (size_t i = 0; i < H.size(); ++i) { v.push_back(H[i].v); w += (i ? " , " : "") + H[i].name; } using clpoly::operator<<; std::ostringstream os; clpoly::operator<<(os, v); VREQ(os.str() == w + " ]", "print-vector", "vector prints " << os.str()); }
    (void)reuse; vh::event_max("registered", M.live.size()); if (del && M.live.size() > 2) vh::nontrivial(vh::hash_str(d)); vh::sample(vh::clip(d, 300));
}
// library computations may not disturb registered variables
SCENARIO(many_names, 60, 2000) { start(); unsigned n = 1 + R.below(600); std::vector<Handle> H; vh::desc("register " + std::to_string(n)); std::vector<std::string> nm; for (unsigned i = 0; i < n; ++i) { std::string s = "m" + std::to_string(R.below(2000)); bool known = M.live.count(s); variable v(s); if (!known) added(v, s, "variable(name)"); else VREQ(v.serial() == M.live[s], "by-name", "lookup of '" << s << "' changed"); H.push_back({v, s}); } check_all(); R.shuffle(H); for (auto& h : H) if (R.chance(1, 2)) { variable::del_variable(h.name); erase(h.name); } check_all(); for (unsigned i = 0; i < n / 2; ++i) { variable v = variable::new_variable(); added(v, v.name(), "new_variable()"); } check_all(); for (auto& h : H) { bool known = M.live.count(h.name); variable v(h.name); if (!known) added(v, h.name, "variable(name)"); else VREQ(v.serial() == M.live[h.name], "by-name", "lookup of '" << h.name << "' changed"); } check_all(); vh::nontrivial(vh::hash_str(std::to_string(n) + std::to_string(R.next()))); }
