// P29: any sequence of public operations under memory checkers: AddressSanitizer + UBSan + leak accounting, libstdc++ debug
// containers, and valgrind memcheck for reads of uninitialised memory.
#include "ops.hh"
#include <clpoly/polynomial_factorize.hh>
#include <clpoly/resultant.hh>
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace vh { void set_rand(uint64_t); uint64_t case_index(); }
using namespace ops;
struct Streams { uint64_t a, b; vh::RD m; void set() const { vh::set_random_device(m, a); vh::set_rand(b); } };
static Streams streams(Rng& R) { Streams s; s.a = R.next(); s.b = R.next(); s.m = vh::random_rd_mode(R); return s; }
static volatile size_t sink;
static void play(Inst& i) { sink = sink + i.run().size(); for (auto& a : i.alias) sink = sink + a.second().first.size(); }
// heap bytes owned by the process must not keep growing while the same call is repeated
static void leak(Inst& i, const Streams& s) {
    if (!__sanitizer_get_current_allocated_bytes) return; size_t m[6]; for (int k = 0; k < 2; ++k) { s.set(); play(i); }
    for (int k = 0; k < 5; ++k) { m[k] = __sanitizer_get_current_allocated_bytes(); s.set(); play(i); } m[5] = __sanitizer_get_current_allocated_bytes();
    bool grows = true; for (int k = 0; k < 5; ++k) grows = grows && m[k + 1] > m[k]; vh::event("leak measurements"); VREQ(!grows, "leak", i.name << " on " << vh::clip(i.in(), 500) << ": heap grows by " << (m[5] - m[4]) << " bytes with every identical call");
}
SCENARIO(histories, 250, 12000) {
    std::vector<std::unique_ptr<Inst>> L; std::string h; unsigned n = 3 + R.below(6), done = 0; for (unsigned k = 0; k < n; ++k) {
        auto i = std::make_unique<Inst>(pick(R)); h += " ; " + i->name + " on " + vh::clip(i->in(), 160); vh::desc(h); streams(R).set(); play(*i); ++done; vh::event("operation:" + i->name.substr(0, i->name.find(" [")));
        if (R.chance(1, 2)) L.push_back(std::move(i)); if (!L.empty() && R.chance(1, 3)) L.erase(L.begin() + R.below(L.size())); for (auto& x : L) if (R.chance(1, 4)) { streams(R).set(); play(*x); ++done; }
    }
    vh::event("checks", done); vh::nontrivial(vh::hash_str(h)); if (vh::case_index() % 5 == 0) vh::sample(vh::clip(h, 300));
}
SCENARIO(each_operation, 200, 6000) { auto& t = table(); Inst i = t[vh::case_index() % t.size()].make(R); std::string d = i.in(); vh::desc(i.name + " on " + vh::clip(d, 1000)); Streams s = streams(R); s.set(); play(i); vh::event("checks"); leak(i, s); if (d.size() > 12) vh::nontrivial(vh::hash_str(i.name + d)); }
// registers holding polynomials of one order; results flow into later operations, containers grow, shrink and are sorted
template <class C> static void machine(Rng& R, unsigned steps) {
    typedef clpoly::polynomial_<ZZ, C> P; unsigned nv = 1 + R.below(4); auto c = ctx<ZZ, C>(R, nv); std::vector<P> r; for (unsigned k = 0; k < 3 + R.below(4); ++k) r.push_back(c->mk(gp(R, *c, nv, 2, 3)));
    std::string h = "[" + c->name + "]"; for (auto& x : r) h += " " + vh::clip(dg(x), 200); vh::desc(h); unsigned did = 0;
    for (unsigned t = 0; t < steps; ++t) {
        size_t i = R.below(r.size()), j = R.below(r.size()), k = R.below(r.size()); variable v = cv::V()[R.below(nv)]; unsigned op = R.below(18); h = " s" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ")"; vh::desc_add(h); ++did;
        switch (op) {
        case 0: r[k] = r[i] + r[j]; break; case 1: r[k] = r[i] - r[j]; break; case 2: r[k] = r[i] * r[j]; break; case 3: if (!r[j].empty()) r[k] = r[i] / r[j]; break;
        case 4: r[k] = clpoly::polynomial_GCD(r[i], r[j]); break; case 5: r[k] = clpoly::derivative(r[i], v); break; case 6: r[k] = clpoly::assign(r[i], v, cv::zz(mpz_class((long)R.range(-2, 2)))); break; case 7: r[k] = std::move(r[i]); break;
        case 8: std::swap(r[i], r[j]); break; case 9: r.push_back(r[i]); break; case 10: if (r.size() > 3) r.erase(r.begin() + i); break; case 11: r.insert(r.begin() + i, r[j]); break;
        case 12: if (clpoly::degree(r[i], v) > 0 && clpoly::degree(r[j], v) > 0) r[k] = clpoly::resultant(r[i], r[j], v); break; case 13: if (!r[i].empty()) { auto f = clpoly::squarefreefactorize(r[i]); for (auto& x : f) if (R.chance(1, 2)) r.push_back(x.first); } break;
        case 14: if (!r[i].empty()) { auto f = clpoly::factorize(r[i]); for (auto& x : f.factors) r[k] = x.first; } break; case 15: { P q(r[i].comp_ptr()); q.data() = r[i].data(); q.data().insert(q.data().end(), r[j].data().begin(), r[j].data().end()); R.shuffle(q.data()); q.normalization(); r[k] = std::move(q); break; }
        case 16: r[k].clear(); break; default: { std::ostringstream o; o << r[i]; sink = sink + o.str().size(); auto cs = clpoly::coeff(r[i], v); for (auto& x : cs) r[k] = x; } }
        for (auto& x : r) { bool big = x.size() > 24 || clpoly::degree(x) > 9; for (auto& y : x) if (cv::mz(y.second) > mpz_class("1000000000000000000000000") || cv::mz(y.second) < mpz_class("-1000000000000000000000000")) big = true; if (big) x = c->mk(gp(R, *c, nv, 2, 3)); } while (r.size() > 10) r.pop_back();
    }
    vh::event("register-machine steps", did); vh::event("checks", did); std::string e; for (auto& x : r) e += dg(x); vh::nontrivial(vh::hash_str(e + vh::str(did)));
}
SCENARIO(registers_grlex, 60, 4000) { machine<clpoly::grlex>(R, 20 + R.below(40)); }
SCENARIO(registers_lex, 60, 4000) { machine<clpoly::lex>(R, 20 + R.below(40)); }
SCENARIO(registers_custom, 60, 4000) { machine<clex>(R, 20 + R.below(40)); }
