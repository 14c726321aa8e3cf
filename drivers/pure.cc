// P30: constant arguments stay as they are; results do not depend on repetition, on what was called before,
// on the random stream, on the class-wide default prime or on which objects alias each other.
#include "ops.hh"
namespace vh { void set_rand(uint64_t); uint64_t case_index(); }
using namespace ops;
struct Streams { uint64_t a, b; vh::RD m; void set() const { vh::set_random_device(m, a); vh::set_rand(b); } };
static Streams streams(Rng& R) { Streams s; s.a = R.next(); s.b = R.next(); s.m = vh::random_rd_mode(R); return s; }
static void one(Rng& R, Inst& A, std::vector<Inst>& B) {
    std::string d0 = A.in(); vh::desc(A.name + " on " + vh::clip(d0, 1200)); Streams s = streams(R);
    auto same_in = [&](const char* w) { std::string d = A.in(); VREQ(d == d0, "argument-changed", A.name << " (" << w << ") changed a constant argument\n  before " << vh::clip(d0, 600) << "\n  after  " << vh::clip(d, 600)); };
    s.set(); std::string r0 = A.run(); same_in("first call");
    s.set(); std::string r1 = A.run(); VREQ(r1 == r0, "repeat", A.name << ": calling again with the same random stream gave another result\n  first  " << vh::clip(r0, 600) << "\n  second " << vh::clip(r1, 600)); same_in("second call");
    if (!B.empty()) {
        std::vector<std::string> bi; for (auto& b : B) bi.push_back(b.in()); std::string h; for (auto& b : B) h += " ; " + b.name; vh::desc_add(" | other calls:" + h);
        for (size_t i = 0; i < B.size(); ++i) { streams(R).set(); B[i].run(); std::string d = B[i].in(); VREQ(d == bi[i], "argument-changed", B[i].name << " changed a constant argument\n  before " << vh::clip(bi[i], 600) << "\n  after  " << vh::clip(d, 600)); }
        same_in("calls of other operations"); s.set(); std::string r = A.run(); VREQ(r == r0, "history", A.name << ": the result depends on calls made in between (" << h << ")\n  before " << vh::clip(r0, 600) << "\n  after  " << vh::clip(r, 600)); for (size_t i = 0; i < B.size(); ++i) VREQ(B[i].in() == bi[i], "argument-changed", A.name << " changed an argument of " << B[i].name); vh::event("operations interposed", B.size());
    }
    if (!A.stream) { for (int k = 0; k < 2; ++k) { streams(R).set(); std::string r = A.run(); VREQ(r == r0, "random-stream", A.name << ": the result depends on the random stream\n  before " << vh::clip(r0, 600) << "\n  after  " << vh::clip(r, 600)); } vh::event("random streams compared", 2); }
    for (auto& a : A.alias) { streams(R).set(); auto p = a.second(); VREQ(p.first == p.second, "aliasing", A.name << ", aliased call '" << a.first << "': expected " << vh::clip(p.first, 600) << "\n  got " << vh::clip(p.second, 600)); same_in(a.first.c_str()); vh::event("aliased calls compared"); }
    s.set(); std::string r = A.run(); VREQ(r == r0, "history", A.name << ": the result changed after aliased calls"); same_in("last call"); vh::event("operation:" + A.name.substr(0, A.name.find(" ["))); if (d0.size() > 12) vh::nontrivial(vh::hash_str(A.name + d0));
}
SCENARIO(interleaved_calls, 400, 20000) { Inst A = pick(R); std::vector<Inst> B; for (unsigned k = R.below(4); k > 0; --k) B.push_back(pick(R)); if (vh::case_index() % 3 == 0) vh::sample(A.name + " on " + vh::clip(A.in(), 200)); one(R, A, B); }
// every operation of the table in turn, so that none is missed by chance
SCENARIO(each_operation, 300, 6000) { auto& t = table(); Inst A = t[vh::case_index() % t.size()].make(R); std::vector<Inst> B{t[(vh::case_index() / t.size()) % t.size()].make(R)}; one(R, A, B); }
// many live objects used by several operations: the whole state is digested after every call
SCENARIO(shared_state, 80, 4000) {
    std::vector<Inst> L; std::vector<std::string> in, r; std::vector<Streams> s; unsigned n = 3 + R.below(5); std::string h; for (unsigned k = 0; k < n; ++k) { L.push_back(pick(R)); in.push_back(L[k].in()); s.push_back(streams(R)); h += " ; " + L[k].name + " on " + vh::clip(in[k], 150); } vh::desc(h); for (unsigned k = 0; k < n; ++k) { s[k].set(); r.push_back(L[k].run()); }
    for (unsigned t = 0; t < 2 * n; ++t) { unsigned k = R.below(n); s[k].set(); VREQ(L[k].run() == r[k], "history", "step " << t << ": " << L[k].name << " on " << vh::clip(in[k], 500) << " gives another result than before"); for (unsigned j = 0; j < n; ++j) VREQ(L[j].in() == in[j], "argument-changed", "step " << t << ": " << L[k].name << " changed an argument of " << L[j].name); }
    vh::event("states digested", 2 * n); vh::nontrivial(vh::hash_str(h));
}
// the class-wide default prime is set by the user between calls (public, documented as the prime of default-constructed residues)
SCENARIO(z_default_prime, 150, 6000) {
    static const uint64_t ps[] = {2, 3, 5, 7, 11, 13, 65537, 2147483647, 9223372036854775783ull, 18446744073709551557ull}; uint64_t p = ps[R.below(10)], q = ps[R.below(10)];
    Inst A = vh::case_index() % 2 ? pick(R) : table()[(vh::case_index() / 2) % table().size()].make(R); std::string d0 = A.in(); vh::desc("default prime " + std::to_string(p) + " then " + std::to_string(q) + " | " + A.name + " on " + vh::clip(d0, 1200)); Streams s = streams(R);
    Zp::set_prime(p); s.set(); std::string r0 = A.run(); Zp::set_prime(q); s.set(); std::string r1 = A.run(); VREQ(r0 == r1, "default-prime", A.name << ": the result depends on the class-wide default prime\n  with " << p << ": " << vh::clip(r0, 600) << "\n  with " << q << ": " << vh::clip(r1, 600)); VREQ(A.in() == d0, "argument-changed", A.name << " changed a constant argument"); VREQ(Zp::cur_prime() == q && Zp().prime() == q, "default-prime-lost", A.name << " changed the class-wide default prime");
    if (p != q) vh::nontrivial(vh::hash_str(vh::str(p) + "," + vh::str(q) + A.name + d0));
}
