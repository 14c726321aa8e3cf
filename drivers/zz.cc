// P01: integer arithmetic against GMP, with a canonical-representation monitor.
#include "vh.hh"
#include <clpoly/number.hh>
#include <gmpxx.h>
#include "gen.hh"
#include <unordered_set>
#include <set>
using clpoly::ZZ; using vh::Rng;
static mpz_class mz(const ZZ& z) { if (z.is_small()) { mpz_class r; mpz_set_si(r.get_mpz_t(), (long)z.get_val()); return r; } return mpz_class(z.get_mpz_v()); }
static ZZ zz(const mpz_class& z) { return ZZ(z.get_mpz_t()); }
static mpz_class mi(long v) { return mpz_class(v); }
// value, canonical representation (one-word iff it fits), text, hash, truth value, sign
static void chk(const ZZ& z, const mpz_class& m, const char* what) {
    vh::event("checks");
    bool fits = mpz_fits_slong_p(m.get_mpz_t());
    vh::event(fits ? "results one-word" : "results multi-word");
    if (mz(z) != m) vh::fail(std::string("value:") + what, VMSG(what << ": got " << mz(z) << " expected " << m));
    if (z.is_small() != fits) vh::fail(std::string("representation:") + what, VMSG(what << ": value " << m << " held " << (z.is_small() ? "in one word" : "in multi-word form")));
}
static void chk_full(const ZZ& z, const mpz_class& m, const char* what) {
    chk(z, m, what);
    ZZ f(m.get_str());
    VREQ(f == z && z == f && !(f != z) && !(f < z) && !(z < f) && f <= z && f >= z && !(f > z), std::string("equality:") + what, "value " << m << " compares unequal to itself built from text");
    VREQ(f.hash() == z.hash() && hash_value(f) == hash_value(z) && std::hash<ZZ>()(f) == std::hash<ZZ>()(z), std::string("hash:") + what, "hash of " << m << " depends on its history");
    VREQ(vh::str(z) == m.get_str(), std::string("text:") + what, "prints " << z << " for " << m);
    VREQ((bool)z == (m != 0) && z.is_zero() == (m == 0) && z.is_one() == (m == 1) && z.is_odd() == (mpz_odd_p(m.get_mpz_t()) != 0) && z.sgn() == sgn(m) && sgn(z) == sgn(m), std::string("query:") + what, "state query wrong for " << m);
    VREQ(z.sizeinbase(2) == mpz_sizeinbase(m.get_mpz_t(), 2) && sizeinbase(z, 16) == mpz_sizeinbase(m.get_mpz_t(), 16), std::string("size:") + what, "sizeinbase wrong for " << m);
    size_t s10 = z.sizeinbase(10), true10 = mpz_class(abs(m)).get_str().size();
    VREQ(s10 >= true10 && s10 <= true10 + 1, std::string("size:") + what, "sizeinbase(10) of " << m << " is " << s10);
    if (mpz_fits_slong_p(m.get_mpz_t())) VREQ(z.get_si() == mpz_get_si(m.get_mpz_t()), std::string("get_si:") + what, "get_si of " << m);
}
static mpz_class tq(const mpz_class& a, const mpz_class& b) { return a / b; }
static mpz_class fq(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static mpz_class fr(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

// pairs at the boundary: choose b so that a op b lands next to +-2^63, +-2^64
static void boundary_pair(Rng& R, mpz_class& a, mpz_class& b) {
    a = gen::integer(R); b = gen::integer(R);
    mpz_class t = gen::edge(R);
    switch (R.below(6)) {
        case 0: b = t - a; break;
        case 1: b = a - t; break;
        case 2: if (a != 0) { b = t / a + (long)R.range(-1, 1); } break;
        case 3: if (b != 0) { a = b * t + (long)R.range(-1, 1); } break;
        default: break;
    }
}
SCENARIO(binary, 60000, 3000000) {
    mpz_class a, b; boundary_pair(R, a, b);
    vh::desc("a=" + a.get_str() + " b=" + b.get_str());
    ZZ x = zz(a), y = zz(b); const ZZ x0 = x, y0 = y;
    chk_full(x, a, "construct"); chk_full(y, b, "construct");
    chk_full(x + y, a + b, "+"); chk_full(x - y, a - b, "-"); chk_full(x * y, a * b, "*"); chk(-x, -a, "neg"); chk(abs(x), abs(a), "abs");
    chk_full(gcd(x, y), gcd(a, b), "gcd"); chk_full(lcm(x, y), lcm(a, b), "lcm");
    int c = cmp(a, b);
    VREQ((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "compare", "comparison of " << a << " and " << b);
    if (b != 0) {
        chk_full(x / y, tq(a, b), "/"); chk_full(x % y, a % b, "%");
        ZZ q, r; ZZ::fdiv_q(q, x, y); chk(q, fq(a, b), "fdiv_q"); ZZ::fdiv_r(r, x, y); chk(r, fr(a, b), "fdiv_r");
        ZZ q2 = zz(gen::integer(R)), r2 = zz(gen::integer(R)); ZZ::fdiv_qr(q2, r2, x, y); chk_full(q2, fq(a, b), "fdiv_qr.q"); chk_full(r2, fr(a, b), "fdiv_qr.r");
        ZZ q3; clpoly::__div(q3, x, y); chk(q3, fq(a, b), "__div");
        if (abs(b) > 1) {
            ZZ iv; bool ok = ZZ::invert(iv, x, y); mpz_class g = gcd(a, b);
            VREQ(ok == (g == 1), "invert", "invert answers " << ok << " for " << a << " mod " << b);
            if (ok) { mpz_class e; mpz_invert(e.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); chk(iv, e, "invert"); }
        }
    }
    { uint64_t d = R.next() >> R.below(64); if (!d) d = 1; VREQ(x.fdiv_ui(d) == mpz_fdiv_ui(a.get_mpz_t(), d), "fdiv_ui", a << " mod " << d << " gave " << x.fdiv_ui(d)); }
    VREQ(x == x0 && y == y0, "operand-changed", "an operand changed");
    vh::nontrivial(vh::hash_str(a.get_str() + "," + b.get_str()));
    if (!x.is_small() || !y.is_small()) vh::sample("a=" + a.get_str() + " b=" + b.get_str());
}
// mixed operations with every machine type, assignment from machine types onto big values
SCENARIO(machine_types, 15000, 500000) {
    mpz_class a = gen::integer(R); ZZ x = zz(a);
    int i = (int)R.next(); if (R.chance(1, 4)) i = R.chance(1, 2) ? INT32_MIN : INT32_MAX;
    unsigned u = (unsigned)R.next(); long l = (long)(R.next() >> R.below(63)) * (R.chance(1, 2) ? 1 : -1); unsigned long ul = R.next() >> R.below(63);
    if (R.chance(1, 4)) l = R.chance(1, 2) ? INT64_MIN : INT64_MAX; if (R.chance(1, 6)) ul = R.chance(1, 2) ? ~0ul : (1ul << 63) - R.below(2);
    long long ll = l; unsigned long long ull = ul;
    mpz_class mu = u, mul_; mpz_set_ui(mul_.get_mpz_t(), ul); mpz_class ml = mi(l), mint = mi(i);
    vh::desc(VMSG("a=" << a << " i=" << i << " u=" << u << " l=" << l << " ul=" << ul));
    chk_full(ZZ(i), mint, "int"); chk_full(ZZ(u), mu, "unsigned"); chk_full(ZZ(l), ml, "long"); chk_full(ZZ(ul), mul_, "unsigned long"); chk_full(ZZ(ll), ml, "long long"); chk_full(ZZ(ull), mul_, "unsigned long long");
    ZZ t = x; t = i; chk_full(t, mint, "=int"); t = x; t = u; chk_full(t, mu, "=unsigned"); t = x; t = l; chk_full(t, ml, "=long"); t = x; t = ul; chk_full(t, mul_, "=unsigned long");
    t = x; t = ll; chk_full(t, ml, "=long long"); t = x; t = ull; chk_full(t, mul_, "=unsigned long long");
    chk_full(x + ZZ(l), a + ml, "+long"); chk_full(x - ZZ(l), a - ml, "-long"); chk_full(x * ZZ(l), a * ml, "*long");
    chk_full(x + i, a + mint, "+int"); chk_full(i - x, mint - a, "int-"); chk_full(x * i, a * mint, "*int");
    VREQ((x == ZZ(l)) == (a == ml) && (x < ZZ(l)) == (a < ml) && (ZZ(ul) < x) == (mul_ < a), "compare", "comparison with machine integers");
    unsigned long sh = R.chance(1, 8) ? 62 + R.below(5) : R.below(140);
    mpz_class s1 = a << sh, s2; mpz_fdiv_q_2exp(s2.get_mpz_t(), a.get_mpz_t(), sh);
    chk_full(x << sh, s1, "<<"); chk_full(x >> sh, s2, ">>"); t = x; t <<= sh; chk(t, s1, "<<="); t = x; t >>= sh; chk(t, s2, ">>=");
    uint64_t e = R.below(12); mpz_class pw; mpz_pow_ui(pw.get_mpz_t(), a.get_mpz_t(), e); chk_full(pow(x, e), pw, "pow");
    if (R.chance(1, 2)) { long bs = R.range(-12, 12); uint64_t ee = R.below(80); mpz_class b2 = mi(bs), p2; mpz_pow_ui(p2.get_mpz_t(), b2.get_mpz_t(), ee); chk_full(pow(ZZ(bs), ee), p2, "pow"); }
    for (int base : {2, 10, 16, 36}) { ZZ z(a.get_str(base), base); chk(z, a, "parse"); }
    std::istringstream is(a.get_str() + " " + ml.get_str()); ZZ r1, r2; is >> r1 >> r2; chk_full(r1, a, ">>stream"); chk_full(r2, ml, ">>stream");
    vh::nontrivial(vh::hash_str(a.get_str()) ^ (uint64_t)l * 31 ^ ul);
}
// division by zero: an exception, operands and destination state stay usable
SCENARIO(div_zero, 400, 4000) {
    mpz_class a = gen::integer(R), d = gen::integer(R); ZZ x = zz(a), z(0), q = zz(d), r = zz(d);
    if (R.chance(1, 2)) { z = zz(gen::bigint(R, 100)); z -= ZZ(z); }
    vh::desc("a=" + a.get_str());
    auto ex = [&](const char* w, auto f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } VREQ(t, std::string("div-zero:") + w, w << ": dividing " << a << " by zero raised no exception"); chk_full(x, a, w); chk_full(z, 0, w); };
    ex("/", [&] { ZZ t = x / z; }); ex("%", [&] { ZZ t = x % z; }); ex("fdiv_q", [&] { ZZ::fdiv_q(q, x, z); }); ex("fdiv_r", [&] { ZZ::fdiv_r(q, x, z); }); ex("fdiv_qr", [&] { ZZ::fdiv_qr(q, r, x, z); });
    ex("/=", [&] { x /= z; }); ex("%=", [&] { x %= z; });
    chk_full(q + ZZ(0), mz(q), "destination"); q = x; chk_full(q, a, "destination reuse"); r = 5; chk(r, 5, "destination reuse");
    vh::nontrivial(vh::hash_str(a.get_str()));
}
// histories: a register machine with aliased in-place updates, mirrored in GMP
SCENARIO(history, 2500, 120000) {
    const int N = 5; std::vector<ZZ> x(N); std::vector<mpz_class> m(N);
    for (int i = 0; i < N; ++i) { m[i] = gen::integer(R); x[i] = zz(m[i]); }
    std::string tr; for (auto& v : m) tr += v.get_str() + " "; vh::desc("start " + tr);
    int steps = (int)R.range(10, 40); uint64_t h = vh::hash_str(tr); int crossings = 0;
    for (int s = 0; s < steps; ++s) {
        int i = R.below(N), j = R.below(N), k = R.below(N), op = R.below(24); bool small0 = x[i].is_small();
        if (R.chance(1, 3)) j = i; if (R.chance(1, 4)) k = j;
        vh::desc_add(VMSG(" ; op" << op << " " << i << "," << j << "," << k)); h = h * 1000003 + op * 125 + i * 25 + j * 5 + k;
        ZZ keepj = x[j], keepk = x[k]; mpz_class mj = m[j], mk = m[k];
        switch (op) {
            case 0: x[i] += x[j]; m[i] += mj; break;
            case 1: x[i] -= x[j]; m[i] -= mj; break;
            case 2: if (mpz_sizeinbase(m[i].get_mpz_t(), 2) + mpz_sizeinbase(mj.get_mpz_t(), 2) < 3000) { x[i] *= x[j]; m[i] *= mj; } break;
            case 3: if (mj != 0) { x[i] /= x[j]; m[i] = m[i] / mj; } break;
            case 4: if (mj != 0) { x[i] %= x[j]; m[i] = m[i] % mj; } break;
            case 5: x[i] = x[j]; m[i] = mj; break;
            case 6: { ZZ t = std::move(x[j]); x[j] = x[i]; m[j] = m[i]; x[i] = std::move(t); m[i] = mj; break; }
            case 7: swap(x[i], x[j]); std::swap(m[i], m[j]); break;
            case 8: x[i] = -x[j]; m[i] = -mj; break;
            case 9: if (mpz_sizeinbase(mj.get_mpz_t(), 2) + mpz_sizeinbase(mk.get_mpz_t(), 2) < 3000) { clpoly::addmul(x[i], x[j], x[k]); m[i] += mj * mk; } break;
            case 10: if (mpz_sizeinbase(mj.get_mpz_t(), 2) + mpz_sizeinbase(mk.get_mpz_t(), 2) < 3000) { clpoly::submul(x[i], x[j], x[k]); m[i] -= mj * mk; } break;
            case 11: if (mk != 0) { ZZ::fdiv_q(x[i], x[j], x[k]); m[i] = fq(mj, mk); } break;
            case 12: if (mk != 0) { ZZ::fdiv_r(x[i], x[j], x[k]); m[i] = fr(mj, mk); } break;
            case 13: if (mk != 0 && i != j) { ZZ::fdiv_qr(x[i], x[j], x[j], x[k]); m[i] = fq(mj, mk); m[j] = fr(mj, mk); } break;
            case 14: { unsigned n = R.below(80); if (mpz_sizeinbase(m[i].get_mpz_t(), 2) < 2000) { x[i] <<= n; m[i] <<= n; } break; }
            case 15: { unsigned n = R.below(80); x[i] >>= n; mpz_fdiv_q_2exp(m[i].get_mpz_t(), m[i].get_mpz_t(), n); break; }
            case 16: x[i] = gcd(x[j], x[k]); m[i] = gcd(mj, mk); break;
            case 17: { long v = (long)(R.next() >> R.below(64)); x[i] = v; m[i] = v; break; }
            case 18: { mpz_class t = gen::edge(R); x[i] += zz(t - m[i]); m[i] = t; break; }
            case 19: x[i] = x[i]; break;
            case 20: { std::vector<ZZ> c(x); c[i] += ZZ(1); x.swap(c); m[i] += 1; break; }
            case 21: { ZZ t(x[i]); t = std::move(x[i]); x[i] = std::move(t); break; }
            case 22: { mpz_class t = gen::integer(R); if (t > 1) { mpz_class e; bool can = mpz_invert(e.get_mpz_t(), mj.get_mpz_t(), t.get_mpz_t()) != 0; ZZ tt = zz(t); if (can) { bool ok = ZZ::invert(x[i], x[j], tt); VREQ(ok, "invert", "no inverse of " << mj << " mod " << t); m[i] = e; } } break; }
            default: clpoly::set_zero(x[i]); m[i] = 0;
        }
        if (small0 != x[i].is_small()) ++crossings;
        for (int q = 0; q < N; ++q) chk(x[q], m[q], VMSG("history op" << op).c_str());
        if (i != j && op != 6 && op != 7 && op != 13) VREQ(x[j] == keepj, "operand-changed", "operand changed by op" << op);
    }
    for (int q = 0; q < N; ++q) chk_full(x[q], m[q], "history end");
    vh::event("steps", steps); vh::event("representation switches", crossings);
    if (crossings) vh::nontrivial(h);
    if (crossings > 3) vh::sample("register history, " + std::to_string(steps) + " steps, " + std::to_string(crossings) + " one-word/multi-word switches");
}
// ordering of whole lists: sort, unordered set
SCENARIO(order, 300, 10000) {
    std::vector<mpz_class> m; std::vector<ZZ> x; unsigned n = R.range(5, 60);
    for (unsigned i = 0; i < n; ++i) { mpz_class v = i && R.chance(1, 3) ? mpz_class(m[R.below(i)] + (long)R.range(-1, 1)) : gen::integer(R); m.push_back(v); ZZ z = zz(v); if (R.chance(1, 2)) { z *= zz(gen::edge(R) + 12345678); mpz_class k = mz(z); if (v != 0) z /= zz(k / v); else z = 0; } x.push_back(z); }
    std::sort(m.begin(), m.end()); std::sort(x.begin(), x.end());
    std::unordered_set<ZZ> s(x.begin(), x.end()); std::set<std::string> ms; for (auto& v : m) ms.insert(v.get_str());
    for (unsigned i = 0; i < n; ++i) VREQ(mz(x[i]) == m[i], "sort", "sorted order wrong at " << i << ": " << x[i] << " vs " << m[i]);
    VREQ(s.size() == ms.size(), "unordered_set", "set of " << n << " values has " << s.size() << " members, expected " << ms.size());
    vh::nontrivial(R.next());
}
