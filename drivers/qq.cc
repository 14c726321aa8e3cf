// P02: rational arithmetic against GMP mpq, lowest-terms monitor.
#include "vh.hh"
#include <clpoly/number.hh>
#include <gmpxx.h>
#include "gen.hh"
using clpoly::ZZ; using clpoly::QQ; using vh::Rng;
static mpz_class mz(const ZZ& z) { if (z.is_small()) { mpz_class r; mpz_set_si(r.get_mpz_t(), (long)z.get_val()); return r; } return mpz_class(z.get_mpz_v()); }
static ZZ zz(const mpz_class& z) { return ZZ(z.get_mpz_t()); }
static mpq_class mkq(const mpz_class& n, const mpz_class& d) { mpq_class q(n, d); q.canonicalize(); return q; }
static QQ qq(const mpq_class& q) { return QQ(zz(q.get_num()), zz(q.get_den())); }
static void chk(const QQ& q, const mpq_class& m, const std::string& what) {
    vh::event("checks");
    mpz_class n = mz(q.get_num()), d = mz(q.get_den());
    if (d <= 0) vh::fail("denominator:" + what, VMSG(what << ": denominator " << d));
    if (gcd(n, d) != 1) vh::fail("lowest-terms:" + what, VMSG(what << ": " << n << "/" << d << " is not in lowest terms, expected " << m));
    if (n != m.get_num() || d != m.get_den()) vh::fail("value:" + what, VMSG(what << ": got " << n << "/" << d << " expected " << m));
}
static void chk_full(const QQ& q, const mpq_class& m, const std::string& what) {
    chk(q, m, what);
    QQ f = qq(m);
    VREQ(f == q && q == f && !(f != q) && !(f < q) && !(q < f) && f <= q && q >= f && !(f > q), "equality:" + what, m << " compares unequal to itself");
    VREQ(f.hash() == q.hash() && hash_value(q) == f.hash() && std::hash<QQ>()(q) == f.hash(), "hash:" + what, "hash of " << m);
    VREQ(vh::str(q) == m.get_str(), "text:" + what, "prints " << q << " for " << m);
    VREQ((bool)q == (m != 0) && q.is_zero() == (m == 0) && sgn(q) == sgn(m), "query:" + what, "state query on " << m);
}
static mpq_class rat(Rng& R) {
    mpz_class n = gen::integer(R), d; do d = gen::integer(R); while (d == 0);
    if (R.chance(1, 3)) { mpz_class g = gen::coef(R, 2); n *= g; d *= g; }
    if (R.chance(1, 6)) d = 1;
    return mkq(n, d);
}
SCENARIO(binary, 30000, 1500000) {
    mpq_class a = rat(R), b = rat(R);
    switch (R.below(6)) { case 0: b = -a; break; case 1: if (a != 0) b = 1 / a; break; case 2: b = a + mkq(1, gen::coef(R, 2)); break; case 3: b = mkq(b.get_num(), a.get_den()); break; default: break; }
    vh::desc("a=" + a.get_str() + " b=" + b.get_str());
    mpz_class k = gen::coef(R, R.chance(1, 2) ? 2 : 0);
    QQ x(zz(a.get_num() * k), zz(a.get_den() * k)), y = qq(b); const QQ x0 = x, y0 = y;
    chk_full(x, a, "construct");
    chk_full(x + y, a + b, "+"); chk_full(x - y, a - b, "-"); chk_full(x * y, a * b, "*"); chk_full(-x, -a, "neg"); chk_full(abs(x), abs(a), "abs");
    if (b != 0) chk_full(x / y, a / b, "/");
    int c = cmp(a, b);
    VREQ((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "compare", "comparison of " << a << " and " << b);
    uint64_t e = R.below(7); mpz_class pn, pd; mpz_pow_ui(pn.get_mpz_t(), a.get_num_mpz_t(), e); mpz_pow_ui(pd.get_mpz_t(), a.get_den_mpz_t(), e); chk_full(pow(x, e), mkq(pn, pd), "pow");
    chk_full(QQ(zz(k)), mpq_class(k), "from ZZ");
    long l = (long)(R.next() >> R.below(64)); long l2 = R.chance(1, 5) ? INT64_MIN : (long)(R.next() >> R.below(64)); if (!l2) l2 = -1;
    chk_full(QQ((long long)l), mpq_class(l), "from long"); chk_full(QQ((long long)l, (long long)l2), mkq(l, l2), "from two longs"); chk_full(QQ((int)l), mpq_class((int)l), "from int");
    QQ t = x; t = (long long)l; chk_full(t, mpq_class(l), "=long");
    { std::istringstream is(vh::str(x) + " " + vh::str(y)); QQ r1, r2; is >> r1 >> r2; chk_full(r1, a, ">>"); chk_full(r2, b, ">>"); }
    { std::istringstream is(mpz_class(a.get_num() * k).get_str() + "/" + mpz_class(a.get_den() * k).get_str()); QQ r = y; is >> r; chk_full(r, a, ">> unreduced"); }
    { mpz_class n = gen::integer(R), d = gen::coef(R, 2); QQ q, r(7); clpoly::__div(q, zz(n), zz(d)); chk_full(q, mkq(n, d), "__div<QQ>"); clpoly::__div(q, r, zz(n), zz(d)); chk_full(q, mkq(n, d), "__div<QQ>"); chk_full(r, 0, "__div<QQ>.r"); }
    VREQ(x == x0 && y == y0, "operand-changed", "an operand changed");
    vh::nontrivial(vh::hash_str(a.get_str() + "," + b.get_str()));
    vh::sample("a=" + a.get_str() + " b=" + b.get_str());
}
SCENARIO(history, 2000, 100000) {
    const int N = 4; std::vector<QQ> x(N); std::vector<mpq_class> m(N);
    for (int i = 0; i < N; ++i) { m[i] = rat(R); x[i] = qq(m[i]); }
    std::string tr; for (auto& v : m) tr += v.get_str() + " "; vh::desc("start " + tr); uint64_t h = vh::hash_str(tr);
    int steps = (int)R.range(8, 30);
    for (int s = 0; s < steps; ++s) {
        int i = R.below(N), j = R.below(N), k = R.below(N), op = R.below(13); if (R.chance(1, 3)) j = i; if (R.chance(1, 4)) k = j;
        h = h * 1000003 + op * 64 + i * 16 + j * 4 + k; vh::desc_add(VMSG(" ; op" << op << " " << i << "," << j << "," << k));
        size_t sz = mpz_sizeinbase(mpq_class(m[i]).get_den_mpz_t(), 2) + mpz_sizeinbase(mpq_class(m[i]).get_num_mpz_t(), 2);
        if (sz > 2500) { x[i] = 3LL; m[i] = 3; }
        mpq_class mj = m[j], mk = m[k];
        switch (op) {
            case 0: x[i] += x[j]; m[i] += m[j]; break;
            case 1: x[i] -= x[j]; m[i] -= m[j]; break;
            case 2: x[i] *= x[j]; m[i] *= m[j]; break;
            case 3: if (m[j] != 0) { x[i] /= x[j]; m[i] /= m[j]; } break;
            case 4: x[i] = x[j]; m[i] = m[j]; break;
            case 5: swap(x[i], x[j]); std::swap(m[i], m[j]); break;
            case 6: x[i] = -x[j]; m[i] = -m[j]; break;
            case 7: clpoly::addmul(x[i], x[j], x[k]); m[i] += mj * mk; break;
            case 8: clpoly::submul(x[i], x[j], x[k]); m[i] -= mj * mk; break;
            case 9: { QQ t = std::move(x[i]); x[i] = x[j]; x[j] = std::move(t); std::swap(m[i], m[j]); if (i == j) {} break; }
            case 10: { mpq_class t = rat(R); x[i] = qq(t); m[i] = t; break; }
            case 11: x[i] = x[i] - x[i]; m[i] = 0; chk_full(x[i], 0, "x-x"); break;
            default: x[i] = x[j] * x[k] - x[k] * x[j] + x[i]; break;
        }
        if (op == 9 && i == j) { x[i] = qq(m[i]); }
        for (int q = 0; q < N; ++q) chk(x[q], m[q], VMSG("history op" << op));
    }
    for (int q = 0; q < N; ++q) chk_full(x[q], m[q], "history end");
    vh::event("steps", steps); vh::nontrivial(h);
}
SCENARIO(div_zero, 300, 3000) {
    mpq_class a = rat(R); QQ x = qq(a), z(0); if (R.chance(1, 2)) { z = x - x; }
    auto ex = [&](const char* w, auto f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } VREQ(t, std::string("div-zero:") + w, w << ": no exception for " << a << " over zero"); chk_full(x, a, w); };
    ex("/", [&] { QQ t = x / z; }); ex("/=", [&] { x /= z; }); ex("QQ(ZZ,0)", [&] { QQ t(x.get_num(), ZZ(0)); }); ex("QQ(ll,0)", [&] { QQ t(5LL, 0LL); });
    ex("__div<QQ>", [&] { QQ q; clpoly::__div(q, x.get_num(), ZZ(0)); });
    vh::nontrivial(vh::hash_str(a.get_str()));
}
SCENARIO(text_zero_denominator, 8, 50) {
    mpz_class n = gen::coef(R, R.below(4)); std::istringstream is(n.get_str() + "/0"); QQ q(3); bool t = false;
    vh::desc(n.get_str() + "/0");
    try { is >> q; } catch (const std::exception&) { t = true; }
    VREQ(t || !is, "accepted", "reading " << n << "/0 neither throws nor fails: value has denominator " << q.get_den());
    VREQ(mz(q.get_den()) > 0, "value", "after the failed read the rational has denominator " << q.get_den());
    vh::nontrivial(vh::hash_str(n.get_str()));
}
