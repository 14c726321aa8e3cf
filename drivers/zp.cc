// P03: prime-field arithmetic against 128-bit / GMP arithmetic.
#include "vh.hh"
#include <clpoly/number.hh>
#include <gmpxx.h>
#include "gen.hh"
using clpoly::ZZ; using clpoly::Zp; using vh::Rng; typedef unsigned __int128 u128;
static uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)((u128)a * b % p); }
static uint64_t addm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)(((u128)a + b) % p); }
static uint64_t subm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)(((u128)a + p - b) % p); }
static uint64_t powm(uint64_t a, uint64_t e, uint64_t p) { uint64_t r = 1 % p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
static void chk(const Zp& z, uint64_t v, uint64_t p, const std::string& w) {
    vh::event("checks");
    if (z.prime() != p) vh::fail("prime:" + w, VMSG(w << ": modulus " << z.prime() << " instead of " << p));
    if (z.number() >= p) vh::fail("range:" + w, VMSG(w << ": residue " << z.number() << " not below " << p));
    if (z.number() != v) vh::fail("value:" + w, VMSG(w << ": got " << z.number() << " expected " << v << " mod " << p));
}
static uint64_t res(Rng& R, uint64_t p) { switch (R.below(7)) { case 6: return gen::near(R, p); case 0: return R.below(std::min<uint64_t>(p, 4)); case 1: return p - 1 - R.below(std::min<uint64_t>(p, 4)); case 2: return p / 2 + R.below(2) < p ? p / 2 : 0; default: return R.next() % p; } }
static uint64_t modl(int64_t v, uint64_t p) { mpz_class t; mpz_set_si(t.get_mpz_t(), v); return mpz_fdiv_ui(t.get_mpz_t(), p); }
static bool second(uint64_t a, uint64_t p) { return gen::second_correction(p, a, a); }
SCENARIO(field, 60000, 3000000) {
    uint64_t p = gen::prime(R), a = res(R, p), b = res(R, p), c = res(R, p);
    vh::desc(VMSG("p=" << p << " a=" << a << " b=" << b << " c=" << c));
    Zp x(a, p), y(b, p), z(c, p); const Zp x0 = x, y0 = y;
    chk(x + y, addm(a, b, p), p, "+"); chk(x - y, subm(a, b, p), p, "-"); chk(x * y, mulm(a, b, p), p, "*"); chk(-x, subm(0, a, p), p, "neg");
    Zp t = x; t += y; chk(t, addm(a, b, p), p, "+="); t = x; t -= y; chk(t, subm(a, b, p), p, "-="); t = x; t *= y; chk(t, mulm(a, b, p), p, "*=");
    t = x; t += t; chk(t, addm(a, a, p), p, "x+=x"); t = x; t -= t; chk(t, 0, p, "x-=x"); t = x; t *= t; chk(t, mulm(a, a, p), p, "x*=x");
    t = z; clpoly::addmul(t, x, y); chk(t, addm(c, mulm(a, b, p), p), p, "addmul"); t = z; clpoly::submul(t, x, y); chk(t, subm(c, mulm(a, b, p), p), p, "submul");
    t = x; clpoly::addmul(t, t, t); chk(t, addm(a, mulm(a, a, p), p), p, "addmul aliased");
    if (b) {
        Zp i = y.inv(); VREQ(i.number() < p, "range:inv", "inverse " << i.number()); VREQ(mulm(i.number(), b, p) == 1 % p, "value:inv", i.number() << " is not the inverse of " << b << " mod " << p);
        VREQ(mulm(clpoly::inv_prime(b, p), b, p) == 1 % p && clpoly::inv_prime(b, p) < p, "value:inv_prime", "inv_prime(" << b << "," << p << ")=" << clpoly::inv_prime(b, p));
        uint64_t q = mulm(a, i.number(), p); chk(x / y, q, p, "/"); t = x; t /= y; chk(t, q, p, "/="); if (a) { t = x; t /= t; chk(t, 1 % p, p, "x/=x"); }
        Zp r; clpoly::__div(r, x, y); chk(r, q, p, "__div");
    }
    int64_t l = (int64_t)(R.next() >> R.below(64)); if (R.chance(1, 2)) l = (int64_t)(0 - (uint64_t)l); if (R.chance(1, 8)) l = R.chance(1, 2) ? INT64_MIN : INT64_MAX; if (R.chance(1, 5)) l = (int64_t)(p * R.below(3)) * (R.chance(1, 2) ? 1 : -1);
    uint64_t lm = modl(l, p);
    chk(Zp(l, p), lm, p, "from int64"); chk(Zp((int)l, p), modl((int)l, p), p, "from int"); t = x; t = l; chk(t, lm, p, "=int64");
    chk(x * l, mulm(a, lm, p), p, "*int64"); chk(l * x, mulm(a, lm, p), p, "int64*");
    VREQ((x == l) == (a == lm) && (l == x) == (a == lm) && (x != l) == (a != lm) && (l != x) == (a != lm), "compare int64", a << " vs " << l << " mod " << p);
    uint64_t u = R.next(); chk(Zp(u, p), u % p, p, "from uint64");
    mpz_class Z = gen::integer(R); chk(Zp(ZZ(Z.get_mpz_t()), p), mpz_fdiv_ui(Z.get_mpz_t(), p), p, "from ZZ"); t = x; t = ZZ(Z.get_mpz_t()); chk(t, mpz_fdiv_ui(Z.get_mpz_t(), p), p, "=ZZ");
    int64_t e = R.chance(1, 3) ? (int64_t)R.below(5) : (int64_t)(R.next() >> (1 + R.below(62))); chk(pow(x, e), powm(a, e, p), p, "pow");
    VREQ((x == y) == (a == b) && (x != y) == (a != b) && (bool)x == (a != 0) && (uint64_t)x == a, "compare", "comparison");
    VREQ(x == x0 && y == y0, "operand-changed", "an operand changed");
    Zp n(x); n.number() = u; n.normalization(); chk(n, u % p, p, "normalization");
    Zp w(5, 7); w = x; chk(w * y, mulm(a, b, p), p, "product after assignment across moduli"); w.prime(7); w.number() = 5; chk(w * w, 4, 7, "product after prime(7)");
    { uint64_t p2 = gen::prime(R), s = Zp::cur_prime(); Zp m(res(R, p2), p2); m.prime(p); m.number() = a; chk(m * y, mulm(a, b, p), p, "product after prime()"); Zp::set_prime(p2); Zp k; if (s) Zp::set_prime(s); if (R.chance(1, 2)) { clpoly::addmul(k, x, y); chk(k, mulm(a, b, p), p, "addmul into a fresh zero"); } else { clpoly::submul(k, x, y); chk(k, subm(0, mulm(a, b, p), p), p, "submul into a fresh zero"); } clpoly::set_zero(k); VREQ(k.number() == 0 && !k, "value:set_zero", "set_zero left " << k.number()); Zp q(p2); q = y; if (b) { clpoly::__div(q, x, y); chk(q * y, a, p, "__div into a value of another field"); } }
    vh::nontrivial(vh::hash_str(VMSG(p << "," << a << "," << b)));
    vh::sample(VMSG("p=" << p << " a=" << a << " b=" << b));
}
// products that sit in the rarest branch of a normalised-reciprocal reduction (about one in two thousand
// products near p, p/2 for moduli just above a power of two, and none elsewhere)
SCENARIO(reduction_corrections, 400, 20000) {
    uint64_t p, a, b; bool hit = gen::hard_product(R, p, a, b); if (!hit) vh::event("searches without a hard product"); else vh::event("products needing the second correction"); vh::desc(VMSG("p=" << p << " a=" << a << " b=" << b));
    uint64_t m = mulm(a, b, p), c = gen::near(R, p); Zp x(a, p), y(b, p), z(c, p); chk(x * y, m, p, "*"); chk(y * x, m, p, "*"); Zp t = x; t *= y; chk(t, m, p, "*="); t = y; t *= x; chk(t, m, p, "*="); t = z; clpoly::addmul(t, x, y); chk(t, addm(c, m, p), p, "addmul"); t = z; clpoly::submul(t, x, y); chk(t, subm(c, m, p), p, "submul"); if (b <= (uint64_t)INT64_MAX) { chk(x * (int64_t)b, m, p, "*int64"); chk((int64_t)b * x, m, p, "int64*"); }
    if (b) { Zp i(powm(b, p - 2, p), p); chk(x / i, m, p, "/"); t = x; t /= i; chk(t, m, p, "/="); clpoly::__div(t, x, i); chk(t, m, p, "__div"); }
    if (second(a, p)) vh::event("squares needing the second correction"); chk(pow(x, (int64_t)2), mulm(a, a, p), p, "pow"); chk(pow(x, (int64_t)7), powm(a, 7, p), p, "pow"); VREQ(x.number() == a && y.number() == b, "operand-changed", "an operand changed"); if (hit) vh::nontrivial(a ^ b ^ p);
}
SCENARIO(field_laws, 4000, 200000) {
    uint64_t p = gen::prime(R); Zp x(res(R, p), p), y(res(R, p), p), z(res(R, p), p); vh::desc(VMSG("p=" << p << " " << x << " " << y << " " << z));
    VREQ((x + y) + z == x + (y + z) && (x * y) * z == x * (y * z) && x * (y + z) == x * y + x * z && x - y == x + (-y) && x * y == y * x, "ring law", "ring law broken");
    VREQ(pow(x, (int64_t)0) == 1, "pow0", "x^0");
    if (p < (1ull << 63)) VREQ(pow(x, (int64_t)p) == x, "frobenius", "x^p != x");
    vh::nontrivial(R.next());
}
SCENARIO(small_fields_all, 12, 12) { // every pair of residues for all primes below 40
    static const uint64_t ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}; uint64_t p = ps[R.below(12)];
    for (uint64_t a = 0; a < p; ++a) for (uint64_t b = 0; b < p; ++b) { Zp x(a, p), y(b, p); chk(x + y, (a + b) % p, p, "+"); chk(x - y, (a + p - b) % p, p, "-"); chk(x * y, a * b % p, p, "*"); if (b) { Zp q = x / y; VREQ((q * y) == x, "value:/", a << "/" << b << " mod " << p); } }
    vh::nontrivial(p);
}
SCENARIO(primes, 3000, 60000) {
    uint64_t n; switch (R.below(6)) { case 0: n = R.below(100); break; case 1: n = R.next() >> R.below(60); break; case 2: n = gen::prime(R); break; case 3: n = gen::prime(R) - 1; break; case 4: n = (1ull << (1 + R.below(63))) + R.range(-2, 2); break; default: n = ~0ull - 59 - R.below(3000); }
    if (n > ~0ull - 60) n = ~0ull - 60; // the largest 64-bit prime is 2^64-59
    vh::desc(VMSG("n=" << n));
    mpz_class z; mpz_set_ui(z.get_mpz_t(), n); mpz_class nx; mpz_nextprime(nx.get_mpz_t(), z.get_mpz_t());
    auto isp = [](uint64_t v) { if (v < 2) return false; for (uint64_t d = 2; d < 1000 && d * d <= v; ++d) if (v % d == 0) return false; mpz_class t; mpz_set_ui(t.get_mpz_t(), v); return mpz_probab_prime_p(t.get_mpz_t(), 30) != 0; };
    uint64_t q = clpoly::next_prime_64(n);
    VREQ(q > n && isp(q), "next", "next_prime_64(" << n << ")=" << q); for (uint64_t v = n + 1; v < q; ++v) VREQ(!isp(v), "next-skips", "next_prime_64(" << n << ") skips " << v);
    { ZZ w = clpoly::next_prime(ZZ((unsigned long)n)); VREQ(w == ZZ((unsigned long)q), "next_prime", "next_prime(" << n << ")=" << w); }
    if (n >= 3) { uint64_t b = clpoly::prev_prime_64(n); VREQ(b < n && isp(b), "prev", "prev_prime_64(" << n << ")=" << b); for (uint64_t v = b + 1; v < n; ++v) VREQ(!isp(v), "prev-skips", "prev_prime_64(" << n << ") skips " << v); }
    if (R.chance(1, 10)) { mpz_class B = gen::bigint(R, 100), e; mpz_nextprime(e.get_mpz_t(), B.get_mpz_t()); ZZ w = clpoly::next_prime(ZZ(B.get_mpz_t())); VREQ(vh::str(w) == e.get_str(), "next_prime big", "next_prime(" << B << ")"); }
    vh::nontrivial(n);
}
SCENARIO(prime_limits, 4, 4) {
    bool t = false; uint64_t big = 18446744073709551557ull; // 2^64-59
    VREQ(clpoly::next_prime_64(big - 1) == big, "next", "largest 64-bit prime not found");
    try { clpoly::next_prime_64(big + R.below(58)); } catch (const std::exception&) { t = true; } VREQ(t, "next-overflow", "next_prime_64 beyond 2^64 raised no exception");
    for (uint64_t n = 0; n <= 2; ++n) { t = false; try { clpoly::prev_prime_64(n); } catch (const std::exception&) { t = true; } VREQ(t, "prev-underflow", "prev_prime_64(" << n << ") raised no exception"); }
    VREQ(clpoly::prev_prime_64(~0ull) == big, "prev", "prev_prime_64(2^64-1)");
    vh::nontrivial(R.next());
}
