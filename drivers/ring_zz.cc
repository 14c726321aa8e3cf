// P04 over the integers, all orders; plus the mixed operators with numbers and monomials.
#include "ringops.hh"
using namespace ring;
RING_REG(ZZ, grlex, clpoly::grlex, 2500, 120000)
RING_REG(ZZ, lex, clpoly::lex, 1500, 80000)
RING_REG(ZZ, clex, clex, 800, 40000)
RING_REG(ZZ, uorder, uorder, 800, 40000)
static vh::Reg r_u("upoly", 3000, 100000, upoly_case<ZZ>);
// operators mixing polynomials with integers, monomials and variables (default order)
SCENARIO(mixed, 3000, 100000) {
    cv::vars(70); Ctx<ZZ, clpoly::grlex> c; MkCtx<ZZ, clpoly::grlex>::go(c, R, 3); typedef mdl::Z Z;
    Z a = rpoly(R, c, 3, 3, R.below(5), 0); if (R.chance(1, 3)) a.add_term(Exp(), mpz_class(a.constant() == 0 ? 1 : 0) + (long)R.range(-2, 2));
    mpz_class k = R.chance(1, 3) ? mpz_class(-a.constant()) : R.chance(1, 4) ? mpz_class(0) : R.chance(1, 2) ? mpz_class((long)R.range(-3, 3)) : gen::edge(R);
    Exp e = gen::exp_upto(R, 3, 3); if (!a.t.empty() && R.chance(1, 2)) { auto it = a.t.begin(); std::advance(it, R.below(a.t.size())); e = it->first; }
    Z m; m.add_term(e, 1); auto A = c.mk(a); const auto A0 = A; ZZ K = cv::zz(k); clpoly::monomial M; { auto T = c.mk(m); M = T.front().first; }
    clpoly::variable v = cv::V()[R.below(3)]; Z zv = Z::var(cv::vindex(v)), zk(k);
    vh::desc("A=" + a.str() + " k=" + k.get_str() + " m=" + m.str() + " v=" + v.name());
    c.same(A + K, a + zk, "poly+ZZ"); c.same(K + A, a + zk, "ZZ+poly"); c.same(A - K, a - zk, "poly-ZZ"); c.same(K - A, zk - a, "ZZ-poly"); c.same(A * K, a * zk, "poly*ZZ");
    if (mpz_fits_slong_p(k.get_mpz_t()) && k != mpz_class(INT64_MIN)) { int64_t i = mpz_get_si(k.get_mpz_t());
        c.same(A + i, a + zk, "poly+int"); c.same(i + A, a + zk, "int+poly"); c.same(A - i, a - zk, "poly-int"); c.same(i - A, zk - a, "int-poly");
        c.same(M + i, m + zk, "monomial+int"); c.same(i + M, m + zk, "int+monomial"); c.same(M - i, m - zk, "monomial-int"); c.same(i - M, zk - m, "int-monomial"); c.same(M * i, m * zk, "monomial*int"); c.same(i * M, m * zk, "int*monomial"); }
    c.same(A + M, a + m, "poly+monomial"); c.same(M + A, a + m, "monomial+poly"); c.same(A - M, a - m, "poly-monomial"); c.same(M - A, m - a, "monomial-poly");
    c.same(M * K, m * zk, "monomial*ZZ"); c.same(K * M, m * zk, "ZZ*monomial"); c.same(-M, -m, "-monomial");
    clpoly::monomial N = clpoly::pow(v, (int64_t)R.below(4)); Z n = cv::from(clpoly::polynomial_ZZ(N));
    c.same(M + N, m + n, "monomial+monomial"); c.same(M - N, m - n, "monomial-monomial"); c.same(clpoly::polynomial_ZZ(M * N), m * n, "monomial*monomial"); c.same(M - M, Z(), "monomial-monomial same");
    c.same(clpoly::polynomial_ZZ(v), zv, "poly(variable)"); c.same(clpoly::polynomial_ZZ(K), zk, "poly(ZZ)"); c.same(clpoly::polynomial_ZZ((int)R.below(1)), Z(), "poly(0)"); c.same(clpoly::polynomial_ZZ(M), m, "poly(monomial)");
    { auto W = clpoly::polynomial_ZZ(cv::V()[0] * v); c.same(W, Z::var(0) * zv, "variable*variable"); }
    { uint64_t q = R.below(5); auto PM = clpoly::pow(M, (int64_t)q); Z pm(mpz_class(1)); for (uint64_t i = 0; i < q; ++i) pm = pm * m; c.same(clpoly::polynomial_ZZ(PM), pm, "monomial^n"); }
    VREQ(A == A0, "operand-changed", "operand changed");
    vh::nontrivial(mhash(a) * 31 + mhash(m) * 7 + vh::hash_str(k.get_str()));
}
