#include "vh.hh"
#include "conv.hh"
#include "gen.hh"
#include <clpoly/polynomial_factorize.hh>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpz_mat.h>
using vh::Rng; using cv::ZZ; typedef std::vector<std::vector<mpz_class>> M;
struct FM { fmpz_mat_t m; FM(const M& a) { fmpz_mat_init(m, a.size(), a.empty() ? 0 : a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) fmpz_set_mpz(fmpz_mat_entry(m, i, j), a[i][j].get_mpz_t()); } ~FM() { fmpz_mat_clear(m); } FM(const FM&) = delete; };
static std::string show(const M& a) { std::string s = "["; for (auto& r : a) { s += "["; for (size_t j = 0; j < r.size(); ++j) s += (j ? "," : "") + r[j].get_str(); s += "]"; } return s + "]"; }
static mpz_class dot(const std::vector<mpz_class>& a, const std::vector<mpz_class>& b) { mpz_class s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static M from(const std::vector<std::vector<ZZ>>& a) { M r; for (auto& x : a) { r.emplace_back(); for (auto& y : x) r.back().push_back(cv::mz(y)); } return r; }
static void run(Rng& R, const M& a, const char* kind) {
    size_t n = a.size(); std::vector<std::vector<ZZ>> A, U; for (auto& r : a) { A.emplace_back(); for (auto& x : r) A.back().push_back(cv::zz(x)); } if (R.chance(1, 3)) U.assign(1 + R.below(4), std::vector<ZZ>(R.below(5), ZZ(7)));
    mpz_class B; switch (R.below(4)) { case 0: B = 0; break; case 1: B = dot(a[R.below(n)], a[R.below(n)]); break; case 2: B = gen::bigint(R, 1 + R.below(60)); break; default: B = 1 + (long)R.below(200); } vh::desc(std::string(kind) + " M=" + show(a) + " B=" + B.get_str());
    auto rows = clpoly::__lll_reduce(A, U, cv::zz(B)); M m = from(A), u = from(U); VREQ(m.size() == n && u.size() == n, "shape", "shape changed"); for (size_t i = 0; i < n; ++i) VREQ(m[i].size() == n && u[i].size() == n, "shape", "shape changed");
    FM fa(a), fu(u), fm(m), prod(m); fmpz_mat_mul(prod.m, fu.m, fa.m); VREQ(fmpz_mat_equal(prod.m, fm.m), "transform", "U*M_old != M_new, M_new=" << show(m) << " U=" << show(u)); fmpz_t d; fmpz_init(d); fmpz_mat_det(d, fu.m); bool uni = fmpz_is_pm1(d); fmpz_clear(d); VREQ(uni, "unimodular", "U is not unimodular: " << show(u)); fmpz_mat_hnf(fa.m, fa.m); fmpz_mat_hnf(prod.m, fm.m); VREQ(fmpz_mat_equal(fa.m, prod.m), "lattice", "lattice changed");
    // reducedness with exact rational Gram-Schmidt
    std::vector<std::vector<mpq_class>> bs, mu(n, std::vector<mpq_class>(n)); std::vector<mpq_class> nb; size_t rank = 0; for (size_t i = 0; i < n; ++i) { std::vector<mpq_class> v(m[i].begin(), m[i].end()); for (size_t j = 0; j < i; ++j) { if (nb[j] == 0) continue; mpq_class s = 0; for (size_t k = 0; k < n; ++k) s += bs[j][k] * m[i][k]; mu[i][j] = s / nb[j]; for (size_t k = 0; k < n; ++k) v[k] -= mu[i][j] * bs[j][k]; } mpq_class s = 0; for (auto& x : v) s += x * x; bs.push_back(v); nb.push_back(s); if (s != 0) ++rank; }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) VREQ(abs(mu[i][j]) * 2 <= 1, "size-reduced", "mu[" << i << "][" << j << "]=" << mu[i][j] << " in " << show(m));
    for (size_t i = 1; i < n; ++i) { if (nb[i - 1] == 0) { continue; } VREQ(nb[i] >= (mpq_class(3, 4) - mu[i][i - 1] * mu[i][i - 1]) * nb[i - 1], "lovasz", "Lovasz condition fails at row " << i << " of " << show(m)); }
    if (rank < n) { vh::event("rank-deficient inputs"); size_t z = 0; while (z < n && dot(m[z], m[z]) == 0) ++z; VREQ(z == n - rank, "dependent-rows", "reduced rows of a rank " << rank << " lattice start with " << z << " zero rows: " << show(m)); }
    // short rows
    std::vector<bool> in(n); mpz_class prev = -1; for (int r : rows) { VREQ(r >= 0 && (size_t)r < n && !in[r], "short-rows", "index " << r); in[r] = true; mpz_class s = dot(m[r], m[r]); VREQ(s <= B && s >= prev, "short-rows", "row " << r << " norm " << s); prev = s; } for (size_t i = 0; i < n; ++i) VREQ(in[i] == (dot(m[i], m[i]) <= B), "short-rows", "row " << i << " wrongly " << (in[i] ? "listed" : "missing"));
    bool id = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (u[i][j] != (i == j ? 1 : 0)) id = false; if (!id) vh::nontrivial(vh::hash_str(show(a))); vh::event(std::string("kind ") + kind); vh::event_max("dimension", n); if (!rows.empty()) vh::event("short rows reported", rows.size()); vh::sample(std::string(kind) + " " + vh::clip(show(a), 200));
}
static M rnd(Rng& R, size_t n, unsigned bits) { M a(n, std::vector<mpz_class>(n)); for (auto& r : a) for (auto& x : r) { x = gen::bigint(R, 1 + R.below(bits)); if (R.chance(1, 2)) x = -x; if (R.chance(1, 5)) x = 0; } return a; }
SCENARIO(small, 3000, 150000) { size_t n = 1 + R.below(5); M a(n, std::vector<mpz_class>(n)); long b = R.chance(1, 2) ? 2 : 1 + (long)R.below(50); for (auto& r : a) for (auto& x : r) x = (long)R.range(-b, b); run(R, a, "small"); }
SCENARIO(random_wide, 250, 12000) { size_t n = 1 + R.below(7); run(R, rnd(R, n, R.chance(1, 3) ? 130 : 40), "wide"); }
SCENARIO(deficient, 1200, 60000) { size_t n = 1 + R.below(6); M a = rnd(R, n, 6); unsigned k = 1 + R.below(n); for (unsigned t = 0; t < k; ++t) { size_t i = R.below(n); switch (R.below(4)) { case 0: for (auto& x : a[i]) x = 0; break; case 1: { size_t j = R.below(n); long c = R.range(-3, 3); for (size_t q = 0; q < n; ++q) a[i][q] = a[j][q] * c; break; } case 2: { size_t j = R.below(n), l = R.below(n); long c = R.range(-3, 3), e = R.range(-3, 3); std::vector<mpz_class> v(n); for (size_t q = 0; q < n; ++q) v[q] = a[j][q] * c + a[l][q] * e; a[i] = v; break; } default: { size_t j = R.below(n); for (auto& r : a) r[j] = 0; } } } run(R, a, "rank deficient"); }
SCENARIO(knapsack, 150, 8000) { size_t n = 2 + R.below(7); M a(n, std::vector<mpz_class>(n)); for (size_t i = 0; i < n; ++i) a[i][i] = 1; for (size_t i = 0; i < n; ++i) a[i][n - 1] = gen::bigint(R, 10 + R.below(60)); run(R, a, "knapsack"); }
SCENARIO(cld_shape, 300, 15000) { size_t r = 1 + R.below(6), j = 1 + R.below(5); M a; for (size_t i = 0; i < r; ++i) { a.emplace_back(r + j); a[i][i] = 32; } for (size_t i = 0; i < j; ++i) { std::vector<mpz_class> v(r + j); for (size_t k = 0; k < r; ++k) { v[k] = gen::bigint(R, 1 + R.below(50)); if (R.chance(1, 2)) v[k] = -v[k]; } v[r + i] = 1; a.push_back(v); } run(R, a, "CLD shape"); }
// a reduced basis hidden by unimodular row operations
SCENARIO(hidden, 200, 10000) { size_t n = 2 + R.below(6); M a(n, std::vector<mpz_class>(n)); for (size_t i = 0; i < n; ++i) a[i][i] = (long)R.range(1, 20); if (R.chance(1, 3)) a[R.below(n)] = std::vector<mpz_class>(n); for (int t = 0; t < 20; ++t) { size_t i = R.below(n), j = R.below(n); if (i == j) continue; if (R.chance(1, 4)) { std::swap(a[i], a[j]); continue; } long c = R.range(-3, 3); for (size_t k = 0; k < n; ++k) a[i][k] += a[j][k] * c; } run(R, a, "hidden diagonal"); }
