#include "gcdops.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace ring;
template <class X> static void mgcd(Rng& R) {
    cv::vars(8); unsigned nv = 1 + R.below(4); X c; MkCtx<ZZ, typename X::comp_t>::go(c, R, nv); auto q = gcd_pair(R, nv, nv > 2 ? 2 : 4); if (R.chance(1, 2)) std::swap(q.a, q.b);
    vh::set_random_device(vh::random_rd_mode(R), R.next()); vh::desc(c.name + " " + q.kind + " A=" + q.a.str() + " B=" + q.b.str()); auto A = c.mk(q.a), B = c.mk(q.b); const auto A0 = A, B0 = B;
    auto G = clpoly::gcd(A, B); auto why = cv::canon(G, c.ord); VREQ(why.empty(), "canonical", why << " in " << G); auto g = cv::from(G); check_gcd(g, q.a, q.b, "gcd"); VREQ(A == A0 && B == B0, "operand-changed", "an argument changed");
    if (R.chance(1, 3)) { vh::set_random_device(vh::random_rd_mode(R), R.next()); auto H = cv::from(clpoly::polynomial_GCD(B, A)); VREQ(fl::same_up_to_unit(g, H), "not-symmetric", "gcd(B,A)=" << H << " gcd(A,B)=" << g); }
    if (R.chance(1, 20)) { typename X::Poly z(c.comp); VREQ(fl::same_up_to_unit(cv::from(clpoly::gcd(A, z)), q.a) && fl::same_up_to_unit(cv::from(clpoly::gcd(z, A)), q.a) && clpoly::gcd(z, z).empty(), "gcd-with-zero", "gcd with zero"); }
    vh::event(std::string("kind ") + q.kind); if (!g.is_const()) vh::event("gcd of positive degree"); if (q.a.t.size() > 1 && q.b.t.size() > 1) vh::nontrivial(mdl::hash(q.a) * 31 + mdl::hash(q.b)); if (nv > 2) vh::sample(c.name + " gcd(" + vh::clip(q.a.str(), 200) + ", " + vh::clip(q.b.str(), 200) + ")");
}
static vh::Reg r1("gcd_lex", 900, 60000, mgcd<Ctx<ZZ, clpoly::lex>>), r2("gcd_grlex", 500, 30000, mgcd<Ctx<ZZ, clpoly::grlex>>), r3("gcd_custom", 500, 30000, mgcd<Ctx<ZZ, clex>>), r4("gcd_priority", 400, 20000, mgcd<Ctx<ZZ, uorder>>);
// the same pair under many random streams: the answer must not move
SCENARIO(streams, 40, 3000) {
    cv::vars(8); unsigned nv = 2 + R.below(2); Ctx<ZZ, clpoly::lex> c; MkCtx<ZZ, clpoly::lex>::go(c, R, nv); auto q = gcd_pair(R, nv, 3); vh::desc(std::string(q.kind) + " A=" + q.a.str() + " B=" + q.b.str()); auto A = c.mk(q.a), B = c.mk(q.b);
    for (int i = 0; i < 12; ++i) { vh::set_random_device(vh::random_rd_mode(R), R.next()); check_gcd(cv::from(clpoly::gcd(A, B)), q.a, q.b, "gcd under another random stream"); } vh::nontrivial(mdl::hash(q.a) * 31 + mdl::hash(q.b));
}
// gcd of three: associativity up to unit, through the library only
SCENARIO(three, 60, 4000) {
    cv::vars(8); unsigned nv = 1 + R.below(3); Ctx<ZZ, clpoly::grlex> c; MkCtx<ZZ, clpoly::grlex>::go(c, R, nv); auto q = gcd_pair(R, nv, 2); Z h = zr(R, nv, 2, 3, 1); q.a = q.a * h; q.b = q.b * h; Z t = h * zr(R, nv, 2, 3, 1); vh::desc("A=" + q.a.str() + " B=" + q.b.str() + " C=" + t.str()); vh::set_random_device(vh::random_rd_mode(R), R.next());
    auto A = c.mk(q.a), B = c.mk(q.b), T = c.mk(t); auto u = cv::from(clpoly::gcd(clpoly::gcd(A, B), T)), v = cv::from(clpoly::gcd(A, clpoly::gcd(B, T))); VREQ(fl::same_up_to_unit(u, v), "not-associative", u << " vs " << v); check_gcd(u, fl::gcd(q.a, q.b), t, "gcd of three"); vh::nontrivial(mdl::hash(q.a) * 31 + mdl::hash(t));
}
// a cooperating random device: the first evaluation points of the modular algorithm are predicted and made unlucky (a coefficient of the
// gcd, a leading coefficient, or the resultant of the cofactors vanishes there)
SCENARIO(unlucky_points, 120, 8000) {
    cv::vars(8); unsigned nv = 2 + R.below(2); Ctx<ZZ, clpoly::lex> c; MkCtx<ZZ, clpoly::lex>::go(c, R, nv); bool mx = R.chance(1, 3); std::mt19937_64 gen(mx ? 0xffffffffu : 0u); std::uniform_int_distribution<uint64_t> dis(0, 18446744073709551556ull); std::vector<uint64_t> pts; for (int i = 0; i < 8; ++i) pts.push_back(dis(gen));
    auto root = [&](unsigned v) { Z r(mpz_class((long)1)); unsigned n = 1 + R.below(2); for (unsigned i = 0; i < n; ++i) { r = r * (Z::var(v) - Z(u64(pts[R.below(R.chance(1, 2) ? 2 : 6)]))); } return r; };
    unsigned z = nv - 1; Z X = Z::var(0), one(mpz_class((long)1)); Z g = X * X + X * Z::var(z) * gen::coef(R, 0) + Z(gen::coef(R, 0)), a = X + Z::var(z) + Z(mpz_class((long)R.range(1, 5))), b = X - Z::var(z) * mpz_class((long)R.range(2, 4)); if (nv > 2) { g = g + Z::var(1) * gen::coef(R, 0); a = a + Z::var(1) * X; b = b + Z::var(1); }
    for (unsigned k = 1 + R.below(2); k--;) switch (R.below(6)) {
        case 0: g = g + X * root(z); break;
        case 1: g = g + root(z) * (nv > 2 ? Z::var(1) : one); break;
        case 2: g = g + X * X * X * root(z); break;
        case 3: b = a + root(z); break;                      // cofactors agree at the point
        case 4: a = a * X + root(z); b = b * X + root(z); break; // both vanish at x=0 there
        default: if (nv > 2) g = g + X * Z::var(1) * root(z) + X * root(1); else a = a * X + X * X * X * root(z); break; }
    Z A_ = g * a, B_ = g * b; if (A_.zero() || B_.zero()) return; vh::set_random_device(mx ? vh::RD::Max : vh::RD::Zero, R.next()); vh::desc("A=" + A_.str() + " B=" + B_.str()); auto A = c.mk(A_), B = c.mk(B_);
    auto G = clpoly::gcd(A, B); auto why = cv::canon(G, c.ord); VREQ(why.empty(), "canonical", why << " in " << G); check_gcd(cv::from(G), A_, B_, "gcd at unlucky points"); vh::nontrivial(mdl::hash(A_) * 31 + mdl::hash(B_)); vh::event("predicted unlucky points");
}
