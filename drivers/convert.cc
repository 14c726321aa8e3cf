// P05: conversions between orders, coefficient rings, sparse multivariate and univariate form.
#include "ring.hh"
using namespace ring;
template <class T> uint64_t mh(const T& a) { return vh::hash_str(a.str()); }
template <class X> void begin(X& c, Rng& R, unsigned nv) { MkCtx<typename X::coeff, typename X::comp_t>::go(c, R, nv); }
// order A -> order B over the same ring, by assignment, conversion, move
template <class Tc, class C1, class C2> void reorder(Rng& R) {
    cv::vars(70); unsigned nv = R.chance(1, 6) ? pick_nv(R) : 1 + R.below(5); Ctx<Tc, C1> a; Ctx<Tc, C2> b; begin(a, R, nv); begin(b, R, nv); b.p = a.p;
    auto m = rpoly(R, a, nv, 1 + R.below(6), R.below(14), R.below(4)); vh::desc(a.name + " -> " + b.name + " " + m.str()); auto A = a.mk(m); const auto A0 = A;
    auto junk = rpoly(R, b, nv, 3, R.below(4), 0); auto B = b.mk(junk);
    clpoly::poly_convert(A, B); b.same(B, m, "poly_convert"); VREQ(A == A0, "operand-changed", "conversion changed its input");
    if constexpr (!std::is_same_v<C1, C2>) { auto B2 = b.mk(junk); B2 = A; b.same(B2, m, "operator="); } else { auto B2 = b.mk(junk); B2 = A; a.same(B2, m, "operator= adopts the order"); }
    { auto S = A; clpoly::poly_convert(S, S); a.same(S, m, "self conversion"); }
    { auto A2 = a.mk(typename Ctx<Tc, C1>::M()); clpoly::poly_convert(B, A2); a.same(A2, m, "there and back"); VREQ(A2 == A0, "round-trip", "converting to " << b.name << " and back changed the polynomial"); }
    { auto A3 = A; auto B3 = b.mk(junk); clpoly::poly_convert(std::move(A3), B3); b.same(B3, m, "moving poly_convert"); VREQ(B3 == B, "move-differs", "moving conversion differs from copying conversion"); }
    if (m.t.size() > 1) vh::nontrivial(mh(m) + vh::hash_str(a.name + b.name));
    vh::sample(a.name + " -> " + b.name + " " + m.str());
}
#define RO(TC, N1, C1, N2, C2) static vh::Reg ro_##TC##N1##N2("reorder_" #TC "_" #N1 "_" #N2, 700, 40000, reorder<TC, C1, C2>);
RO(ZZ, grlex, clpoly::grlex, lex, clpoly::lex) RO(ZZ, grlex, clpoly::grlex, clex, clex) RO(ZZ, grlex, clpoly::grlex, uorder, uorder) RO(ZZ, lex, clpoly::lex, uorder, uorder) RO(ZZ, clex, clex, uorder, uorder) RO(ZZ, clex, clex, clex2, clex)
RO(QQ, grlex, clpoly::grlex, lex, clpoly::lex) RO(QQ, lex, clpoly::lex, uorder, uorder)
// coefficient rings
template <class C> void rings(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(5); Ctx<ZZ, C> z; Ctx<QQ, C> q; Ctx<Zp, C> f; begin(z, R, nv); q.comp = f.comp = z.comp; q.ord = f.ord = z.ord; q.name = f.name = z.name; f.p = gen::prime(R);
    auto m = rpoly(R, z, nv, 1 + R.below(6), R.below(14), R.below(4));
    if (R.chance(1, 3)) { mpz_class pp; mpz_set_ui(pp.get_mpz_t(), f.p); m = m * pp; for (unsigned i = R.below(4); i--;) m.add_term(gen::exp_upto(R, nv, 4), gen::coef(R, 1)); } // many coefficients vanish modulo p
    auto mq = rpoly(R, q, nv, 1 + R.below(6), R.below(10), R.below(4)); vh::desc(z.name + " p=" + std::to_string(f.p) + " Z:" + m.str() + " Q:" + mq.str());
    auto P = z.mk(m); const auto P0 = P; mdl::F mf = mdl::toF(m, f.p);
    auto F = clpoly::polynomial_mod(P, f.p); f.same(F, mf, "polynomial_mod"); { auto P2 = P; auto F2 = clpoly::polynomial_mod(std::move(P2), f.p); f.same(F2, mf, "moving polynomial_mod"); }
    { auto Q = q.mk(mdl::Q()); clpoly::poly_convert(P, Q); q.same(Q, mdl::toQ(m), "ZZ->QQ"); auto Z = z.mk(mdl::Z()); clpoly::poly_convert(Q, Z); z.same(Z, m, "QQ->ZZ of an integer polynomial"); }
    { mdl::Z want = mdl::clear_den(mq); auto Q = q.mk(mq); const auto Q0 = Q; auto Z = z.mk(m); clpoly::poly_convert(Q, Z); z.same(Z, want, "QQ->ZZ clears denominators by their lcm"); VREQ(Q == Q0, "operand-changed", "conversion changed its input"); auto Z2 = z.mk(m); clpoly::poly_convert(std::move(Q), Z2); z.same(Z2, want, "moving QQ->ZZ"); }
    { mdl::Z want; for (auto& t : mf.t) { mpz_class v; mpz_set_ui(v.get_mpz_t(), t.second.v); want.add_term(t.first, v); } auto Z = z.mk(m); clpoly::poly_convert(F, Z); z.same(Z, want, "Zp->ZZ"); auto F3 = F; auto Z2 = z.mk(mdl::Z()); clpoly::poly_convert(std::move(F3), Z2); z.same(Z2, want, "moving Zp->ZZ"); f.same(clpoly::polynomial_mod(Z, f.p), mf, "Zp->ZZ->Zp"); }
    VREQ(P == P0, "operand-changed", "conversion changed its input");
    if (m.t.size() > 1 && mq.t.size() > 1) vh::nontrivial(mh(m) * 3 + mh(mq) + f.p);
}
static vh::Reg rg1("rings_grlex", 1500, 60000, rings<clpoly::grlex>); static vh::Reg rg2("rings_lex", 800, 40000, rings<clpoly::lex>); static vh::Reg rg3("rings_clex", 600, 20000, rings<clex>); static vh::Reg rg4("rings_uorder", 600, 20000, rings<uorder>);
// constants, variables, monomials, is_number, tonum
template <class C> void atoms(Rng& R) {
    cv::vars(70); unsigned nv = 1 + R.below(5); Ctx<ZZ, C> z; Ctx<QQ, C> q; begin(z, R, nv); q.comp = z.comp; q.ord = z.ord; q.name = z.name;
    mpz_class k = R.chance(1, 5) ? mpz_class(0) : gen::integer(R); mpq_class r(gen::integer(R), abs(gen::coef(R, R.below(4)))); r.canonicalize(); int small = (int)R.range(-5, 5); unsigned v = R.below(nv); Exp e = gen::exp_upto(R, nv, 4); mdl::Z me; me.add_term(e, 1);
    vh::desc(z.name + " k=" + k.get_str() + " r=" + r.get_str() + " v=" + cv::V()[v].name() + " e=" + me.str()); auto junk = rpoly(R, z, nv, 2, 3, 0);
    auto nop = [&] { return z.mk(junk); }; auto nq = [&] { return q.mk(mdl::toQ(junk)); };
    { auto P = nop(); P = small; z.same(P, mdl::Z(mpz_class(small)), "int"); VREQ(clpoly::is_number(P) && cv::mz(clpoly::tonum(P)) == small, "tonum", "tonum of the constant " << small); }
    { auto P = nop(); P = cv::zz(k); z.same(P, mdl::Z(k), "ZZ"); VREQ(clpoly::is_number(P) && cv::mz(clpoly::tonum(P)) == k, "tonum", "tonum of the constant " << k); }
    { auto P = nq(); P = cv::qq(r); q.same(P, mdl::Q(r), "QQ"); VREQ(clpoly::is_number(P) && cv::mq(clpoly::tonum(P)) == r, "tonum", "tonum of the constant " << r); }
    { auto P = nq(); P = cv::zz(k); q.same(P, mdl::Q(mpq_class(k)), "ZZ to QQ polynomial"); }
    { auto P = nop(); P = cv::V()[v]; z.same(P, mdl::Z::var(v), "variable"); VREQ(!clpoly::is_number(P), "is_number", "a variable is reported as a number"); bool thrown = false; try { clpoly::tonum(P); } catch (const std::invalid_argument&) { thrown = true; } VREQ(thrown, "tonum", "tonum of a non-constant did not throw"); }
    { auto T = z.mk(me); auto P = nop(); P = T.front().first; z.same(P, me, "monomial"); VREQ(clpoly::is_number(P) == e.empty(), "is_number", "is_number of a monomial"); }
    VREQ(clpoly::is_number(z.mk(mdl::Z())) && !clpoly::tonum(z.mk(mdl::Z())), "tonum", "the zero polynomial is the number 0");
    vh::nontrivial(vh::hash_str(z.name + k.get_str() + r.get_str() + me.str()));
}
static vh::Reg at1("atoms_grlex", 600, 20000, atoms<clpoly::grlex>); static vh::Reg at2("atoms_lex", 600, 20000, atoms<clpoly::lex>); static vh::Reg at3("atoms_clex", 400, 20000, atoms<clex>);
// univariate <-> multivariate
template <class C> void univ(Rng& R) {
    cv::vars(70); Ctx<ZZ, C> z; begin(z, R, 5); unsigned v = R.below(5); auto m = gen::upoly(R, R.below(R.chance(1, 8) ? 60 : 9), R.below(4), 2 + R.below(4), 0); if (R.chance(1, 20)) m = mdl::Z(); mdl::Z mv; for (auto& t : m.t) { Exp e(v + 1, 0); e[v] = mdl::eget(t.first, 0); mv.add_term(e, t.second); }
    vh::desc(z.name + " v=" + cv::V()[v].name() + " " + m.str()); auto U = cv::tou<ZZ>(m); const auto U0 = U; auto P = z.mk(rpoly(R, z, 5, 3, 3, 0)); clpoly::poly_convert(U, P, cv::V()[v]); z.same(P, mv, "univariate -> multivariate"); VREQ(U == U0, "operand-changed", "input changed");
    auto B = cv::tou<ZZ>(gen::upoly(R, 3, 0)); clpoly::poly_convert(P, B); { std::string w = cv::canon(B); VREQ(w.empty(), "canonical:upoly", w); VREQ(cv::from(B) == m && B == U, "value:upoly", "multivariate -> univariate: got " << B << " expected " << U); }
    // Q and F_p univariate
    uint64_t p = gen::prime(R); auto F = clpoly::polynomial_mod(U, p); { std::string w = cv::canon(F); VREQ(w.empty(), "canonical:umod", w << " p=" << p); VREQ(cv::from(F) == mdl::toF(m, p), "value:umod", "univariate polynomial_mod p=" << p << ": " << F); }
    { auto Z = cv::tou<ZZ>(gen::upoly(R, 2, 0)); clpoly::poly_convert(F, Z); mdl::Z want; for (auto& t : mdl::toF(m, p).t) { mpz_class x; mpz_set_ui(x.get_mpz_t(), t.second.v); want.add_term(t.first, x); } VREQ(cv::canon(Z).empty() && cv::from(Z) == want, "value:uZp->ZZ", "univariate Zp->ZZ p=" << p << ": " << Z); }
    { clpoly::upolynomial_<QQ> Q; clpoly::poly_convert(U, Q); VREQ(cv::canon(Q).empty() && cv::from(Q) == mdl::toQ(m), "value:uZZ->QQ", "univariate ZZ->QQ: " << Q); mdl::Q mq; for (auto& t : m.t) { mpq_class c(t.second, abs(gen::coef(R, 1))); c.canonicalize(); mq.add_term(t.first, c); } auto Q2 = cv::tou<QQ>(mq); clpoly::upolynomial_<ZZ> Z = U; clpoly::poly_convert(Q2, Z); VREQ(cv::canon(Z).empty() && cv::from(Z) == mdl::clear_den(mq), "value:uQQ->ZZ", "univariate QQ->ZZ: got " << Z << " from " << Q2); }
    if (m.t.size() > 1) vh::nontrivial(mh(m) + v + p + vh::hash_str(z.name));
}
static vh::Reg un1("univ_grlex", 1200, 40000, univ<clpoly::grlex>); static vh::Reg un2("univ_lex", 600, 20000, univ<clpoly::lex>); static vh::Reg un3("univ_uorder", 600, 20000, univ<uorder>);
