#include "evalops.hh"
using namespace ring;
namespace q_ { EREG(QQ, qgrlex, clpoly::grlex, 3000, 100000) EREG(QQ, qlex, clpoly::lex, 3000, 100000) static vh::Reg r_u("univariate_qq", 3000, 100000, ueval_case<QQ>); }
namespace p_ { EREG(Zp, pgrlex, clpoly::grlex, 3000, 100000) EREG(Zp, plex, clpoly::lex, 3000, 100000) static vh::Reg r_u("univariate_zp", 3000, 100000, ueval_case<Zp>); }
