#include "ringops.hh"
using namespace ring;
RING_REG(QQ, grlex, clpoly::grlex, 1200, 60000)
RING_REG(QQ, lex, clpoly::lex, 800, 40000)
static vh::Reg r_u("upoly", 1500, 50000, upoly_case<QQ>);
