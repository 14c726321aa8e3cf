#include "ringops.hh"
using namespace ring;
RING_REG(Zp, grlex, clpoly::grlex, 1200, 60000)
RING_REG(Zp, lex, clpoly::lex, 800, 40000)
RING_REG(Zp, uorder, uorder, 500, 20000)
static vh::Reg r_u("upoly", 2500, 50000, upoly_case<Zp>);
