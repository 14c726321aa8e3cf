// P06 over Zp
#include "divops.hh"
using namespace ring;
DIV_REG(Zp, grlex, clpoly::grlex, 2500, 100000)
DIV_REG(Zp, lex, clpoly::lex, 2500, 100000)
DIV_REG(Zp, uorder, uorder, 800, 40000)
static vh::Reg r_u("upoly", 3000, 100000, udiv_case<Zp>);
