// P06 over ZZ
#include "divops.hh"
using namespace ring;
DIV_REG(ZZ, grlex, clpoly::grlex, 2500, 100000)
DIV_REG(ZZ, lex, clpoly::lex, 2500, 100000)
DIV_REG(ZZ, uorder, uorder, 800, 40000)
DIV_REG(ZZ, clex, clex, 800, 40000)
static vh::Reg r_u("upoly", 3000, 100000, udiv_case<ZZ>);
