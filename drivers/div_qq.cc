// P06 over QQ
#include "divops.hh"
using namespace ring;
DIV_REG(QQ, grlex, clpoly::grlex, 2500, 100000)
DIV_REG(QQ, lex, clpoly::lex, 2500, 100000)
DIV_REG(QQ, uorder, uorder, 800, 40000)
static vh::Reg r_u("upoly", 3000, 100000, udiv_case<QQ>);
