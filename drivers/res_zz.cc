#include "resultant_ops.hh"
using namespace ring;
SCENARIO(res_grlex, 1500, 80000) { res_case<ZZ, clpoly::grlex>(R); }
SCENARIO(res_uorder, 1500, 80000) { res_case<ZZ, uorder>(R); }
SCENARIO(disc_lex, 700, 40000) { disc_case<ZZ, clpoly::lex>(R); }
