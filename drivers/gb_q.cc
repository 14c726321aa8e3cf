#include "gbops.hh"
using namespace gb;
SCENARIO(gb_qq_grlex, 500, 30000) { basis_case<QQ, clpoly::grlex>(R); }
SCENARIO(gb_qq_lex, 500, 30000) { basis_case<QQ, clpoly::lex>(R); }
SCENARIO(gb_qq_custom, 500, 30000) { basis_case<QQ, clex>(R); }
