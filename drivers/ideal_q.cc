#include "gbops.hh"
using namespace gb;
SCENARIO(ideal_qq_grlex, 500, 30000) { ideal_case<QQ, clpoly::grlex>(R); }
SCENARIO(ideal_qq_custom, 500, 30000) { ideal_case<QQ, clex>(R); }
SCENARIO(division_qq, 1200, 60000) { division_case<QQ, clpoly::lex>(R); }
