#include "gbops.hh"
using namespace gb;
SCENARIO(ideal_zz_grlex, 500, 30000) { ideal_case<ZZ, clpoly::grlex>(R); }
SCENARIO(ideal_zz_lex, 500, 30000) { ideal_case<ZZ, clpoly::lex>(R); }
SCENARIO(division_zz, 1200, 60000) { division_case<ZZ, clpoly::grlex>(R); }
