#include "gbops.hh"
using namespace gb;
SCENARIO(gb_zz_grlex, 700, 30000) { basis_case<ZZ, clpoly::grlex>(R); }
SCENARIO(gb_zz_uorder, 700, 30000) { basis_case<ZZ, uorder>(R); }
