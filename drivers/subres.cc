#include "resultant_ops.hh"
using namespace ring;
SCENARIO(chain_lex, 1500, 80000) { chain_case<ZZ, clpoly::lex>(R); }
SCENARIO(chain_uorder, 1500, 80000) { chain_case<ZZ, uorder>(R); }
SCENARIO(chain_zp, 1500, 80000) { chain_case<Zp, uorder>(R); }
SCENARIO(chain_qq, 700, 40000) { chain_case<QQ, clpoly::grlex>(R); }
