#include "resultant_ops.hh"
using namespace ring;
SCENARIO(res_qq, 800, 40000) { res_case<QQ, clpoly::lex>(R); }
SCENARIO(res_zp, 1200, 60000) { res_case<Zp, uorder>(R); } // the copying form does not compile over Z/p
SCENARIO(det_matrix, 600, 30000) { det_case<ZZ>(R); }
