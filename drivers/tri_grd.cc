#include "tri.hh"
SCENARIO(zd_to_rc, 500, 20000) { tri::zd_case(R); }
SCENARIO(wucharset, 400, 20000) { tri::wu_case(R); }
SCENARIO(grd, 400, 20000) { tri::grd_case(R); }
