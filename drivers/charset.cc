#include "tri.hh"
SCENARIO(basset, 1500, 60000) { tri::basset_case(R); }
SCENARIO(charset, 700, 30000) { tri::charset_case(R); }
