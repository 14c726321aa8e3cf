#include "tri.hh"
SCENARIO(sas, 400, 20000) { tri::sas_case(R); }
