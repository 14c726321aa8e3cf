#include "rr.hh"
SCENARIO(history, 400, 20000) { rr::history_case(R); }
