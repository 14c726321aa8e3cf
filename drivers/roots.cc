#include "rr.hh"
SCENARIO(realroot, 300, 20000) { rr::realroot_case(R, false); }
SCENARIO(realroot_big, 100, 5000) { rr::realroot_case(R, true); }
SCENARIO(uspensky, 300, 20000) { rr::uspensky_case(R); }
SCENARIO(uspensky_list, 300, 20000) { rr::uspensky_list_case(R); }
SCENARIO(transforms, 400, 20000) { rr::transforms_case(R); }
