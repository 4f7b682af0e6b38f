// P33: coefficients of contacts follow the materials of the bodies, also when these change.
#include "harness/worldhist.hpp"
PBT(material_history, 20000, 700000, "two bodies touched or were joined, and something was then removed or changed") { history(c, MATERIALS); }
