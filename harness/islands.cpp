// P29: islands and sleeping under histories of operations.
#include "harness/worldhist.hpp"
PBT(world_history, 30000, 1000000, "two bodies touched or were joined, and something was then removed or changed") { history(c, ISLANDS); }
