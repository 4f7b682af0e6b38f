// P34: queries of the whole scene (rays and boxes) against all bodies one by one.
#include "harness/worldhist.hpp"
PBT(scene_history, 12000, 400000, "two bodies touched or were joined, and something was then removed or changed") { history(c, QUERIES); }
