#define MALFORMED
#include "harness/serial.cpp"
