#define P01_PART2
#include "P01.cpp"
