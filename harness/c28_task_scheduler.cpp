#define PART 2
#include "c28_parallel.cpp"
