#define PART 1
#include "c28_parallel.cpp"
