#define PART 1
#define BULK_ONLY
#include "c28_parallel.cpp"
