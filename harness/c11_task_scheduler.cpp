#define PART 2
#define BULK_ONLY
#include "c28_parallel.cpp"
