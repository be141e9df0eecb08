// the second half of c05_nothrow.cpp: several ingredients may throw
#define PART 1
#include "c05_nothrow.cpp"
