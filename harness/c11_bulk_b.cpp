#define PART 1
#include "c11_bulk.cpp"
