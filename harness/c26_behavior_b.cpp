// the second half of c26_behavior.cpp: adaptors of two senders
#define PART 1
#include "c26_behavior.cpp"
