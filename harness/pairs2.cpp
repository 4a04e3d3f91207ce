#define PAIRS2
#include "pairs.cpp"
