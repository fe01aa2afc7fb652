#define ONLY10
#include "cla.cpp"
