#define ONLY11
#include "cla.cpp"
