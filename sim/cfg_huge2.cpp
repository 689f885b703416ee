#define HUGE_NT 132
#include "cfg_huge.cpp"
