#define VC_T float
#define VC_N(x) x##f
#include "fileio.cpp"
