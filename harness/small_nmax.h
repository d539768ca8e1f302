/* correspondences.c with a small nmax: the capacity arithmetic is the same, the arrays are small enough to be symbolic */
#include "correspondences.h"
#undef nmax
#ifndef NMAX
#define NMAX 4
#endif
#define nmax NMAX
