#define CONFLICT 1
#include "h_replica.c"
