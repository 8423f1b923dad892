#define MODE_SCOPE 1
#include "h_flow.c"
