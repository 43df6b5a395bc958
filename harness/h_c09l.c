/* the same visit on larger networks */
#define HMAX 260
#define EN_LARGE
#include "h_c09.c"
