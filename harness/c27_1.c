#define P_NAME pool_1
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE 64
#include "c27_t.h"
