#define P_NAME pool_3
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE sizeof(long)
#include "c27_t.h"
