#define P_NAME pool_17
#define SSA_MAXELEM 1024
#define SSA_ELEMSIZE sizeof(long)
#include "c27_t.h"
