#define P_NAME pool_9
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE sizeof(int)
#include "c27_t.h"
