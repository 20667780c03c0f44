#define P_NAME pool_13
#define SSA_MAXELEM 128
#define SSA_ELEMSIZE sizeof(void*)
#include "c27_t.h"
