#define P_NAME pool_18
#define SSA_MAXELEM 2048
#define SSA_ELEMSIZE 5
#include "c27_t.h"
