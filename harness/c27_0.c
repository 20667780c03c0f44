#define P_NAME pool_0
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE 1
#include "c27_t.h"
