#define P_NAME pool_11
#define SSA_MAXELEM 64
#define SSA_ELEMSIZE 1
#include "c27_t.h"
