#define P_NAME pool_12
#define SSA_MAXELEM 64
#define SSA_ELEMSIZE 100
#include "c27_t.h"
