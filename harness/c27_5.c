#define P_NAME pool_5
#define SSA_MAXELEM 4
#define SSA_ELEMSIZE 17
#include "c27_t.h"
