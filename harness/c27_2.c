#define P_NAME pool_2
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE 3
#include "c27_t.h"
