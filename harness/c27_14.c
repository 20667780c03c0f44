#define P_NAME pool_14
#define SSA_MAXELEM 256
#define SSA_ELEMSIZE 3
#include "c27_t.h"
