#define P_NAME pool_19
#define SSA_MAXELEM 4096
#define SSA_ELEMSIZE 1
#include "c27_t.h"
