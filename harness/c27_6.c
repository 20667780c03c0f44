#define P_NAME pool_6
#define SSA_MAXELEM 8
#define SSA_ELEMSIZE 1
#include "c27_t.h"
