#define P_NAME pool_4
#define SSA_MAXELEM 4
#define SSA_ELEMSIZE 8
#include "c27_t.h"
