#define P_NAME pool_15
#define SSA_MAXELEM 512
#define SSA_ELEMSIZE 16
#include "c27_t.h"
