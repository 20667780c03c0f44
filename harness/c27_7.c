#define P_NAME pool_7
#define SSA_MAXELEM 8
#define SSA_ELEMSIZE 32
#include "c27_t.h"
