#define P_NAME pool_20
#define SSA_MAXELEM 131072
#define SSA_ELEMSIZE 4
#include "c27_t.h"
