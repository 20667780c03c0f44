#define P_NAME pool_10
#define SSA_MAXELEM 32
#define SSA_ELEMSIZE 24
#include "c27_t.h"
