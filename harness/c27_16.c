#define P_NAME pool_16
#define SSA_MAXELEM 1024
#define SSA_ELEMSIZE 32
#include "c27_t.h"
