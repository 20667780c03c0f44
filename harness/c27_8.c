#define P_NAME pool_8
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE 7
#include "c27_t.h"
