/* one pool configuration: P_NAME, SSA_MAXELEM, SSA_ELEMSIZE */
#include "ssalloc.c"
#include "c27.h"
static void *b_alloc(void *p,size_t n) { return ssa_alloc((ssa_pool*)p,n); }
static void b_free(void *p,void*x) { ssa_free((ssa_pool*)p,x); }
static void b_init(void *p) { ssa_init((ssa_pool*)p); }
static void *s_alloc(void *p,size_t n) { return SSALLOC(n); }
static void s_free(void *p,void*x) { SSFREE(x); }
static void s_init(void *p) { SSINIT; }
const struct pooldef P_NAME={SSA_MAXELEM,SSA_ELEMSIZE,sizeof(ssa_pool),b_alloc,b_free,b_init,&SSA_POOL,s_alloc,s_free,s_init};
