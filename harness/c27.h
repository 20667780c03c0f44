#include <stddef.h>
struct pooldef { size_t max,elem,size; void*(*alloc)(void*,size_t); void(*free)(void*,void*); void(*init)(void*); void*stat; void*(*salloc)(void*,size_t); void(*sfree)(void*,void*); void(*sinit)(void*); };
