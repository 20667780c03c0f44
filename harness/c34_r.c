/* an ordinary program's translation unit that gets its stdio from stdio-repl.h */
#include <stdio.h>
#include <stdarg.h>
#include <stdint.h>
#include "stdio-repl.h"
#pragma GCC diagnostic ignored "-Wformat"
#pragma GCC diagnostic ignored "-Wformat-extra-args"
#pragma GCC diagnostic ignored "-Waddress"
static long v(char*d,size_t n,const char*f,...) { va_list ap; va_start(ap,f); long r=vsnprintf(d,n,f,ap); va_end(ap); return r; }
#define ARGS A[0],A[1],A[2],A[3],A[4],A[5],A[6],A[7],A[8],A[9],A[10],A[11]
#define ALL(...) switch(how) { case 0: printf(__VA_ARGS__); break; case 1: fprintf(stdout, __VA_ARGS__); break; case 2: fprintf(stderr, __VA_ARGS__); break; case 3: dprintf(fd, __VA_ARGS__); break; case 4: return snprintf(d, n, __VA_ARGS__); default: return v(d, n, __VA_ARGS__); } return 0;
long r_gen(int how,int fd,char*d,size_t n,const char*f,uint64_t*A) { ALL(f,ARGS) }
/* literal formats, as programs write them */
long r_lit(int how,int fd,char*d,size_t n,int k,int i,unsigned u,const char*s,long l) {
	switch(k) {
	case 0: ALL("hello, world\n")
	case 1: ALL("%d items\n", i)
	case 2: ALL("%s=%u\n", s, u)
	case 3: ALL("[%.8x] %s: %ld%%\n", u, s, l)
	case 4: ALL("%c%s%c", i & 63 | 64, s, '\n')
	case 5: if(i & 1) { ALL("odd") } else { ALL("even") }
	default: ALL("%.3d/%.3d", i, -i / 2)
	}
}
/* as statements without braces, which a macro has to survive */
void r_puts(const char*s,int twice) { if(twice) puts(s); else perror(s); if(twice) puts(s); }
void r_perror(const char*s) { perror(s); }
int r_putsx(const char*s) { int c=0; for(;c<2;c++) puts(s); return c; }
