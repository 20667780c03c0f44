/* texts of more than 2^32 bytes: one 2 MiB page-cache block of a single character mapped over and over,
 * copy-on-write, so that only the pages written to take memory */
#ifndef HUGE_H
#define HUGE_H
#include <sys/mman.h>
#include <unistd.h>
static char *hugetext(size_t n, int c) { /* n characters and a terminator */
	size_t B=2u<<20,i,t=(n+1+B-1)/B*B; int fd=memfd_create("huge",MFD_CLOEXEC); char*b=malloc(B); memset(b,c,B); if(fd<0||write(fd,b,B)!=(ssize_t)B) vh_internal("memfd"); free(b);
	char*p=mmap(0,t+B,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) vh_internal("no address space"); for(i=0;i<t;i+=B) if(mmap(p+i,B,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_FIXED|MAP_NORESERVE,fd,0)==MAP_FAILED) vh_internal("mmap"); close(fd); p[n]=0; return p; }
/* room for n bytes that can be written; all blocks but the first one and the last two, which may be written in any order, are the same memory */
static char *hugewin(size_t n) { size_t B=2u<<20,i,t=(n+1+B-1)/B*B; int fd=memfd_create("win",MFD_CLOEXEC); if(fd<0||ftruncate(fd,B)) vh_internal("memfd"); char*p=mmap(0,t+B,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) vh_internal("no address space"); for(i=0;i<t;i+=B) { int own=!i||i+2*B>=t; if(mmap(p+i,B,PROT_READ|PROT_WRITE,MAP_FIXED|(own?MAP_PRIVATE|MAP_ANONYMOUS:MAP_SHARED),own?-1:fd,0)==MAP_FAILED) vh_internal("mmap"); } close(fd); return p; }
static void hugefree(char*p,size_t n) { size_t B=2u<<20; munmap(p,(n+1+B-1)/B*B+B); }
#endif
