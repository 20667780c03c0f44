/* other system calls that do the same transfer end up in the harness's own __wrap_read/write/open */
#ifndef IOWRAP_H
#define IOWRAP_H
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static __thread off_t iow_at=-1;
#ifdef IOW_WRITE
ssize_t __real_write(int,const void*,size_t), __real_pwrite(int,const void*,size_t,off_t), __real_writev(int,const struct iovec*,int), __wrap_write(int,const void*,size_t);
static inline ssize_t iow_write(int f,const void*b,size_t n) { return iow_at>=0?__real_pwrite(f,b,n,iow_at):__real_write(f,b,n); }
ssize_t __wrap_pwrite(int f,const void*b,size_t n,off_t o) { iow_at=o; ssize_t r=__wrap_write(f,b,n); iow_at=-1; return r; }
ssize_t __wrap_pwrite64(int f,const void*b,size_t n,off_t o) { return __wrap_pwrite(f,b,n,o); }
ssize_t __wrap_writev(int f,const struct iovec*v,int c) { size_t n=0; int i,one=-1,used=0; for(i=0;i<c;i++) if(v[i].iov_len) { used++; one=i; n+=v[i].iov_len; } if(used<=1) return __wrap_write(f,used?v[one].iov_base:"",n);
	if(n>1<<20) return __wrap_write(f,v[0].iov_base,v[0].iov_len); static __thread char b[1<<20]; for(n=0,i=0;i<c;i++) { memcpy(b+n,v[i].iov_base,v[i].iov_len); n+=v[i].iov_len; } return __wrap_write(f,b,n); }
#endif
#ifdef IOW_READ
ssize_t __real_read(int,void*,size_t), __real_pread(int,void*,size_t,off_t), __wrap_read(int,void*,size_t);
static inline ssize_t iow_read(int f,void*b,size_t n) { return iow_at>=0?__real_pread(f,b,n,iow_at):__real_read(f,b,n); }
ssize_t __wrap_pread(int f,void*b,size_t n,off_t o) { iow_at=o; ssize_t r=__wrap_read(f,b,n); iow_at=-1; return r; }
ssize_t __wrap_pread64(int f,void*b,size_t n,off_t o) { return __wrap_pread(f,b,n,o); }
ssize_t __wrap_readv(int f,const struct iovec*v,int c) { int i; for(i=0;i<c;i++) if(v[i].iov_len) return __wrap_read(f,v[i].iov_base,v[i].iov_len); return __wrap_read(f,"",0); }
#endif
#ifdef IOW_OPEN
int __wrap_open(const char*,int,...), __real_openat(int,const char*,int,...);
static inline int iow_oflags(int fl) { return fl&O_CREAT; }
int __wrap_open64(const char*p,int fl,...) { va_list ap; va_start(ap,fl); int m=iow_oflags(fl)?va_arg(ap,int):0; va_end(ap); return __wrap_open(p,fl,m); }
int __wrap_openat(int d,const char*p,int fl,...) { va_list ap; va_start(ap,fl); int m=iow_oflags(fl)?va_arg(ap,int):0; va_end(ap); return d==AT_FDCWD||*p=='/'?__wrap_open(p,fl,m):__real_openat(d,p,fl,m); }
int __wrap_openat64(int d,const char*p,int fl,...) { va_list ap; va_start(ap,fl); int m=iow_oflags(fl)?va_arg(ap,int):0; va_end(ap); return d==AT_FDCWD||*p=='/'?__wrap_open(p,fl,m):__real_openat(d,p,fl,m); }
int __wrap_creat(const char*p,mode_t m) { return __wrap_open(p,O_WRONLY|O_CREAT|O_TRUNC,(int)m); }
#endif
#endif
