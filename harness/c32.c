/* C32: log output captured on memory files; standard descriptors watched as well */
#include "vh.h"
#include "logger.h"
#include "optparser.h"
#include <stdio.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
const char *const vh_rule="random logging calls (0..9 arguments of all seven kinds, strings of 0..100000 bytes with any content incl. zero bytes, absent strings, extreme numbers, all errno values) on a random descriptor among stdout, stderr and two others; bytes on every one of them compared with a model; errno is scrambled by every write; distinct = hash of the expected output";
#ifdef HUGE
#include "huge.h"
static struct { int on,fd; const char*ref; size_t n,at,extra; } B;
const char *const vh_required[]={"huge texts",0};
#else
const char *const vh_required[]={"log_put calls","strings","absent strings","empty strings","strings with zero bytes","large strings","negative numbers","extreme numbers","error descriptions","errors without text","single puts","argument listings","timestamps","to stdout","to stderr","partial writes","interrupted writes","broken descriptors",0};
#endif
#define IOW_WRITE
#include "iowrap.h"
ssize_t __real_write(int,const void*,size_t); time_t __real_time(time_t*); static int scramble; 
#ifdef HUGE
static ssize_t sink(int f,const void*b,size_t n) { vh_tick(); if(n>0x7ffff000) n=0x7ffff000; VH_CHECK(f==B.fd,"huge","written to descriptor %d",f); if(B.at==B.n) { B.extra+=n; return n; } VH_CHECK(B.at+n<=B.n&&!memcmp(b,B.ref+B.at,n),"huge","%zu bytes written at %zu of %zu differ",n,B.at,B.n); B.at+=n; return n; }
#define SINK if(B.on) return sink(f,b,n);
#else
#define SINK
#endif
static int cut,broken; static u64 calls;
ssize_t __wrap_write(int f,const void*b,size_t n) { SINK if(scramble&&broken) { if(++calls>2000) vh_fail("hang","write called again and again on a broken descriptor"); errno=broken; return -1; } if(scramble&&cut&&vh_chance(1,4)) { VH_COUNT("interrupted writes",1); errno=EINTR; return -1; } size_t m=n; if(scramble&&cut&&n>1&&vh_chance(1,2)) { m=vh_chance(1,2)?1+vh_below(n<9?n-1:8):1+vh_below(n-1); VH_COUNT("partial writes",1); } ssize_t r=iow_write(f,b,m); if(scramble) errno=(int)vh_below(130); return r; }
static time_t vt; time_t __wrap_time(time_t*t) { if(!vt) return __real_time(t); if(t) *t=vt; return vt; }
int __real_gettimeofday(struct timeval*,void*), __real_clock_gettime(clockid_t,struct timespec*);
int __wrap_gettimeofday(struct timeval*t,void*z) { if(!vt) return __real_gettimeofday(t,z); t->tv_sec=vt; t->tv_usec=(long)vh_below(1000000); return 0; }
int __wrap_clock_gettime(clockid_t c,struct timespec*t) { if(!vt||c!=CLOCK_REALTIME) return __real_clock_gettime(c,t); t->tv_sec=vt; t->tv_nsec=(long)vh_below(1000000000); return 0; }
static int F[4],save1,save2; /* 0: fd 1, 1: fd 2, 2, 3: others */
void vh_setup(void) { for(int i=0;i<4;i++) { F[i]=memfd_create("log",0); if(F[i]<0) vh_internal("memfd"); int k=fcntl(F[i],F_DUPFD,300+i*50); close(F[i]); F[i]=k; } save1=fcntl(1,F_DUPFD,600); save2=fcntl(2,F_DUPFD,600); }
static void begin(void) { fflush(stdout); fflush(stderr); for(int i=0;i<4;i++) { if(ftruncate(F[i],0)) vh_internal("ftruncate"); lseek(F[i],0,SEEK_SET); } dup2(F[0],1); dup2(F[1],2); cut=vh_chance(1,3); broken=0; scramble=1; }
static void end(void) { scramble=0; dup2(save1,1); dup2(save2,2); }
static const int FD[4]={1,2,0,0}; static int fdno(int t) { return t<2?FD[t]:F[t]; }
static void judge(int t,bs*w,const char*call) { for(int i=0;i<4;i++) { off_t n=lseek(F[i],0,SEEK_END); static bs got; got.n=0; bs_put(&got,"",0); if(n>0) { char*b=xmalloc(n); if(pread(F[i],b,n,0)!=n) vh_internal("pread"); bs_put(&got,b,n); xfree(b); } if(i==t) { VH_CHECK(got.n==w->n&&!memcmp(got.d,w->d,w->n),"output","%s wrote %zu bytes %s, expected %zu bytes %s",call,got.n,vh_esc(got.d,got.n>100?100:got.n),w->n,vh_esc(w->d,w->n>100?100:w->n)); } else VH_CHECK(got.n==0,"elsewhere","%s wrote %zu bytes to another descriptor",call,got.n); } if(t==0) VH_COUNT("to stdout",1); if(t==1) VH_COUNT("to stderr",1); }
static char*rstr(size_t*n,int nul) { *n=vh_chance(1,5)?0:vh_chance(1,40)?vh_size(100000):vh_below(40); char*b=xmalloc(*n+1); vh_bytes(b,*n); if(nul) for(size_t i=0;i<*n;i++) if(!b[i]) b[i]='0'; if(*n>5000) VH_COUNT("large strings",1); if(!*n) VH_COUNT("empty strings",1); if(memchr(b,0,*n)) VH_COUNT("strings with zero bytes",1); VH_COUNT("strings",1); char*g=nul?vh_gbuf(*n+1):vh_gbuf(*n); memcpy(g,b,*n); if(nul) g[*n]=0; xfree(b); return g; }
static u64 num(void) { return vh_chance(1,4)?(u64[]){0,1,(u64)-1,1ull<<63,(1ull<<63)-1,0x80000000u,0x7fffffff,0xffffffffu,10,9,99,100}[vh_below(12)]:vh_u64val(); }
static void put(u64 idx) {
	int n=vh_below(10),i,t=vh_below(4); vario V[10],*P[11]; stringptr S[10],*SP[10]; char*C[10]; int iv[10]; unsigned uv[10]; long lv[10]; unsigned long ul[10]; char*g[10]={0}; bs w={0}; bs_put(&w,"",0); char b[64];
	for(i=0;i<n;i++) { V[i].type=vh_below(7); size_t z; u64 x=num(); if(x==1ull<<63||x==(u64)-1||x==0x80000000u) VH_COUNT("extreme numbers",1); switch(V[i].type) { case VT_STRINGPTR: V[i].ptr=&SP[i]; if(vh_chance(1,8)) { SP[i]=0; VH_COUNT("absent strings",1); } else { g[i]=rstr(&z,0); S[i].ptr=g[i]; S[i].size=z; SP[i]=&S[i]; bs_put(&w,g[i],z); } break; case VT_CHAR_STAR: case VT_CONST_CHAR_STAR: V[i].ptr=&C[i]; if(vh_chance(1,8)) { C[i]=0; VH_COUNT("absent strings",1); } else { C[i]=g[i]=rstr(&z,1); bs_put(&w,C[i],z); } break; case VT_INT: iv[i]=(int)x; V[i].ptr=&iv[i]; sprintf(b,"%d",iv[i]); bs_puts(&w,b); if(iv[i]<0) VH_COUNT("negative numbers",1); break; case VT_UNSIGNED: uv[i]=(unsigned)x; V[i].ptr=&uv[i]; sprintf(b,"%u",uv[i]); bs_puts(&w,b); break; case VT_LONG: lv[i]=(long)x; V[i].ptr=&lv[i]; sprintf(b,"%ld",lv[i]); bs_puts(&w,b); if(lv[i]<0) VH_COUNT("negative numbers",1); break; default: ul[i]=x; V[i].ptr=&ul[i]; sprintf(b,"%lu",ul[i]); bs_puts(&w,b); } P[i]=&V[i]; VH_TRACE("arg %d type %d",i,V[i].type); }
	for(;i<11;i++) P[i]=0; bs_putc(&w,'\n'); int f=fdno(t); begin(); switch(n) { case 0: log_put(f,VNIL); break; case 1: log_put(f,P[0],VNIL); break; case 2: log_put(f,P[0],P[1],VNIL); break; case 3: log_put(f,P[0],P[1],P[2],VNIL); break; case 4: log_put(f,P[0],P[1],P[2],P[3],VNIL); break; default: log_put(f,P[0],P[1],P[2],P[3],P[4],P[5],P[6],P[7],P[8],P[9],VNIL); } end();
	judge(t,&w,"log_put"); VH_COUNT("log_put calls",1); if(vh_chance(1,30)) { bs e={0}; bs_put(&e,"",0); begin(); broken=(int[]){EIO,EAGAIN,EPIPE,ENOSPC,EBADF}[vh_below(5)]; calls=0; log_put(f,P[0],P[1],P[2],P[3],P[4],P[5],P[6],P[7],P[8],P[9],VNIL); log_puterror(f,"x"); end(); judge(t,&e,"log_put"); VH_COUNT("broken descriptors",1); } vh_seen(vh_hash(w.d,w.n,t)); vh_sample("%d arguments: %s",n,vh_esc(w.d,w.n>50?50:w.n)); for(i=0;i<n;i++) vh_gfree(g[i]); bs_free(&w);
	/* the argument macros */
	if(vh_chance(1,10)) { size_t z; char*s=rstr(&z,1); stringptr q={s,z}; int a=(int)num(); unsigned u=num(); long l=num(); unsigned long ull=num(); const char*cs=s; bs_put(&w,"lit ",4); bs_put(&w,s,z); bs_put(&w,s,z); bs_put(&w,s,z); char bb[200]; sprintf(bb,"%d%u%ld%lu\n",a,u,l,ull); bs_puts(&w,bb); begin(); log_put(f,VARISL("lit "),VARIS(&q),VARIC(s),VARICC(cs),VARII(a),VARIU(u),VARIL(l),VARIUL(ull),VNIL); end(); judge(t,&w,"log_put"); vh_gfree(s); bs_free(&w); }
}
static void single(u64 idx) {
	int t=vh_below(4),f=fdno(t),k=vh_below(7); bs w={0}; bs_put(&w,"",0); char b[64]; size_t z; char*s; VH_TRACE("single kind %d fd %d",k,f);
	if(k==0) { u64 x=num(); int sg=vh_below(2)?(int)(1+vh_below(3)):0; sprintf(b,sg?"%lld":"%llu",(unsigned long long)x); bs_puts(&w,b); begin(); log_putd(f,x,sg); end(); judge(t,&w,"log_putd"); }
	else if(k==1) { s=rstr(&z,0); stringptr q={s,z}; bs_put(&w,s,z); begin(); log_puts(f,&q); log_puts(f,0); end(); judge(t,&w,"log_puts"); VH_CHECK(q.ptr==s&&q.size==z,"modified","string modified"); vh_gfree(s); }
	else if(k==2) { s=rstr(&z,1); bs_put(&w,s,z); begin(); log_putc(f,s); log_putc(f,0); end(); judge(t,&w,"log_putc"); vh_gfree(s); VH_COUNT("absent strings",1); }
	else if(k==3) { bs_puts(&w,"\n "); begin(); log_putln(f); log_putspace(f); end(); judge(t,&w,"log_putln"); }
	else if(k==4) { int e=vh_chance(1,20)?(int)vh_below(100000)-1000:(int)vh_below(140),none=vh_chance(1,6); s=none?0:rstr(&z,1); if(s&&z) { bs_put(&w,s,z); bs_puts(&w,": "); } bs_puts(&w,strerror(e)); bs_putc(&w,'\n'); if(vh_chance(1,3)) { t=1; f=2; } begin(); errno=e; if(t==1) log_perror(s); else log_puterror(f,s); end(); judge(t,&w,"log_puterror"); if(none) VH_COUNT("errors without text",1); VH_COUNT("error descriptions",1); vh_gfree(s); }
	else if(k==5) { int n=vh_below(8),i; char*a[9]; for(i=0;i<n;i++) { a[i]=rstr(&z,1); if(i) { bs_put(&w,a[i],z); bs_putc(&w,'\n'); } } a[n]=0; op_state p; op_init(&p,n,a); begin(); op_printall(&p); end(); judge(0,&w,"op_printall"); for(i=0;i<n;i++) vh_gfree(a[i]); VH_COUNT("argument listings",1); }
	else { vt=1+vh_below(4102444800u); struct tm tm; localtime_r(&vt,&tm); strftime(b,64,"%Y-%m-%d %H:%M:%S",&tm); bs_puts(&w,b); begin(); log_timestamp(f); end(); vt=0; judge(t,&w,"log_timestamp"); VH_COUNT("timestamps",1); }
	VH_COUNT("single puts",1); vh_seen(vh_hash(w.d,w.n,t*8+k)); bs_free(&w);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(1<<20)+vh_below(4000); char*t=hugetext(n,'l'); t[n-2]='e'; t[1ull<<32]='m'; stringptr s={t,n}; size_t extra=0; B.ref=t; B.n=n; B.at=0; B.extra=0; B.fd=77; B.on=1; switch(idx) { case 0: log_puts(77,&s); break; case 1: log_putc(77,t); break; default: log_put(77,VARIS(&s),VNIL); extra=1; } B.on=0; VH_CHECK(B.at==n&&B.extra==extra,"huge","%zu bytes given, %zu written",n,B.at); VH_COUNT("huge texts",1); vh_seen(idx+1); hugefree(t,n);
}
const vh_mode vh_modes[]={{"huge",huge,3,3},{0}};
#else
const vh_mode vh_modes[]={{"put",put,15000,400000},{"single",single,25000,600000},{0}};
#endif
