/* C29: every thread-independent entry point of the library on thread-private objects: each thread's
 * results are recorded alone first, then in concurrent threads; ThreadSanitizer watches the library */
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE 24
#include "vh.h"
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "sblist.h"
#include "hashlist.h"
#include "hbmap.h"
#include "tgilist.h"
#include "tlist.h"
#include "kvlist.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "stringlist.h"
#include "strlib.h"
#include "format.h"
#include "filelib.h"
#include "filelist.h"
#include "fileparser.h"
#include "iniparser.h"
#include "optparser.h"
#include "logger.h"
#include "timelib.h"
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
#include "proclib.h"
#include "ssalloc.c"
#include "guard_alloc.c"
#undef EQ
const char *const vh_rule="2..6 threads, each a random sequence of library operations (38 kinds covering every module) on private objects, files and directories; results recorded when run alone and compared with those of the concurrent run; same-operation and mixed schedules with random yields; distinct = hash of the operation sequences";
const char *const vh_required[]={"threads run","operations compared","operation starts that overlapped another thread","same-operation schedules","mixed schedules","operations first used in several threads at once",0};
typedef struct { u64 s; u64 h; char *dir; char *shared; } X; /* one operation's private world */
static u64 R(X*x) { u64 z=(x->s+=0x9e3779b97f4a7c15ull); z=(z^z>>30)*0xbf58476d1ce4e5b9ull; z=(z^z>>27)*0x94d049bb133111ebull; return z^z>>31; }
static u64 B(X*x,u64 n) { return R(x)%n; }
static void H(X*x,const void*p,size_t n) { const u8*c=p; u64 h=x->h^n; for(size_t i=0;i<n;i++) h=(h^c[i])*0x100000001b3ull; x->h=h^h>>29; }
static void HU(X*x,u64 v) { H(x,&v,8); }
static void HS(X*x,const char*s) { if(s) H(x,s,strlen(s)); else HU(x,0xdead); }
static void HP(X*x,stringptr*s) { if(s) H(x,s->ptr,s->size); else HU(x,0xdead); }
static size_t T(X*x,char*b,size_t max,const char*al) { size_t n=B(x,max),l=strlen(al); for(size_t i=0;i<n;i++) b[i]=al[B(x,l)]; b[n]=0; return n; }
static void mine(X*x,char*t);
static int ci(const void*a,const void*b) { int x=*(const int*)a,y=*(const int*)b; return x<y?-1:x>y; }
static int cir(const void*a,const void*b,void*c) { return ci(a,b)**(int*)c; }
static void HL(X*x,sblist*l) { HU(x,sblist_getsize(l)); for(size_t i=0;i<sblist_getsize(l);i++) H(x,sblist_get(l,i),4); }

/* system calls that the library makes inside an operation act on the thread's own virtual clock, output and places for temporary directories */
static __thread struct { int clock,cap,redir; u64 us,step,slept; int intr; bs out; X*x; char made[600]; } V;
int __real_gettimeofday(struct timeval*,void*); time_t __real_time(time_t*); int __real_nanosleep(const struct timespec*,struct timespec*); ssize_t __real_write(int,const void*,size_t); int __real_mkdir(const char*,mode_t); int __real_clock_gettime(clockid_t,struct timespec*);
int __wrap_gettimeofday(struct timeval*t,void*z) { if(!V.clock) return __real_gettimeofday(t,z); V.us+=V.step; t->tv_sec=V.us/1000000; t->tv_usec=V.us%1000000; return 0; }
time_t __wrap_time(time_t*t) { if(!V.clock) return __real_time(t); V.us+=V.step; if(t) *t=V.us/1000000; return V.us/1000000; }
int __wrap_clock_gettime(clockid_t c,struct timespec*t) { if(!V.clock) return __real_clock_gettime(c,t); V.us+=V.step; t->tv_sec=V.us/1000000; t->tv_nsec=V.us%1000000*1000; return 0; }
int __wrap_nanosleep(const struct timespec*q,struct timespec*r) { if(!V.clock) return __real_nanosleep(q,r); if(q->tv_nsec<0||q->tv_nsec>999999999||q->tv_sec<0) { errno=EINVAL; return -1; } u64 n=q->tv_sec*1000000000ull+q->tv_nsec; sched_yield(); if(V.intr>0&&n>1000) { V.intr--; u64 d=n/3; V.slept+=d; if(r) { r->tv_sec=(n-d)/1000000000; r->tv_nsec=(n-d)%1000000000; } sched_yield(); errno=EINTR; return -1; } V.slept+=n; return 0; }
ssize_t __wrap_write(int fd,const void*p,size_t n) { if(!V.cap||fd!=1) return __real_write(fd,p,n); bs_put(&V.out,p,n); sched_yield(); return n; }
int __wrap_mkdir(const char*p,mode_t m) { if(!V.redir) return __real_mkdir(p,m); const char*b=!strncmp(p,"/dev/shm/",9)?p+9:!strncmp(p,"/tmp/",5)?p+5:0; if(!b) { errno=EPERM; return -1; } if(V.redir==2&&b==p+9) { errno=EACCES; return -1; } sched_yield(); char o[700]; snprintf(o,sizeof o,"%s/%s",V.x->shared,b); int r=__real_mkdir(o,m); if(!r) { snprintf(V.made,sizeof V.made,"%s",o); HU(V.x,strlen(b)); } return r; }
static void o_clock(X*x) { V.clock=1; V.us=1000000ull*B(x,4000000000u)+B(x,1000000); V.step=B(x,4)?B(x,3000000):0; struct timeval t,u; gettimestamp(&t); HU(x,t.tv_sec); HU(x,t.tv_usec); HU(x,getutime()); for(int i=0;i<6;i++) { u=t; HU(x,mspassed(&u)); gettimestamp(&t); } char b[40]; HU(x,timestamp(b,32)); HS(x,b); V.step=0; int fd=memfd_create("o",MFD_CLOEXEC); log_timestamp(fd); ssize_t n=pread(fd,b,39,0); H(x,b,n<0?0:n); close(fd); for(int i=0;i<6;i++) { V.slept=0; V.intr=B(x,5); HU(x,i&1?msleep(B(x,100000)):microsleep(B(x,100000000))); HU(x,V.slept); } V.clock=0; }
static void o_stdout(X*x) { V.out.n=0; V.cap=1; for(int i=0;i<6;i++) switch(B(x,4)) { case 0: ulz_printf("<%d %s %.7x>\n",(int)R(x),i&1?"one":"two",(unsigned)R(x)); break; case 1: log_put(1,VARIUL((unsigned long)R(x)),VARIC("x"),VNIL); break; case 2: { char a[20],*av[3]={"p",a,"-z"}; sprintf(a,"-%d",(int)B(x,100000)); op_state o; op_init(&o,3,av); op_printall(&o); break; } default: { char b[200]; T(x,b,199,"qwert"); ulz_printf("%s|%c%%",b,'a'+(int)B(x,26)); } } V.cap=0; H(x,V.out.d,V.out.n); xfree(V.out.d); memset(&V.out,0,sizeof V.out); }
static void o_mktempdir(X*x) { for(int i=0;i<3;i++) { char pre[40],buf[80]; size_t n=B(x,30); for(size_t j=0;j<n;j++) pre[j]='a'+B(x,26); pre[n]=0; V.x=x; V.redir=1+B(x,2); V.made[0]=0; const char*top=V.redir==2?"/tmp/":"/dev/shm/"; size_t tl=strlen(top),r=mktempdir(pre,buf,sizeof buf); V.redir=0; HU(x,r); HU(x,r==tl+n+6&&strlen(buf)==r&&!memcmp(buf,top,tl)&&!memcmp(buf+tl,pre,n)&&V.made[0]&&!strcmp(buf+tl,V.made+strlen(x->shared)+1)); if(r&&V.made[0]) { mine(x,V.made); HU(x,rmdir(V.made)); } } }
static void o_sblist(X*x) { sblist*l=sblist_new(4,B(x,8)); for(int i=0,n=30+B(x,60);i<n;i++) { int v=B(x,100); switch(B(x,7)) { case 0: case 1: sblist_add(l,&v); break; case 2: HU(x,sblist_addi(l,&v)); break; case 3: sblist_insert(l,&v,B(x,sblist_getsize(l)+1)); break; case 4: sblist_delete(l,B(x,sblist_getsize(l)+2)); break; case 5: sblist_set(l,&v,B(x,sblist_getsize(l)+2)); break; case 6: { int*p=sblist_pop(l); if(p) H(x,p,4); } } } HL(x,l); sblist_sort(l,ci); HL(x,l); for(int i=0;i<20;i++) { HU(x,(size_t)sblist_bsearch(l,&i,ci)!=(size_t)-1); } sblist_free(l); }
static void o_sblist2(X*x) { sblist a; int one=1; sblist_init(&a,4,B(x,5)); for(int i=0;i<50;i++) { int v=B(x,1000); HU(x,i&1?sblist_insert_sorted(&a,&v,ci):sblist_insert_sorted_r(&a,&v,cir,&one)); } HL(x,&a); for(int i=0;i<50;i++) { int v=B(x,1000); HU(x,sblist_bsearch_r(&a,&v,cir,&one)!=(size_t)-1); } sblist_free_items(&a); sblist*p=sblist_new(sizeof(char*),4); for(int i=0;i<20;i++) { char*s=strdup("abc"); sblist_add(p,&s); } sblist_free_values(p); sblist_free(p); int*d=malloc(40); for(int i=0;i<10;i++) d[i]=B(x,99); sblist*q=sblist_new_from_data(4,d,40); int v=7; sblist_add(q,&v); HL(x,q); sblist_free(q); }
static void o_hashlist(X*x) { hashlist*h=hashlist_new(1+B(x,20),4); for(int i=0;i<60;i++) { int v=B(x,1000); hashlist_add(h,v,&v); } for(int i=0;i<30;i++) { sblist*l=hashlist_get(h,B(x,1000)); if(l) HL(x,l); } hashlist_iterator it; hashlist_iterator_init(&it); int*p; while((p=hashlist_next(h,&it))) H(x,p,4); hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); sblist*l; while((l=hashlist_bucket_next(h,&bi))) HL(x,l); hashlist_free(h); }
static unsigned hf(const int k) { return k*2654435761u; }
static void o_hbmap(X*x) { hbmap(int,int,16) *m=hbmap_new(ci,hf,16); hbmap_iter it; for(int i=0;i<80;i++) { int k=B(x,40),v=B(x,1000); if(B(x,4)) HU(x,hbmap_insert(m,k,v)); else { it=hbmap_find(m,k); if(it!=(hbmap_iter)-1) hbmap_delete(m,it); } } hbmap_foreach(m,it) { HU(x,hbmap_getkey(m,it)); HU(x,hbmap_getval(m,it)); } for(int k=0;k<40;k++) { int*p=hbmap_get(m,k); HU(x,p?*p:-1); } hbmap_fini(m,0); free(m); }
static void o_bmap(X*x) { bmap(int,int) *m=bmap_new(ci); for(int i=0;i<80;i++) { int k=B(x,40),v=B(x,1000); if(B(x,4)) HU(x,bmap_insert(m,k,v)); else { ssize_t p=bmap_find(m,k); if(p!=-1) bmap_delete(m,p); } } for(size_t i=0;i<bmap_getsize(m);i++) { HU(x,bmap_getkey(m,i)); HU(x,bmap_getval(m,i)); } bmap_fini(m,0); free(m); }
static void o_tglist(X*x) { tglist(int) *l=tglist_new(); tgilist(int,unsigned) *g=tgilist_new(); for(int i=0;i<60;i++) { int v=B(x,100); size_t p=B(x,tglist_getsize(l)+1); if(B(x,3)||!tglist_getsize(l)) { tglist_insert(l,v,p); tgilist_insert(g,v,p); } else { p%=tglist_getsize(l); tglist_delete(l,p); tgilist_delete(g,p); } } for(size_t i=0;i<tglist_getsize(l);i++) { HU(x,tglist_get(l,i)); HU(x,tgilist_get(g,i)); } tglist_sort(l,ci); int v=B(x,100); HU(x,tglist_insert_sorted(l,v,ci)); tglist_free(l); tgilist_free(g); }
static void o_tlist(X*x) { tlist*t=tlist_new(4); for(int i=0;i<70;i++) { int v=B(x,1000); size_t n=tlist_getsize(t); switch(B(x,4)) { case 0: tlist_append(t,&v); break; case 3: HU(x,tlist_delete(t,B(x,n+1))); break; default: tlist_insert(t,B(x,n+1),&v); } } for(size_t i=0;i<=tlist_getsize(t);i++) { int*p=tlist_get(t,i); HU(x,p?*p:-1); } tlist_free(t); t=tlist_new(sizeof(char*)); for(int i=0;i<10;i++) { char*s=strdup("xyz"); tlist_append(t,&s); } tlist_delete_deep(t,3); tlist_free_deep(t); }
static void o_kvlist(X*x) { kvlist*l=kv_new(4); char k[40][8]; for(int i=0;i<40;i++) { size_t n=T(x,k[i],7,"abc"); kv_add(l,k[i],n,(void*)(uintptr_t)i); } for(int i=0;i<40;i++) { char q[8]; size_t n=T(x,q,7,"abc"); void*v=0; int r=kv_find(l,SPMAKE(q,n),&v); HU(x,r); HU(x,(uintptr_t)v); } kv_free(l); }
static void o_strptr(X*x) { char a[200],b[9]; size_t n=T(x,a,199,"ab\r\n"),m=T(x,b,8,"ab"); stringptr A={a,n},N={b,m}; HU(x,stringptr_hash(&A)); HU(x,stringptr_contains(&A,&N)); HU(x,stringptr_here(&A,B(x,n+1),&N)); stringptr*c=stringptr_copy(&A),*d=stringptr_concat(&A,&N,&A,(stringptr*)0); HP(x,c); HP(x,d); HU(x,stringptr_eq(c,&A)); char*r=stringptr_rchr(&A,'a'); HU(x,r?r-a:-1); stringptr S=A; HU(x,stringptr_shiftright(&S,B(x,n+2))); HU(x,stringptr_shiftleft(&S,B(x,n+2))); HP(x,&S); HU(x,stringptr_chomp(c)); HP(x,c); char*s=stringptr_strdup(&A); HS(x,s); free(s); stringptr out; HP(x,stringptr_fromchar(b,&out)); stringptr_free(c); stringptr_free(d); }
static void o_split(X*x) { char a[300],b[4]; size_t n=T(x,a,299,"ab,;"),m=1+T(x,b+1,3,"ab"); b[0]=';'; stringptr A={a,n},D={b,m}; for(int k=0;k<2;k++) { stringptrlist*l=k?stringptr_splits(&A,&D):stringptr_splitc(&A,','); HU(x,stringptrlist_getsize(l)); for(size_t i=0;i<stringptrlist_getsize(l);i++) HP(x,stringptrlist_get(l,i)); stringptr*t=stringptrlist_tostring(l); HP(x,t); stringptr_free(t); t=stringptrlist_tostring_dos(l); HP(x,t); stringptr_free(t); HU(x,stringptrlist_find(l,&D)); HU(x,stringptrlist_contains(l,&D)); HU(x,stringptrlist_dup_entries(l)); stringptrlist_add_strdup(l,&D); for(size_t i=0;i<stringptrlist_getsize(l);i++) HP(x,stringptrlist_get(l,i)); stringptrlist_freeall(l); } stringptr*r=stringptr_replace(&A,SPL("a"),&D); HP(x,r); stringptr_free(r); }
static void o_format(X*x) { stringptr*r=stringptr_format("%d %s %x %.5d|%.*s",(int)R(x),"hello",(unsigned)R(x),(int)B(x,1000),3,"abcdef"); HP(x,r); stringptr_free(r); char b[100]; HU(x,ulz_snprintf(b,sizeof b,"%d/%u/%x/%s/%c/%.8d/%ld",(int)R(x),(unsigned)R(x),(unsigned)R(x),"str",'q',(int)B(x,99999),(long)R(x))); HS(x,b); }
static void o_fdprintf(X*x) { int fd=memfd_create("o",MFD_CLOEXEC); char b[400]; for(int i=0;i<4;i++) ulz_fprintf(fd,"<%d %s %x>",(int)R(x),x->dir?"dir":"",(unsigned)R(x)); ssize_t n=pread(fd,b,sizeof b,0); H(x,b,n<0?0:n); close(fd); }
static void o_log(X*x) { int fd=memfd_create("o",MFD_CLOEXEC); char b[600]; log_put(fd,VARISL("val "),VARII((int)R(x)),VARIC("-"),VARIUL((unsigned long)R(x)),VARIL((long)R(x)),VARIU((unsigned)R(x)),VNIL); log_putd(fd,R(x),B(x,2)); log_putln(fd); log_putc(fd,"text"); errno=(int[]){ENOENT,EPERM,EIO}[B(x,3)]; log_puterror(fd,"err"); ssize_t n=pread(fd,b,sizeof b,0); H(x,b,n<0?0:n); close(fd); }
static void o_stamp(X*x) { char b[32]; int fd=memfd_create("o",MFD_CLOEXEC); HU(x,timestamp(b,32)); HU(x,b[4]=='-'&&b[10]==' '&&b[13]==':'&&b[0]=='2'&&!b[19]); log_timestamp(fd); HU(x,lseek(fd,0,SEEK_CUR)); close(fd); struct timeval t; gettimestamp(&t); HU(x,mspassed(&t)>=0&&mspassed(&t)<60000); long long u=getutime(); HU(x,u>0); struct timespec p={B(x,1000),B(x,1000000000)},q={B(x,1000),B(x,1000000000)}; HU(x,timespec_diff(&p,&q)); HU(x,msleep(0)); HU(x,microsleep(B(x,20))); }
static void o_ints(X*x) { char b[80]; for(int i=0;i<12;i++) { u64 v=R(x)>>B(x,64); HS(x,itoa((int)v,b)); HS(x,utoa((unsigned)v,b)); HS(x,intToString((int)v,b)); HS(x,uintToString((unsigned)v,b)); HS(x,int64ToString((int64_t)v,b)); HS(x,uint64ToString(v,b)); HS(x,numberToString(v,2+B(x,15),b,B(x,2)?70:0,B(x,8)&~NTS_PAD)); int n=sprintf(b,"%lld",(long long)v); HU(x,strtoint64(b,n)); n=sprintf(b,"%d",(int)v); HU(x,strtoint(b,n)); } }
static void o_numpad(X*x) { char b[80]; for(int i=0;i<12;i++) { u64 v=R(x)>>B(x,64); HS(x,numberToString(v,2+B(x,15),b,70,B(x,8))); HS(x,numberToString(v,16,b,0,0)); } }
static void o_base64(X*x) { u8 s[200],o[300]; char e[300]; size_t n=B(x,200); for(size_t i=0;i<n;i++) s[i]=R(x); base64enc(e,s,n); HS(x,e); HU(x,base64dec(o,e,sizeof o)); H(x,o,n); T(x,(char*)s,100,"abcxyz"); HU(x,base64enc_str(e,s,sizeof e)); HS(x,e); }
static void o_hex(X*x) { u8 s[60],o[80]; char e[130]; size_t n=B(x,60); for(size_t i=0;i<n;i++) s[i]=R(x); raw2hex(e,s,n); HS(x,e); HU(x,hex2raw(e,o)); H(x,o,n); char c=R(x)%96+32; HU(x,hexval(&c)); HU(x,isAlpha(&c)); HU(x,isNumber(&c)); HU(x,isLetter(&c)); HU(x,isUpper(&c)); HU(x,isLower(&c)); makelower(&c); HU(x,c); makeupper(&c); HU(x,c); HU(x,containsChar(e,c)); HU(x,strends(e,"0")); char*d=strdup_n(e,B(x,2*n+1)); HS(x,d); free(d); }
static void o_rc4(X*x) { u8 s[300],d[300],k[40]; size_t n=1+B(x,300),m=1+B(x,40); for(size_t i=0;i<n;i++) s[i]=R(x); for(size_t i=0;i<m;i++) k[i]=R(x); rc4(d,s,n,k,m); H(x,d,n); rc4(d,d,n,k,m); HU(x,!memcmp(d,s,n)); }
static void o_ipv4(X*x) { u8 q[4],p[4]; char b[16]; for(int i=0;i<4;i++) q[i]=R(x); stringfromipv4(q,b); HS(x,b); HU(x,isnumericipv4(b)); HU(x,ipv4fromstring(b,p)); H(x,p,4); HU(x,isnumericipv4("1.2.3")); HU(x,ipv4fromstring("1.2.x.3",p)); }
static void o_search(X*x) { char a[200],b[6]; size_t n=T(x,a,199,"abAB "),m=1+T(x,b+1,4,"AB"); b[0]='A'; (void)n; char*r=strstr_uc(a,b,m); HU(x,r?r-a:-1); b[B(x,m)]='*'; r=strstar(a,b,m); HU(x,r?r-a:-1); b[0]='A'; b[1]='B'; r=findword(a,b,2); HU(x,r?r-a:-1); }
static void o_md5(X*x) { u8 s[500],d[16]; char o[33]; size_t n=B(x,500); for(size_t i=0;i<n;i++) s[i]=R(x); md5_ctx c; md5_init(&c); size_t k=B(x,n+1); md5_update(&c,s,k); md5_update(&c,s+k,n-k); md5_end(&c,d); H(x,d,16); md5str(o,s,n); HS(x,o); }
static void o_sha(X*x) { u8 s[600]; size_t n=B(x,600); for(size_t i=0;i<n;i++) s[i]=R(x); sha512_ctx c; sha512_init(&c); size_t k=n/256*128; sha512_update(&c,s,k); sha512_update(&c,s+k,n-k); H(x,sha512_end(&c),64); }
static void o_crc(X*x) { u8 s[300],o[4]; size_t n=B(x,300); for(size_t i=0;i<n;i++) s[i]=R(x); CRC32_CTX c; CRC32_Init(&c); size_t k=B(x,n+1); CRC32_Update(&c,s,k); CRC32_Update(&c,s+k,n-k); CRC32_Final(o,&c); H(x,o,4); CRC32C_Init(&c); CRC32C_Update(&c,s,k); CRC32C_Update(&c,s+k,n-k); CRC32C_Final(o,&c); H(x,o,4); }
static void path(X*x,char*o,const char*f) { sprintf(o,"%s/%s",x->dir,f); }
static void o_file(X*x) { char p[400],b[3000]; path(x,p,"data"); size_t n=1+T(x,b+1,2990,"abcd\n"); b[0]='#'; stringptr s={b,n}; HU(x,stringptr_tofile(p,&s)); stringptr*r=stringptr_fromfile(p); HP(x,r); stringptr_free(r); HU(x,getfilesize(p)); HU(x,getFileModTime(p)>0); HS(x,getFileExt("a.tar.gz",8)); HS(x,getfilename(SPL("/a/b/c.d"))); unlink(p); }
static void o_parser(X*x) { char p[400],b[3000]; path(x,p,"lines"); size_t n=1+T(x,b+1,2990,"abcdabcd\n"); b[0]='#'; stringptr s={b,n},l; stringptr_tofile(p,&s); fileparser f; HU(x,fileparser_open(&f,p)); while(!fileparser_readline(&f)&&!fileparser_getline(&f,&l)) { HP(x,&l); if(!B(x,4)) HU(x,fileparser_getnextlinelength(&f)); } fileparser_close(&f); fileparser_open(&f,p); int i=0; while(!fileparser_readline_userbuf(&f,b,sizeof b)&&i++<3000) { fileparser_getline(&f,&l); HP(x,&l); } fileparser_close(&f); stringptrlist*q=stringptrlist_new(8); HU(x,stringptrlist_fromfile(q,p)); for(size_t k=0;k<stringptrlist_getsize(q);k++) HP(x,stringptrlist_get(q,k)); HU(x,stringptrlist_tofile(q,p,0600)); HU(x,getfilesize(p)); stringptrlist_freeall(q); unlink(p); }
static void o_filelist(X*x) { char d[400],p[500]; path(x,d,"fl"); mkdir(d,0700); int m=B(x,64); for(int i=0;i<6;i++) { sprintf(p,"%s/f%d.%c",d,i,"abc"[i%3]); if(m>>i&1) close(open(p,O_CREAT|O_WRONLY,0600)); } stringptr D={d,strlen(d)}; filelist f; int fl=B(x,4)|FLF_EXCLUDE_PATH|(B(x,2)?FLF_INCLUDE_HIDDEN:0); int r=filelist_search(&f,&D,B(x,2)?SPL("*"):SPL("*.a"),fl); HU(x,r); if(!r) { HU(x,stringptrlist_getsize(f.files)); for(size_t i=0;i<stringptrlist_getsize(f.files);i++) HP(x,stringptrlist_get(f.files,i)); filelist_free(&f); } for(int i=0;i<6;i++) { sprintf(p,"%s/f%d.%c",d,i,"abc"[i%3]); unlink(p); } rmdir(d); }
static void o_path(X*x) { char a[200],o[210]; a[0]='/'; size_t n=1+T(x,a+1,190,"a/./."); stringptr s={a,n}; char*r=normalizepath_cstr(a,o); HS(x,r); char c[200]; memcpy(c,a,n+1); stringptr q={c,n}; HU(x,normalizepath(&q)); HP(x,&q); char w[1024]; char p1[]="/a/b",p2[]="/a/b/../b/c/d/../e"; stringptr A={p1,4},Z={p2,strlen(p2)}; HU(x,getpathdiff(&A,&Z,w)); (void)s; }
static void o_ini(X*x) { char b[600]; size_t n=0; for(int i=0;i<20;i++) { if(!B(x,4)) n+=sprintf(b+n,"[s%d]\n",(int)B(x,4)); else n+=sprintf(b+n,"k%d=%d\n",(int)B(x,4),(int)B(x,1000)); } stringptr s={b,n}; stringptrlist*l=stringptr_linesplit(&s); HU(x,iniparser_count_sections(l)); for(int i=0;i<4;i++) { char sn[8],kn[8]; sprintf(sn,"s%d",i); sprintf(kn,"k%d",(int)B(x,4)); ini_section c=iniparser_get_section(l,SPMAKE(sn,2)); HU(x,c.startline); HU(x,c.linecount); stringptr v; iniparser_getvalue(l,&c,SPMAKE(kn,2),&v); HP(x,&v); c=iniparser_file_as_section(l); iniparser_getvalue(l,&c,SPMAKE(kn,2),&v); HP(x,&v); } stringptrlist_free(l); }
static void o_opt(X*x) { char b[4][20]; char*av[5]={"p"}; for(int i=0;i<4;i++) { if(B(x,2)) sprintf(b[i],"--n%d=%d",(int)B(x,3),(int)B(x,99)); else sprintf(b[i],"-%c","abc"[B(x,3)]); av[i+1]=b[i]; } op_state o; op_init(&o,5,av); for(int i=0;i<3;i++) { char n[8]; sprintf(n,"n%d",i); HS(x,op_get(&o,SPMAKE(n,2))); n[0]="abc"[i]; n[1]=0; HU(x,op_hasflag(&o,SPMAKE(n,1))); } }
static void mine(X*x,char*t) { struct stat s; HU(x,stat(t,&s)==0&&(s.st_mode&0777)==0700); char p[600]; sprintf(p,"%s/owner",t); int fd=open(p,O_CREAT|O_EXCL|O_WRONLY,0600); HU(x,fd>=0); if(fd>=0) close(fd); unlink(p); }
static void o_tmpdir(X*x) { char t[3][500]; for(int i=0;i<3;i++) { sprintf(t[i],"%s/%sXXXXXX",B(x,2)?x->shared:x->dir,"pre"); HU(x,ulz_mkdtemp(t[i])==t[i]); mine(x,t[i]); } HU(x,strcmp(t[0],t[1])&&strcmp(t[1],t[2])&&strcmp(t[0],t[2])); for(int i=0;i<3;i++) HU(x,rmdir(t[i])); }
static void o_ssa(X*x) { ssa_pool*p=malloc(sizeof*p); ssa_init(p); void*a[16]={0}; int live=0; for(int i=0;i<80;i++) { int k=B(x,16); if(a[k]) { ssa_free(p,a[k]); a[k]=0; live--; } else { a[k]=ssa_alloc(p,1+B(x,24)); HU(x,!!a[k]); if(a[k]) { memset(a[k],k,24); live++; } } } for(int k=0;k<16;k++) if(a[k]) H(x,a[k],24); free(p); }
static void o_guard(X*x) { size_t n=1+B(x,9000); u8*p=guard_alloc(n); HU(x,!!p); if(p) { memset(p,B(x,200),n); H(x,p,n); guard_free(p,n); } }
static void o_strlist(X*x) { stringlist*l=stringlist_new(4); char b[20]; for(int i=0;i<10;i++) { T(x,b,19,"xyz"); stringlist_add_dup(l,b); } for(size_t i=0;i<11;i++) HS(x,stringlist_get(l,i)); sblist_free_values(l); stringlist_free(l); }
#ifndef VH_VARIANT_TSAN
static void o_proc(X*x) { struct process p; char b[400],o[500]; int code=B(x,200); char cs[40]; sprintf(cs,"cat; exit %d",code); int r=process_open(&p,(char*const[]){"/bin/sh","-c",cs,0}); HU(x,r); if(r) return; size_t n=1+T(x,b+1,390,"abcdef"),g=0; b[0]='@'; HU(x,write(p.fds[0],b,n)==(ssize_t)n); close(p.fds[0]); p.fds[0]=-1; ssize_t k; while((k=read(p.fds[1],o+g,sizeof o-g))>0||(k<0&&errno==EINTR)) if(k>0) g+=k; H(x,o,g); HU(x,g==n&&!memcmp(o,b,n)); HU(x,process_close(&p)); }
#endif
static const struct { const char*n; void(*f)(X*); } ops[]={
#define O(a) {#a,o_##a}
O(sblist),O(sblist2),O(hashlist),O(hbmap),O(bmap),O(tglist),O(tlist),O(kvlist),O(strptr),O(split),O(format),O(fdprintf),O(log),O(stamp),O(ints),O(numpad),O(base64),O(hex),O(rc4),O(ipv4),O(search),O(md5),O(sha),O(crc),O(file),O(parser),O(filelist),O(path),O(ini),O(opt),O(tmpdir),O(ssa),O(guard),O(strlist),O(clock),O(stdout),O(mktempdir),
#ifndef VH_VARIANT_TSAN
O(proc),
#endif
};
#define NOPS (int)(sizeof ops/sizeof*ops)
#define MAXT 6
#define MAXK 64
static struct th { int k,n; u64 seed; u8 op[MAXK]; u64 alone[MAXK],conc[MAXK]; u8 yield[MAXK]; char dir[300]; u64 overlaps; u64 started[NOPS]; } th[MAXT];
static int cur[MAXT]; static int nth; static pthread_barrier_t bar; static char shared[300]; static unsigned char pairs[NOPS+1][NOPS+1];
static void run1(struct th*t,int i,u64*out) { X x={t->seed+i*7919u,14695981039346656037ull,t->dir,shared}; ops[t->op[i]].f(&x); out[i]=x.h; }
static void*worker(void*v) { struct th*t=v; pthread_barrier_wait(&bar);
	for(int i=0;i<t->n;i++) { for(int y=0;y<t->yield[i];y++) sched_yield(); __atomic_store_n(&cur[t->k],t->op[i]+1,__ATOMIC_RELAXED); for(int j=0;j<nth;j++) if(j!=t->k) { int c=__atomic_load_n(&cur[j],__ATOMIC_RELAXED); if(c) { unsigned char*q=&pairs[t->op[i]][c-1]; t->overlaps++; if(!__atomic_load_n(q,__ATOMIC_RELAXED)) __atomic_store_n(q,1,__ATOMIC_RELAXED); } } run1(t,i,t->conc); __atomic_store_n(&cur[t->k],0,__ATOMIC_RELAXED); }
	return 0; }
static void run(int same) {
	u64 sig=same; int i,j; nth=2+vh_below(MAXT-1); int K=same>=0?8:12+vh_below(MAXK-12);
	snprintf(shared,sizeof shared,"%s/shared",vh_scratch()); mkdir(shared,0700);
	for(i=0;i<nth;i++) { struct th*t=th+i; memset(t,0,sizeof*t); t->k=i; t->n=K; t->seed=vh_rnd(); snprintf(t->dir,sizeof t->dir,"%s/t%d",vh_scratch(),i); mkdir(t->dir,0700); for(j=0;j<K;j++) { t->op[j]=same>=0?same:(int)vh_below(NOPS);
#ifndef VH_VARIANT_TSAN
		if(same<0&&t->op[j]==NOPS-1&&vh_chance(3,4)) t->op[j]=vh_below(NOPS-1);
#endif
		t->yield[j]=vh_chance(1,4)?vh_below(4):0; sig=vh_hashu(t->op[j],sig); } }
	/* the first use of an operation in a process is a concurrent one (tables made on first use) */
	static u8 usedop[NOPS]; int confirst=vh_chance(1,2); for(i=0;i<nth;i++) for(j=0;j<K;j++) if(!usedop[th[i].op[j]]) { usedop[th[i].op[j]]=1; confirst=1; VH_COUNT("operations first used in several threads at once",1); }
	if(!confirst) for(i=0;i<nth;i++) for(j=0;j<K;j++) run1(th+i,j,th[i].alone);
	vh_tick(); memset(cur,0,sizeof cur); pthread_barrier_init(&bar,0,nth); pthread_t id[MAXT];
	for(i=0;i<nth;i++) if(pthread_create(id+i,0,worker,th+i)) vh_internal("thread");
	for(i=0;i<nth;i++) pthread_join(id[i],0);
	if(confirst) for(i=0;i<nth;i++) for(j=0;j<K;j++) run1(th+i,j,th[i].alone);
	pthread_barrier_destroy(&bar); VH_COUNT("threads run",nth);
	for(i=0;i<nth;i++) { VH_COUNT("operation starts that overlapped another thread",th[i].overlaps); for(j=0;j<K;j++) { VH_CHECK(th[i].alone[j]==th[i].conc[j],ops[th[i].op[j]].n,"operation %s gives another result in thread %d of %d than alone",ops[th[i].op[j]].n,i,nth); VH_COUNT("operations compared",1); } }
	if(same>=0) VH_COUNT("same-operation schedules",1); else VH_COUNT("mixed schedules",1);
	for(i=0;i<NOPS;i++) for(j=0;j<NOPS;j++) if(pairs[i][j]==1) { pairs[i][j]=2; VH_COUNT("distinct pairs of operations seen overlapping (per shard)",1); }
	vh_seen(sig); if(vh_want_sample()) vh_sample("%d threads x %d operations, %s",nth,K,same>=0?ops[same].n:"mixed");
}
static void m_same(u64 idx) { run(idx%NOPS); }
static void m_mix(u64 idx) { run(-1); }
void vh_setup(void) { CRC32_InitTables(); CRC32C_InitTables(); }
const vh_mode vh_modes[]={{"same",m_same,NOPS*12,NOPS*200},{"mix",m_mix,200,4000},{0}};
