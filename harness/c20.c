/* C20: load/save with injected short transfers, errors, early EOF; file bytes vs. results */
#include "vh.h"
#include "stringptrlist.h"
#include "filelib.h"
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
const char *const vh_rule="random contents (0..300000 bytes, around the 64 KiB chunk and 1024-byte line buffer) saved and loaded while reads/writes are cut short, fail (EIO, ENOSPC, EINTR) or end early at random call numbers; results judged against the bytes really transferred and in the file; distinct = hash of content and fault plan";
#ifdef HUGE
#include "huge.h"
static struct { int on; const char*ref; size_t n,at; } B;
const char *const vh_required[]={"huge files",0};
#else
const char *const vh_required[]={"saved","loaded","round trip","list saved","list loaded","list with empty lines","list with long lines","list with lines beyond 16 bits","created file is usable","empty content","missing file","old longer content replaced","list over an older, longer file","empty list over an older file","file size","writes that take nothing","write errors injected","file time","size beyond 4 GiB","changed meanwhile",0};
#endif
#define IOW_READ
#define IOW_WRITE
#define IOW_OPEN
#include "iowrap.h"
ssize_t __real_read(int,void*,size_t); ssize_t __real_write(int,const void*,size_t); int __real_open(const char*,int,...); off_t __real_lseek(int,off_t,int);
static struct { int on; int shortp; u64 fail_at; int err; u64 eof_at; u64 open_fail; u64 seek_fail; u64 nread,nwrite,nopen,nseek; u64 rd,wr; int errs,eofs,shorts,openerr; int fds[64]; int nfd; } I;
static size_t cutlen(size_t n) { if(I.shortp&&n>1&&vh_chance(I.shortp,4)) { size_t k=vh_chance(1,3)?1+vh_below(n<9?n:9):1+vh_below(n); if(k<n) { I.shorts++; VH_COUNT("transfers cut short",1); } return k; } return n; }
ssize_t __wrap_read(int fd,void*b,size_t n) { if(!I.on) return iow_read(fd,b,n); vh_tick(); I.nread++; if(I.nread==I.fail_at) { I.errs++; VH_COUNT("read errors injected",1); errno=I.err; return -1; } if(I.eof_at&&I.nread>=I.eof_at) { I.eofs++; VH_COUNT("early end of file injected",1); if(I.eofs>5000) vh_fail("hang","read called again and again after end of file"); return 0; } ssize_t r=iow_read(fd,b,cutlen(n)); if(r>0) I.rd+=r; return r; }
#ifdef HUGE
static ssize_t sink(const void*b,size_t n) { vh_tick(); if(n>0x7ffff000) n=0x7ffff000; if(B.on==1) VH_CHECK(B.at+n<=B.n&&!memcmp(b,B.ref+B.at,n),"huge","bytes written at %zu differ",B.at); B.at+=n; return n; }
#define SINK if(B.on) return sink(b,n);
#else
#define SINK
#endif
ssize_t __wrap_write(int fd,const void*b,size_t n) { SINK if(!I.on) return iow_write(fd,b,n); vh_tick(); I.nwrite++; if(I.nwrite==I.fail_at||(I.fail_at&&I.err!=EINTR&&I.nwrite>I.fail_at)) { I.errs++; if(I.errs>5000) vh_fail("hang","write called again and again after an error"); if(!I.err) { VH_COUNT("writes that take nothing",1); return 0; } VH_COUNT("write errors injected",1); errno=I.err; return -1; } ssize_t r=iow_write(fd,b,cutlen(n)); if(r>0) I.wr+=r; return r; }
int __wrap_open(const char*p,int fl,...) { va_list ap; va_start(ap,fl); int m=fl&O_CREAT?va_arg(ap,int):0; va_end(ap); if(!I.on) return __real_open(p,fl,m); I.nopen++; if(I.open_fail) { I.openerr++; VH_COUNT("open errors injected",1); errno=I.open_fail; return -1; } return __real_open(p,fl,m); }
off_t __wrap_lseek(int fd,off_t o,int w) { if(!I.on) return __real_lseek(fd,o,w); I.nseek++; if(I.nseek==I.seek_fail) { I.errs++; VH_COUNT("seek errors injected",1); errno=EIO; return -1; } return __real_lseek(fd,o,w); }
static char fn[600],miss[600]; void vh_setup(void) { snprintf(fn,600,"%s/f",vh_scratch()); snprintf(miss,600,"%s/no/f",vh_scratch()); }
static void put(const void*d,size_t n) { int fd=__real_open(fn,O_WRONLY|O_CREAT|O_TRUNC,0600); const char*p=d; while(n) { ssize_t k=__real_write(fd,p,n); if(k<=0) vh_internal("put"); p+=k; n-=k; } close(fd); }
static bs C; static void slurp(void) { C.n=0; bs_put(&C,"",0); int fd=__real_open(fn,O_RDONLY,0); static char b[1<<16]; ssize_t k; if(fd<0) return; while((k=__real_read(fd,b,sizeof b))>0) bs_put(&C,b,k); close(fd); }
static u64 plan(int rd) { memset(&I,0,sizeof I); int k=vh_below(8); if(k>=2) I.shortp=vh_below(5); if(k>=5) { u64 at=1+vh_below(vh_chance(1,2)?3:12); if(rd&&vh_chance(1,3)) I.eof_at=at; else { I.fail_at=at; I.err=(int[]){EIO,EINTR,ENOSPC,EAGAIN,0}[vh_below(rd?4:5)]; } } if(vh_chance(1,25)) I.open_fail=(int[]){EACCES,EMFILE,EINTR}[vh_below(3)]; return k*1000+I.shortp*100+I.fail_at; }
static size_t csize(void) { switch(vh_below(8)) { case 0: return 65536*vh_below(4)+vh_below(5)-2*(vh_below(2)); case 1: return vh_size(300000); default: return vh_size(4000); } }
static void nofd(int before,const char*op) { int a=vh_fdcount(); VH_CHECK(a==before,"fd-leak","%s leaves %d descriptors open",op,a-before); }
static void string(u64 idx) {
	size_t n=csize(); if(n>(size_t)1<<20) n=0; u8*t=xmalloc(n+1); vh_bytes(t,n); char*g=vh_rdup(t,n); stringptr s={g,n}; int fds=vh_fdcount(),fresh=0; u64 sig=vh_hash(t,n,1);
	/* save */
	if(vh_chance(1,2)) { put("0123456789012345678901234567890123456789",vh_below(40)); if(vh_chance(1,3)) { bs o={0}; while(o.n<n+500) bs_puts(&o,"old old old"); put(o.d,o.n); bs_free(&o); VH_COUNT("old longer content replaced",1); } } else { unlink(fn); fresh=1; }
	sig=vh_hashu(plan(0),sig); I.on=1; size_t r=stringptr_tofile(fn,&s); I.on=0; slurp(); if(!n) VH_COUNT("empty content",1); if(!I.openerr&&!I.errs) { struct stat st; VH_CHECK(!stat(fn,&st),"save-gone","no file after saving %zu bytes",n); } if(fresh&&r) { struct stat st; VH_CHECK(!stat(fn,&st)&&(st.st_mode&07600)==0600,"mode","newly saved file has mode %o",(unsigned)st.st_mode); VH_COUNT("created file is usable",1); }
	if(I.openerr&&!I.wr) { VH_CHECK(r==0,"save-open","could not open, returned %zu",r); }
	else { VH_CHECK(r==C.n,"save-count","returned %zu, the file has %zu of %zu bytes",r,C.n,n); VH_CHECK(C.n<=n&&!memcmp(C.d,t,C.n),"save-content","file differs from what was saved"); if(!I.errs) VH_CHECK(r==n,"save-incomplete","no error, but only %zu of %zu bytes were written",r,n); VH_COUNT("saved",1); }
	VH_CHECK(!memcmp(g,t,n),"modified","content modified by saving"); nofd(fds,"stringptr_tofile");
	VH_TRACE("save %zu: %zu (shorts %d errs %d)",n,r,I.shorts,I.errs);
	/* load */
	put(t,n); sig=vh_hashu(plan(1),sig); I.on=1; stringptr*l=stringptr_fromfile(fn); I.on=0; VH_TRACE("load %zu: %zd (shorts %d errs %d eofs %d)",n,l?(ssize_t)l->size:-1,I.shorts,I.errs,I.eofs);
	if(l) { VH_CHECK(l->size<=I.rd||!n||!I.nread,"load-claims","reports %zu bytes, %llu were read",l->size,(unsigned long long)I.rd); VH_CHECK(l->size<=n&&!memcmp(l->ptr,t,l->size),"load-content","loaded bytes differ"); VH_CHECK(l->ptr[l->size]==0,"load-terminator","not terminated"); if(!I.errs&&!I.eofs) VH_CHECK(l->size==n,"load-incomplete","loaded %zu of %zu bytes",l->size,n); else if(I.nread) VH_CHECK(l->size==I.rd,"load-count","reports %zu bytes, %llu were read",l->size,(unsigned long long)I.rd); VH_COUNT("loaded",1); stringptr_free(l); if(n) VH_COUNT("round trip",1); }
	else VH_CHECK(!n||I.errs||I.eofs||I.openerr,"load-fail","loading %zu bytes failed without an error",n);
	nofd(fds,"stringptr_fromfile");
	if(vh_chance(1,10)) { VH_CHECK(!stringptr_fromfile(miss)&&stringptr_tofile(miss,&s)==0&&stringptr_tofile(0,&s)==0&&stringptr_tofile(fn,0)==0,"missing","missing file"); VH_COUNT("missing file",1); nofd(fds,"failing call"); }
	vh_seen(sig); vh_sample("%zu bytes saved/loaded under plan (fail at %llu, eof at %llu)",n,(unsigned long long)I.fail_at,(unsigned long long)I.eof_at); vh_gfree(g); xfree(t);
}
static void list(u64 idx) {
	size_t k=vh_chance(1,8)?0:vh_size(vh_chance(1,8)?400:12),i; bs all={0}; stringptr*e=xcalloc(k+1,sizeof*e); stringptrlist*l=stringptrlist_new(1+vh_below(9)); int fds=vh_fdcount(); int el=0,ll=0; bs_put(&all,"",0);
	for(i=0;i<k;i++) { size_t n; switch(vh_below(7)) { case 0: n=0; el=1; break; case 1: n=1018+vh_below(12); break; case 2: n=vh_size(4000); break; case 3: if(vh_chance(1,40)) { n=65520+vh_below(vh_chance(1,2)?30:80000); VH_COUNT("list with lines beyond 16 bits",1); break; } /* fall through */ default: n=vh_below(50); } if(n>=1024) ll=1; if(!n) el=1; char*p=vh_gbuf(n); for(size_t j=0;j<n;j++) p[j]=vh_chance(1,50)?0:'a'+vh_below(26); e[i].ptr=p; e[i].size=n; stringptrlist_add(l,p,n); bs_put(&all,p,n); bs_putc(&all,'\n'); }
	u64 sig=vh_hash(all.d,all.n,2); if(el) VH_COUNT("list with empty lines",1); if(ll) VH_COUNT("list with long lines",1);
	int fresh=0,perm=(int[]){0600,0640,0644,0400,0666}[vh_below(5)]; if(vh_chance(1,3)) { bs o={0}; bs_put(&o,all.d,all.n); if(vh_chance(2,3)) { size_t j=0; while(o.n<all.n+1+vh_below(600)) bs_puts(&o,"older\nlines\n"); if(vh_chance(1,2)) for(j=0;j<all.n;j++) o.d[j]='Z'; VH_COUNT("list over an older, longer file",1); if(!k) VH_COUNT("empty list over an older file",1); } put(o.d,o.n); bs_free(&o); } else { unlink(fn); fresh=1; } mode_t um=umask(0); sig=vh_hashu(plan(0),sig); I.on=1; int r=stringptrlist_tofile(l,fn,fresh?perm:0600); I.on=0; umask(um); slurp(); if(fresh&&r) { struct stat st; VH_CHECK(!stat(fn,&st)&&(st.st_mode&07777)==(unsigned)perm,"mode","newly saved list has mode %o, asked for %o",(unsigned)st.st_mode&07777,perm); unlink(fn); } VH_TRACE("list save: %d",r);
	if(r) { VH_CHECK(C.n==all.n&&!memcmp(C.d,all.d,all.n),"list-save","reports success, but the file has %zu of %zu bytes",C.n,all.n); VH_COUNT("list saved",1); } else VH_CHECK(I.errs||I.openerr,"list-save-fail","failed without an error (%d short writes)",I.shorts);
	nofd(fds,"stringptrlist_tofile");
	/* load: with or without final newline */
	int fin=!k||e[k-1].size==0||vh_chance(2,3); put(all.d,all.n-(fin?0:1)); plan(1); I.eof_at=0; if(vh_chance(1,10)) I.seek_fail=1+vh_below(4); sig=vh_hashu(I.fail_at,sig); stringptrlist*o=stringptrlist_new(4); size_t pre=vh_chance(1,5)?1:0; if(pre) stringptrlist_add_strdup(o,SPL("kept")); I.on=1; r=stringptrlist_fromfile(o,fn); I.on=0; VH_TRACE("list load: %d, %zu entries of %zu",r,stringptrlist_getsize(o),k);
	if(r) { VH_CHECK(stringptrlist_getsize(o)==k+pre,"list-load","%zu entries, expected %zu",stringptrlist_getsize(o)-pre,k); for(i=0;i<k;i++) { stringptr*s=stringptrlist_get(o,i+pre); VH_CHECK(s->size==e[i].size&&!memcmp(s->ptr,e[i].ptr,s->size)&&s->ptr[s->size]==0,"list-load","entry %zu differs",i); } VH_COUNT("list loaded",1); } else VH_CHECK(I.errs||I.openerr,"list-load-fail","failed without an error");
	nofd(fds,"stringptrlist_fromfile"); if(vh_chance(1,10)) { VH_CHECK(!stringptrlist_fromfile(o,miss)&&!stringptrlist_tofile(l,miss,0600),"missing","missing file"); nofd(fds,"failing call"); }
	stringptrlist_freeall(o); stringptrlist_free(l); for(i=0;i<k;i++) vh_gfree(e[i].ptr); xfree(e); bs_free(&all); vh_seen(sig);
}
static void meta(u64 idx) {
	put("x",1); u64 n=vh_chance(1,2)?vh_size(300000):(1ull<<32)+vh_below(1u<<31); if(truncate(fn,n)) vh_internal("truncate"); size_t r=getfilesize(fn); VH_CHECK(r==n,"size","getfilesize of a %llu-byte file is %zu",(unsigned long long)n,r); VH_COUNT("file size",1); if(n>>32) VH_COUNT("size beyond 4 GiB",1);
	time_t t=vh_chance(1,3)?(time_t)(1ull<<31)+vh_below(1u<<30):(time_t)vh_below(1u<<31); struct timeval tv[2]={{1234,0},{t,vh_below(1000000)}}; if(utimes(fn,tv)) vh_internal("utimes"); VH_CHECK(getFileModTime(fn)==t,"time","getFileModTime gives %lld, expected %lld",(long long)getFileModTime(fn),(long long)t); VH_COUNT("file time",1); if(vh_chance(1,2)) { /* the same name again, after a change */ size_t n2=vh_size(300000); if(truncate(fn,n2)) vh_internal("truncate"); time_t t2=(time_t)vh_below(1u<<31); tv[1].tv_sec=t2; if(utimes(fn,tv)) vh_internal("utimes"); size_t r2=getfilesize(fn); VH_CHECK(r2==n2,"size","getfilesize after a change to %zu bytes is %zu",n2,r2); time_t g2=getFileModTime(fn); VH_CHECK(g2==t2,"time","getFileModTime after a change gives %lld, expected %lld",(long long)g2,(long long)t2); VH_COUNT("changed meanwhile",1); } VH_CHECK(getfilesize(miss)==0&&getFileModTime(miss)==0,"missing","missing file"); vh_seen(vh_hashu(n,t)); truncate(fn,0);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(1<<20)+vh_below(4000),at[5]={0,(1u<<31)-3,(1ull<<32)-2,(1ull<<32)+7,0},i; at[4]=n-4; if(idx==0) { int fd=__real_open(fn,O_RDWR|O_CREAT|O_TRUNC,0600); if(ftruncate(fd,n)) vh_internal("sparse"); for(i=0;i<5;i++) if(pwrite(fd,"mark",4,at[i])!=4) vh_internal("sparse"); close(fd); stringptr*s=stringptr_fromfile(fn); VH_CHECK(s&&s->size==n,"huge","loading %zu bytes gives %zd",n,s?(ssize_t)s->size:-1); for(i=0;i<5;i++) VH_CHECK(!memcmp(s->ptr+at[i],"mark",4),"huge","byte %zu of %zu",at[i],n); VH_CHECK(!s->ptr[n],"huge","terminator"); stringptr_free(s); truncate(fn,0); }
	else if(idx==1) { char*t=hugetext(n,'t'); stringptr s={t,n}; for(i=0;i<5;i++) memcpy(t+at[i],"mark",4); B.ref=t; B.n=n; B.at=0; B.on=1; size_t r=stringptr_tofile(fn,&s); B.on=0; VH_CHECK(r==n&&B.at==n,"huge","saving %zu bytes: returned %zu, %zu written",n,r,B.at); hugefree(t,n); }
	else { /* a list whose middle line is beyond 2^32 */ int fd=__real_open(fn,O_RDWR|O_CREAT|O_TRUNC,0600); if(ftruncate(fd,n+12)) vh_internal("sparse"); if(pwrite(fd,"first\n",6,0)!=6||pwrite(fd,"\nlast\n",6,n+6)!=6||pwrite(fd,"mark",4,6+(1ull<<32))!=4) vh_internal("sparse"); close(fd); stringptrlist*l=stringptrlist_new(4); int r=stringptrlist_fromfile(l,fn); VH_CHECK(r&&stringptrlist_getsize(l)==3,"huge","%zu lines, expected 3",(size_t)stringptrlist_getsize(l)); stringptr*s=stringptrlist_get(l,1); VH_CHECK(s->size==n&&!memcmp(s->ptr+(1ull<<32),"mark",4),"huge","line of %zu bytes loaded as %zu",n,s->size); VH_CHECK(stringptr_eq(stringptrlist_get(l,0),SPL("first"))&&stringptr_eq(stringptrlist_get(l,2),SPL("last")),"huge","lines around a huge one"); truncate(fn,0);
		bs h={0}; char*t=s->ptr; B.ref=t-0; B.n=0; B.at=0; B.on=2; r=stringptrlist_tofile(l,fn,0600); B.on=0; VH_CHECK(r&&B.at==n+12,"huge","saving a list of %zu bytes: %d, %zu written",n+12,r,B.at); stringptrlist_freeall(l); bs_free(&h); }
	VH_COUNT("huge files",1); vh_seen(idx+1);
}
const vh_mode vh_modes[]={{"huge",huge,3,3},{0}};
#else
const vh_mode vh_modes[]={{"string",string,12000,300000},{"list",list,10000,300000},{"meta",meta,1500,20000},{0}};
#endif
