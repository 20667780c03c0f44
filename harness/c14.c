/* C14: formatter vs. the C library's printf, exact buffers, all four front ends */
#include "vh.h"
#include "format.h"
#include "stringptr.h"
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
const char *const vh_rule="random formats of supported directives (literal text, %%, %s %c %d %u %x %X %p %ld %lu %lld %llu %zu %zd with and without precision) and boundary-biased arguments, destination sizes around the full length, NULL destination, malformed formats; compared with vsnprintf; distinct = hash of format and arguments";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge texts",0};
#else
const char *const vh_required[]={"full text","truncated","size 0","size 1","NULL destination","malformed","stdout variant","descriptor variant","string variant","over 4095 characters","over 999 characters","%s","%c","%c of 0","%d","%u","%x","%X","%p","long","long long","size_t","precision","precision beyond 16 bits","sizes beyond 16 bits","negative with precision","zero with precision 0","percent","vsnprintf",0};
#endif
static int mfd,ofd;
void vh_setup(void) { mfd=memfd_create("out",MFD_CLOEXEC); ofd=memfd_create("fd",MFD_CLOEXEC); if(mfd<0||ofd<0||dup2(mfd,1)<0) vh_internal("memfd"); }
static ssize_t vs(char*d,size_t n,const char*f,...) { va_list ap; va_start(ap,f); ssize_t r=ulz_vsnprintf(d,n,f,ap); va_end(ap); return r; }
#include "fmtgen.h"
static void fmt(u64 idx) {
	static char ref[3000000]; gen(); int full=snprintf(ref,sizeof ref,(char*)R.d,ARGS); if(full<0||full>=(int)sizeof ref) vh_internal("reference"); char*f=vh_rdup(F.d,F.n+1); ssize_t r; int w=vh_below(16); VH_TRACE("format '%s' -> %d",vh_esc(F.d,F.n),full);
	if(w<9) {
		size_t n; switch(vh_below(8)) { case 0: n=0; break; case 1: n=1; break; case 2: n=full+1; break; case 3: n=full; break; case 4: n=full+2+vh_below(50); break; case 5: n=full>1?full-1:2; break; default: n=vh_below(full+3); }
		char*d=vh_gbuf(n); if(vh_chance(1,4)) { r=vs(d,n,f,ARGS); VH_COUNT("vsnprintf",1); } else r=ulz_snprintf(d,n,f,ARGS); ssize_t e=!n?0:n>(size_t)full?full:(ssize_t)n-1;
		VH_CHECK(r==e,"return","'%s' into %zu bytes returned %zd, expected %zd (full length %d)",vh_esc(F.d,F.n),n,r,e,full); if(n) { VH_CHECK(!memcmp(d,ref,e),"text","'%s' gives '%s', expected '%s'",vh_esc(F.d,F.n),vh_esc(d,e),vh_esc(ref,e)); VH_CHECK(d[e]==0,"terminator","'%s' into %zu bytes is not terminated",vh_esc(F.d,F.n),n); }
		if(!n) VH_COUNT("size 0",1); else if(n==1) VH_COUNT("size 1",1); else if(e<full) VH_COUNT("truncated",1); else VH_COUNT("full text",1); vh_gfree(d);
	} else if(w<11) { r=vh_chance(1,2)?ulz_snprintf(0,vh_chance(1,2)?0:vh_below(100),f,ARGS):vs(0,0,f,ARGS); VH_CHECK(r==full,"null-length","'%s' with NULL destination returned %zd, expected %d",vh_esc(F.d,F.n),r,full); VH_COUNT("NULL destination",1); }
	else if(w<13) { stringptr*s=stringptr_format(f,ARGS); int e=full>999?999:full; VH_CHECK(s,"null","stringptr_format('%s')",vh_esc(F.d,F.n)); VH_CHECK(s->size==(size_t)e&&!memcmp(s->ptr,ref,e)&&s->ptr[e]==0,"string","stringptr_format('%s') has %zu bytes '%s', expected %d",vh_esc(F.d,F.n),s->size,vh_esc(s->ptr,s->size),e); stringptr_free(s); VH_COUNT("string variant",1); if(full>999) VH_COUNT("over 999 characters",1); }
	else { static char got[5000]; int e=full>4095?4095:full,out=w==13,fd=out?mfd:ofd; if(ftruncate(mfd,0)||ftruncate(ofd,0)) vh_internal("truncate"); lseek(mfd,0,SEEK_SET); lseek(ofd,0,SEEK_SET); if(out) { ulz_printf(f,ARGS); VH_COUNT("stdout variant",1); } else { ulz_fprintf(ofd,f,ARGS); VH_COUNT("descriptor variant",1); } ssize_t k=pread(fd,got,sizeof got,0); VH_CHECK(k==e&&!memcmp(got,ref,e),"emit","%s('%s') emitted %zd bytes '%s', expected %d",out?"ulz_printf":"ulz_fprintf",vh_esc(F.d,F.n),k,vh_esc(got,k>0?k:0),e); VH_CHECK(lseek(out?ofd:mfd,0,SEEK_END)==0,"emit","output on another descriptor"); if(full>4095) VH_COUNT("over 4095 characters",1); }
	VH_CHECK(!memcmp(f,F.d,F.n+1),"modified","format modified"); u64 h=vh_hash(F.d,F.n,1); for(int i=0;i<na;i++) h=vh_hashu(A[i],h); vh_seen(h); vh_sample("'%.80s' -> '%.80s'",vh_esc(F.d,F.n),vh_esc(ref,full)); for(int i=0;i<nstr;i++) vh_gfree(strs[i]); vh_gfree(f);
}
static void bad(u64 idx) {
	gen(); int k=vh_below(4); if(na>9) na=9; /* append a malformed directive */
	if(k==0) bs_putc(&F,'%'); else if(k==1) { static const char u[]="qQwkKYVmMjyvJrRbBWZHPGO!@^&()=[]{}<>?,;:\"'~`|\\_"; bs_putc(&F,'%'); bs_putc(&F,u[vh_below(sizeof u-1)]); bs_puts(&F,"tail"); } else if(k==2) { bs_puts(&F,"%."); if(vh_chance(1,2)) bs_puts(&F,"7"); } else { bs_puts(&F,vh_chance(1,2)?"%l":"%z"); bs_putc(&F,"qk "[vh_below(3)]); }
	char*f=vh_rdup(F.d,F.n+1); size_t n=vh_below(300); char*d=vh_gbuf(n); ssize_t r; 
	r=ulz_snprintf(d,n,f,ARGS); VH_CHECK(r==-1,"malformed","'%s' returned %zd",vh_esc(F.d,F.n),r); r=ulz_snprintf(0,0,f,ARGS); VH_CHECK(r==-1,"malformed","'%s' with NULL destination returned %zd",vh_esc(F.d,F.n),r); VH_CHECK(!stringptr_format(f,ARGS),"malformed","stringptr_format('%s')",vh_esc(F.d,F.n));
	ftruncate(ofd,0); lseek(ofd,0,SEEK_SET); ulz_fprintf(ofd,f,ARGS); VH_CHECK(lseek(ofd,0,SEEK_END)==0,"malformed","ulz_fprintf('%s') emitted %ld bytes",vh_esc(F.d,F.n),(long)lseek(ofd,0,SEEK_END)); VH_COUNT("malformed",1); vh_seen(vh_hash(F.d,F.n,2)); for(int i=0;i<nstr;i++) vh_gfree(strs[i]); vh_gfree(f); vh_gfree(d);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(8<<20)+vh_below(4000),i; char*t=hugetext(n,'a'),*w=0; ssize_t r;
	if(idx==0) { r=ulz_snprintf(0,0,"x%s",t); VH_CHECK(r==(ssize_t)n+1,"huge","'x%%s' of %zu characters has length %zd",n,r); }
	else { w=hugewin(n+50); size_t sz=idx==1?n+40:(1ull<<32)+100; r=ulz_snprintf(w,sz,"%sEND%d",t,-5); ssize_t e=idx==1?(ssize_t)n+5:(ssize_t)sz-1; VH_CHECK(r==e,"huge","'%%sEND%%d' of %zu characters into %zu bytes returns %zd, expected %zd",n,sz,r,e);
		if(idx==1) VH_CHECK(!memcmp(w+n-8,"aaaaaaaaEND-5",14),"huge","text beyond 4 GiB"); else { VH_CHECK(w[sz-1]==0,"huge","terminator"); for(i=2;i<40;i++) VH_CHECK(w[sz-i]=='a',"huge","text beyond 4 GiB"); } hugefree(w,n+50); }
	VH_COUNT("huge texts",1); vh_seen(idx+1); hugefree(t,n);
}
const vh_mode vh_modes[]={{"huge",huge,3,3},{0}};
#else
const vh_mode vh_modes[]={{"format",fmt,250000,9000000},{"malformed",bad,30000,900000},{0}};
#endif
