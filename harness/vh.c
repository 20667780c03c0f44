#include "vh.h"
#include <stdio.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <pthread.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif

/* ---------- state ---------- */
struct shared { u64 beat; u64 cas; u64 modeidx; u64 done; };
static struct shared local_shared, *sh = &local_shared;
int vh_thorough, vh_tracing;
u64 vh_seed = 1;
static u64 S[2], casehash;
static const vh_mode *curmode; static u64 curcase;
static sigjmp_buf casejmp; static int injmp;
static char *known[256]; static int nknown; static u64 knownhits[256];
static const char *scratch = "/nonexistent";
static int logfd = -1;
static u64 lits[512]; static size_t nlits;

/* ---------- rng ---------- */
static u64 smix(u64 *x) { u64 z = (*x += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31); }
u64 vh_rnd(void) { u64 s1=S[0], s0=S[1], r=s0+s1; S[0]=s0; s1^=s1<<23; S[1]=s1^s0^(s1>>18)^(s0>>5); return r; }
void vh_rng_get(u64 s[2]) { s[0]=S[0]; s[1]=S[1]; }
void vh_rng_set(const u64 s[2]) { S[0]=s[0]; S[1]=s[1]; }
u64 vh_below(u64 n) { return n ? (vh_rnd()>>8) % n : 0; }
int vh_chance(unsigned a, unsigned b) { return vh_below(b) < a; }
u64 vh_case_hash(void) { return casehash; }
u64 vh_hash(const void *p, size_t n, u64 h) { const u8*s=p; h ^= 0xcbf29ce484222325ull + n*0x100000001b3ull; while(n--) { h ^= *s++; h *= 0x100000001b3ull; } h ^= h>>29; return h; }
static void seedcase(const char *mode, u64 idx) {
	u64 x = vh_hash(mode, strlen(mode), vh_seed*0x9E3779B97F4A7C15ull) ^ (idx*0xD1342543DE82EF95ull);
	S[0]=smix(&x); S[1]=smix(&x)|1; casehash = S[0]^S[1];
}
u64 vh_lit(void) { return nlits ? lits[vh_below(nlits)] : 16; }
size_t vh_xsize(size_t max) {
	if(!vh_chance(1,200)) return vh_size(max);
	VH_COUNT("sizes beyond 16 bits",1);
	switch(vh_below(4)) { case 0: return 65530+vh_below(14); case 1: return 65536+vh_below(400); case 2: return 65536*(1+vh_below(3))+vh_below(40); default: return 65536+vh_below(120000); }
}
size_t vh_size(size_t max) {
	static const size_t edges[] = {255,256,257,511,512,513,999,1000,1001,1022,1023,1024,1025,1026,2047,2048,2049,4094,4095,4096,4097,8191,8192,8193,65535,65536,65537};
	size_t r;
	if(!max) return 0;
	switch(vh_below(12)) {
	case 0: case 1: case 2: r = vh_below(5); break;
	case 3: case 4: r = vh_below(20); break;
	case 5: case 6: r = vh_below(70); break;
	case 7: r = vh_below(300); break;
	case 8: { u64 k = vh_below(17); r = (1ull<<k); r += vh_below(5); r = r>2?r-2:r; break; }
	case 9: r = edges[vh_below(sizeof edges/sizeof *edges)]; break;
	case 10: r = vh_lit(); if(vh_chance(1,2)) r += vh_below(3)-1; break;
	default: r = vh_below(max+1); break;
	}
	if(r > max) r = vh_chance(1,3) ? max : vh_below(max+1);
	return r;
}
u64 vh_u64val(void) {
	u64 r;
	switch(vh_below(10)) {
	case 0: r = vh_below(12); break;
	case 1: r = -vh_below(12); break;
	case 2: r = 1ull<<vh_below(64); r += vh_below(5)-2; break;
	case 3: { u64 p=1; int k=vh_below(20); while(k--) p*=10; r = p + vh_below(3)-1; break; }
	case 4: r = (u64)(int32_t)vh_rnd(); break;
	case 5: r = (u32)vh_rnd(); break;
	case 6: r = vh_lit() + vh_below(3)-1; break;
	case 7: { static const u64 e[]={0x7fffffff,0x80000000,0xffffffff,0x7fffffffffffffffull,0x8000000000000000ull,~0ull,0x100000000ull,9999999999999999999ull,1000000000,999999999,4294967290u,2147483640u};
		r = e[vh_below(12)] + vh_below(5)-2; break; }
	case 8: r = vh_rnd() >> vh_below(64); break;
	default: r = vh_rnd(); break;
	}
	return vh_chance(1,8) ? -r : r;
}
void vh_bytes(void *p, size_t n) {
	u8 *b=p; size_t i; int k=vh_below(7);
	for(i=0;i<n;i++) switch(k) {
		case 0: case 1: case 2: b[i]=vh_rnd()>>11; break;
		case 3: b[i]="ab\0\n"[vh_below(4)]; break;
		case 4: b[i]=vh_chance(1,4)?0:vh_rnd()>>9; break;
		case 5: b[i]=0x80|(vh_rnd()>>9); break;
		default: b[i]=32+vh_below(95); break;
	}
	if(n && vh_chance(1,16)) memset(b, vh_chance(1,2)?0:0xff, n);
}
void vh_text(char *p, size_t n, const char *al, size_t l) { size_t i; for(i=0;i<n;i++) p[i]=al[vh_below(l)]; }

/* ---------- counters, signatures, samples ---------- */
u64 vh_cnt[256]; static const char *cntname[256]; static int ncnt;
int vh_counter(const char *name) {
	int i; for(i=0;i<ncnt;i++) if(!strcmp(cntname[i],name)) return i;
	if(ncnt==256) vh_internal("too many counters");
	cntname[ncnt]=name; return ncnt++;
}
#define SIGCAP (1u<<19)
static u64 *sigs; static size_t nsigs; static u64 nontrivial_total;
void vh_seen(u64 h) {
	nontrivial_total++;
	if(!sigs) sigs = mmap(0, SIGCAP*8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	if(nsigs > SIGCAP*3/4) return;
	if(!h) h=1;
	size_t i = (h*0x9E3779B97F4A7C15ull)>>45;
	while(sigs[i]) { if(sigs[i]==h) return; i=(i+1)%SIGCAP; }
	sigs[i]=h; nsigs++;
}
static char *samples[64]; static int nsamples; static int modesamples;
int vh_want_sample(void) { return nsamples<64 && modesamples<2; }
void vh_sample(const char *fmt, ...) {
	if(!vh_want_sample()) return;
	char buf[700]; int k; va_list ap; va_start(ap,fmt);
	k = snprintf(buf,sizeof buf,"[%s:%llu] ",curmode?curmode->name:"?",(unsigned long long)curcase);
	vsnprintf(buf+k,sizeof buf-k,fmt,ap); va_end(ap);
	samples[nsamples]=xmalloc(strlen(buf)+1); strcpy(samples[nsamples++],buf); modesamples++;
}
const char *vh_esc(const void *p, size_t n) {
	static char bufs[8][1200]; static int w; char *o=bufs[w++&7], *r=o; const u8*s=p; size_t i;
	if(!p) return "(null)";
	for(i=0;i<n && o<r+1100;i++) {
		if(s[i]=='\n') {*o++='\\';*o++='n';} else if(s[i]=='\\') {*o++='\\';*o++='\\';}
		else if(s[i]>=32&&s[i]<127) *o++=s[i]; else o+=sprintf(o,"\\x%02x",s[i]);
	}
	if(i<n) o+=sprintf(o,"...(%zu bytes)",n);
	*o=0; return r;
}
void vh_trace_(const char *fmt, ...) { va_list ap; va_start(ap,fmt); vfprintf(stderr,fmt,ap); fputc('\n',stderr); va_end(ap); fflush(stderr); }

/* ---------- verdicts ---------- */
void vh_fail(const char *key, const char *fmt, ...) {
	char buf[6000]; int i; va_list ap;
	va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
	for(i=0;i<nknown;i++) if(injmp && !strcmp(known[i],key)) { knownhits[i]++; siglongjmp(casejmp,1); }
	fprintf(stderr,"\nVH-FAIL key=%s mode=%s case=%llu: %s\n",key,curmode?curmode->name:"-",(unsigned long long)curcase,buf);
	fflush(stderr); _exit(77);
}
void vh_internal(const char *fmt, ...) { va_list ap; va_start(ap,fmt); fprintf(stderr,"VH-INTERNAL mode=%s case=%llu: ",curmode?curmode->name:"-",(unsigned long long)curcase); vfprintf(stderr,fmt,ap); va_end(ap); fputc('\n',stderr); fflush(stderr); _exit(66); }
void vh_tick(void) { sh->beat++; }
void vh_log(const void *p, size_t n) { const char*s=p; if(logfd<0) return; while(n) { ssize_t k=write(logfd,s,n); if(k<=0) vh_internal("log write"); s+=k; n-=k; } }
int vh_logging(void) { return logfd>=0; }
const char *vh_scratch(void) { return scratch; }

/* ---------- memory ---------- */
static __thread int inharness;
#define IH(e) do { int o_=inharness; inharness=1; e; inharness=o_; } while(0)
#ifdef VH_WRAP_MALLOC
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*); 
char *__real_strdup(const char*); char *__real_strndup(const char*,size_t); void *__real_reallocarray(void*,size_t,size_t);
#else
#define __real_malloc malloc
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_free free
#endif
void *xmalloc(size_t n) { void*p; IH(p=__real_malloc(n?n:1)); if(!p) vh_internal("xmalloc %zu",n); return p; }
void *xcalloc(size_t a,size_t b) { void*p; IH(p=__real_calloc(a?a:1,b?b:1)); if(!p) vh_internal("xcalloc"); return p; }
void *xrealloc(void*q,size_t n) { void*p; IH(p=__real_realloc(q,n?n:1)); if(!p) vh_internal("xrealloc"); return p; }
void xfree(void*p) { IH(__real_free(p)); }

/* ledger: open addressing set of live blocks */
#define LCAP (1u<<20)
static uintptr_t *ltab; static size_t llive; static u64 lallocs; static int ltrack; static size_t lbad;
static pthread_mutex_t lmx = PTHREAD_MUTEX_INITIALIZER;
static size_t lslot(uintptr_t p) { return (p*0x9E3779B97F4A7C15ull)>>44; }
static void ladd(const volatile void *p) {
	if(!ltrack || inharness || !p) return;
	pthread_mutex_lock(&lmx);
	size_t i=lslot((uintptr_t)p);
	while(ltab[i] && ltab[i]!=1) i=(i+1)%LCAP;
	ltab[i]=(uintptr_t)p; llive++; lallocs++;
	if(llive>LCAP/2) { fprintf(stderr,"VH-FAIL key=runaway-allocation mode=%s case=%llu: more than %u live blocks\n",curmode?curmode->name:"-",(unsigned long long)curcase,LCAP/2); _exit(77); }
	pthread_mutex_unlock(&lmx);
}
static void ldel(const volatile void *p) {
	if(!ltrack || inharness || !p) return;
	pthread_mutex_lock(&lmx);
	size_t i=lslot((uintptr_t)p), probes=0; int found=0;
	while(ltab[i] && probes++<LCAP) { if(ltab[i]==(uintptr_t)p) { ltab[i]=1; llive--; found=1; break; } i=(i+1)%LCAP; }
	if(!found) lbad++;
	pthread_mutex_unlock(&lmx);
}
void vh_ledger_begin(void) {
	static u64 dirty;
	if(!ltab) ltab=mmap(0,LCAP*sizeof*ltab,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	dirty += lallocs;
	if(dirty > LCAP/4) { madvise(ltab,LCAP*sizeof*ltab,MADV_DONTNEED); dirty=0; }
	else if(llive) { madvise(ltab,LCAP*sizeof*ltab,MADV_DONTNEED); dirty=0; }
	llive=0; lallocs=0; lbad=0; ltrack=1;
}
size_t vh_ledger_live(void) { return llive; }
u64 vh_ledger_allocs(void) { return lallocs; }
size_t vh_ledger_badfree(void) { return lbad; }
void vh_ledger_end(void) { ltrack=0; }

/* faults */
static u64 fnth, fseen; static int ffired; int vh_fault_repeat; static int farmed;
void vh_fault_arm(u64 n) { fnth=n; fseen=0; ffired=0; farmed=1; }
u64 vh_fault_seen(void) { return fseen; }
int vh_fault_fired(void) { return ffired; }
void vh_fault_disarm(void) { farmed=0; fnth=0; }
#ifdef VH_WRAP_MALLOC
static int fault(void) {
	if(!farmed || inharness) return 0;
	fseen++;
	if(fnth && (fseen==fnth || (vh_fault_repeat && fseen>fnth))) { ffired=1; errno=ENOMEM; return 1; }
	return 0;
}
int vh_fault_point(void) { return fault(); }
#ifdef VH_ASAN
#define LA(p) 
#define LD(p)
#else
#define LA(p) ladd(p)
#define LD(p) ldel(p)
#endif
void *__wrap_malloc(size_t n) { void*p; if(fault()) return 0; p=__real_malloc(n); LA(p); return p; }
void *__wrap_calloc(size_t a,size_t b) { void*p; if(fault()) return 0; p=__real_calloc(a,b); LA(p); return p; }
void *__wrap_realloc(void*q,size_t n) { void*p; if(fault()) return 0; p=__real_realloc(q,n); if(p) { LD(q); LA(p); } return p; }
void *__wrap_reallocarray(void*q,size_t a,size_t n) { void*p; if(fault()) return 0; p=__real_reallocarray(q,a,n); if(p) { LD(q); LA(p); } return p; }
void __wrap_free(void*p) { LD(p); __real_free(p); }
char *__wrap_strdup(const char*s) { char*p; if(fault()) return 0; p=__real_strdup(s); LA(p); return p; }
char *__wrap_strndup(const char*s,size_t n) { char*p; if(fault()) return 0; p=__real_strndup(s,n); LA(p); return p; }
#endif

/* read-only copies, as a literal or a mapped file would be: end-flush before a PROT_NONE page */
struct ro { char *map; size_t len; char *p; };
static struct ro ros[512], ropool[32]; static int nros, nropool;
#define ROPG 4096ul
#define ROSMALL (4*ROPG)
static void *ro_new(const void *p, size_t n) {
	struct ro r; size_t body=(n+ROPG-1)/ROPG*ROPG;
	if(nros==512) return 0;
	if(body<=ROSMALL && nropool) { r=ropool[--nropool]; mprotect(r.map,r.len-ROPG,PROT_READ|PROT_WRITE); }
	else {
		if(body<ROSMALL) body=ROSMALL;
		r.len=body+ROPG; r.map=mmap(0,r.len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
		if(r.map==MAP_FAILED) vh_internal("ro mmap");
		mprotect(r.map+r.len-ROPG,ROPG,PROT_NONE);
	}
	r.p=r.map+r.len-ROPG-n; if(n) memcpy(r.p,p,n);
	mprotect(r.map,r.len-ROPG,PROT_READ);
	ros[nros++]=r; VH_COUNT("read-only arguments",1); return r.p;
}
static int ro_free(void *p) {
	int i; for(i=nros-1;i>=0;i--) if(ros[i].p==p) {
		struct ro r=ros[i]; ros[i]=ros[--nros];
		if(r.len==ROSMALL+ROPG && nropool<32) ropool[nropool++]=r; else munmap(r.map,r.len);
		return 1;
	}
	return 0;
}
void *vh_rdup(const void *p, size_t n) { void *q=0; if(n<(1<<20) && vh_chance(1,12)) q=ro_new(p,n); return q?q:vh_gdup(p,n); }
char *vh_rstr(const char *s) { return vh_rdup(s,strlen(s)+1); }

/* exact buffers */
#ifdef VH_ASAN
void *vh_gbuf(size_t n) { char *p; IH(p=__real_malloc(n?n:16)); if(!p) vh_internal("gbuf"); if(!n) __asan_poison_memory_region(p,16); return p; }
void vh_gfree(void *p) { if(!p) return; if(nros&&ro_free(p)) return; __asan_unpoison_memory_region(p,1); IH(__real_free(p)); }
#else
/* end-flush against a PROT_NONE page; 32 canary bytes in front are verified on release */
#define CAN 32
struct gb { char *map; size_t len; char *p; int front; size_t n; };
static struct gb gbs[4096]; static int ngb;
static struct gb pool[64]; static int npool; /* recycled 64K mappings */
#define PSZ 4096ul
#define BIG (16*PSZ)
void *vh_gbuf(size_t n) {
	struct gb g; size_t body=(n+CAN+PSZ-1)/PSZ*PSZ;
	if(ngb==4096) vh_internal("too many guarded buffers");
	if(body<=BIG && npool) g=pool[--npool];
	else {
		if(body<BIG) body=BIG;
		g.len=body+2*PSZ; g.map=mmap(0,g.len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
		if(g.map==MAP_FAILED) vh_internal("gbuf mmap");
		mprotect(g.map,PSZ,PROT_NONE); mprotect(g.map+g.len-PSZ,PSZ,PROT_NONE);
	}
	g.n=n; g.front=(casehash>>ngb%7)%4==0;
	if(g.front) { g.p=g.map+PSZ; memset(g.p+n,0xC5,CAN); }
	else { g.p=g.map+g.len-PSZ-n; memset(g.p-CAN,0xC5,CAN); }
	memset(g.p,0xAA,n);
	gbs[ngb++]=g; return g.p;
}
void vh_gfree(void *p) {
	int i,k; if(!p) return; if(nros&&ro_free(p)) return;
	for(i=ngb-1;i>=0;i--) if(gbs[i].p==p) {
		struct gb g=gbs[i]; u8*c=(u8*)(g.front?p+g.n:p-CAN);
		for(k=0;k<CAN;k++) if(c[k]!=0xC5) vh_fail("out-of-bounds-write","byte %s a %zu-byte buffer was overwritten",g.front?"behind":"in front of",g.n);
		gbs[i]=gbs[--ngb];
		if(g.len==BIG+2*PSZ && npool<64) pool[npool++]=g; else munmap(g.map,g.len);
		return;
	}
	vh_internal("gfree of unknown buffer");
}
#endif
void *vh_gdup(const void *p, size_t n) { void*q=vh_gbuf(n); if(n) memcpy(q,p,n); return q; }
char *vh_gstr(const char *s) { return vh_gdup(s,strlen(s)+1); }

/* fds */
void vh_fdset(unsigned char set[128]) { int i; memset(set,0,128); for(i=0;i<1024;i++) if(fcntl(i,F_GETFD)!=-1) set[i/8]|=1<<i%8; }
int vh_fdcount(void) { int i,n=0; for(i=0;i<256;i++) if(fcntl(i,F_GETFD)!=-1) n++; return n; }

void bs_put(bs*b,const void*p,size_t n) { if(b->n+n+1>b->cap) { b->cap=(b->n+n+1)*2; b->d=xrealloc(b->d,b->cap); } if(n) memcpy(b->d+b->n,p,n); b->n+=n; b->d[b->n]=0; }
void bs_putc(bs*b,int c) { char x=c; bs_put(b,&x,1); }
void bs_puts(bs*b,const char*s) { bs_put(b,s,strlen(s)); }
void bs_free(bs*b) { xfree(b->d); memset(b,0,sizeof*b); }

/* ---------- main ---------- */
void vh_setup(void) __attribute__((weak));
static void jstr(FILE*f,const char*s) { fputc('"',f); for(;*s;s++) { if(*s=='"'||*s=='\\') fprintf(f,"\\%c",*s); else if((u8)*s<32||(u8)*s>126) fprintf(f,"\\u%04x",(u8)*s); else fputc(*s,f);} fputc('"',f); }
int main(int argc,char**argv) {
	int i,shard=0,nsh=1; const char *out=0,*state=0,*sigf=0,*onlymode=0,*logn=0; u64 onlycase=0; double scale=1; const char *modesel=0;
	for(i=1;i<argc;i++) {
		char*a=argv[i]; char*v=i+1<argc?argv[i+1]:"";
		if(!strcmp(a,"--trace")) { vh_tracing=1; continue; }
		i++;
		if(!strcmp(a,"--seed")) vh_seed=strtoull(v,0,0);
		else if(!strcmp(a,"--shard")) shard=atoi(v);
		else if(!strcmp(a,"--nshards")) nsh=atoi(v);
		else if(!strcmp(a,"--tier")) vh_thorough=!strcmp(v,"thorough");
		else if(!strcmp(a,"--out")) out=v;
		else if(!strcmp(a,"--sigs")) sigf=v;
		else if(!strcmp(a,"--state")) state=v;
		else if(!strcmp(a,"--log")) logn=v;
		else if(!strcmp(a,"--scale")) scale=atof(v);
		else if(!strcmp(a,"--modes")) modesel=v;
		else if(!strcmp(a,"--scratch")) scratch=v;
		else if(!strcmp(a,"--known")) { if(nknown<256) known[nknown++]=v; }
		else if(!strcmp(a,"--lits")) { FILE*f=fopen(v,"r"); unsigned long long x; if(f) { while(nlits<512&&fscanf(f,"%llu",&x)==1) lits[nlits++]=x; fclose(f);} }
		else if(!strcmp(a,"--only")) { char*c=strchr(v,':'); if(!c) return 66; *c=0; onlymode=v; onlycase=strtoull(c+1,0,10); }
		else { fprintf(stderr,"bad arg %s\n",a); return 66; }
	}
	if(onlymode && !strcmp(onlymode,"none")) { for(i=0;vh_modes[i].name;i++) puts(vh_modes[i].name); return 0; }
	prctl(PR_SET_PDEATHSIG, SIGKILL);
#if !defined(VH_ASAN) && !defined(__SANITIZE_THREAD__) && !defined(VH_VARIANT_MSAN) && !defined(VH_VARIANT_MSUB)
#ifdef HUGE
	{ struct rlimit rl={24ul<<30,24ul<<30}; setrlimit(RLIMIT_AS,&rl); } /* address space; hardly any of it is touched */
#else
	{ struct rlimit rl={6ul<<30,6ul<<30}; setrlimit(RLIMIT_AS,&rl); }
#endif
#endif
	if(state) { int fd=open(state,O_RDWR|O_CREAT|O_CLOEXEC,0600); if(fd<0||ftruncate(fd,4096)) return 66; sh=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(sh==MAP_FAILED) return 66; close(fd); }
	if(logn) logfd=fcntl(open(logn,O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0600),F_DUPFD_CLOEXEC,900);
#ifdef VH_ASAN
	__sanitizer_install_malloc_and_free_hooks((void(*)(const volatile void*,size_t))(void*)ladd,ldel);
#endif
	seedcase("setup",0);
	if(vh_setup) vh_setup();
	u64 evals=0; int m;
	u64 permode[64]={0};
	for(m=0;vh_modes[m].name;m++) {
		const vh_mode*md=vh_modes+m; volatile u64 c; 
		u64 n=vh_thorough?md->thorough:md->quick;
		if(scale!=1) { n=n*scale; if(!n) n=1; }
		if(onlymode && strcmp(onlymode,md->name)) continue;
		if(modesel && !strstr(modesel,md->name)) continue;
		curmode=md; modesamples=0; sh->modeidx=m;
		for(c=onlymode?onlycase:(u64)shard;onlymode?c==onlycase:c<n;c+=onlymode?1:nsh) {
			curcase=c; sh->cas=c; sh->beat++;
			seedcase(md->name,c);
			if(vh_tracing) fprintf(stderr,"--- case %s:%llu\n",md->name,(unsigned long long)c);
			injmp=1;
			if(!sigsetjmp(casejmp,0)) md->fn(c);
			injmp=0;
			vh_ledger_end(); vh_fault_disarm();
			evals++; permode[m]++;
		}
	}
	curmode=0; sh->done=1;
	if(out) {
		FILE*f=fopen(out,"w"); if(!f) return 66;
		fprintf(f,"{\"evaluations\":%llu,\"nontrivial\":%llu,\"modes\":{",(unsigned long long)evals,(unsigned long long)nontrivial_total);
		for(m=0;vh_modes[m].name;m++) { if(m) fputc(',',f); jstr(f,vh_modes[m].name); fprintf(f,":%llu",(unsigned long long)permode[m]); }
		fprintf(f,"},\"counters\":{");
		for(i=0;i<ncnt;i++) { if(i) fputc(',',f); jstr(f,cntname[i]); fprintf(f,":%llu",(unsigned long long)vh_cnt[i]); }
		fprintf(f,"},\"required\":["); for(i=0;vh_required[i];i++) { if(i) fputc(',',f); jstr(f,vh_required[i]); }
		fprintf(f,"],\"rule\":"); jstr(f,vh_rule);
		fprintf(f,",\"samples\":["); for(i=0;i<nsamples;i++) { if(i) fputc(',',f); jstr(f,samples[i]); }
		fprintf(f,"],\"known\":{"); for(i=0;i<nknown;i++) { if(i) fputc(',',f); jstr(f,known[i]); fprintf(f,":%llu",(unsigned long long)knownhits[i]); }
		fprintf(f,"}}\n"); if(fclose(f)) return 66;
	}
	if(sigf && nsigs) { FILE*f=fopen(sigf,"w"); size_t k; for(k=0;k<SIGCAP;k++) if(sigs[k]) fwrite(sigs+k,8,1,f); fclose(f); }
	_exit(0);
}
