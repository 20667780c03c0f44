/* C28: guard_alloc/guard_free: accesses probed with a fault handler, ledger of mapped pages, mapping failures */
#define _GNU_SOURCE
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#include "vh.h"
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include "guard_alloc.c"
const char *const vh_rule="histories of guarded allocations (0 bytes, page multiples and neighbours, 1..40 pages, some of many MiB, near SIZE_MAX) with up to 12 live at once; every byte of the block (or samples of large ones) and offsets over the guard page probed by real accesses under a fault handler; every mapping call recorded in a page ledger; distinct = hash of the size history";
#ifdef HUGE
const char *const vh_required[]={"huge allocations",0};
#else
const char *const vh_required[]={"allocations","releases","accesses inside","faulting reads behind the end","faulting writes behind the end","size 0","page multiples","one below or above a page multiple","large sizes","impossible sizes","several live","pages checked as unmapped",0};
#endif
void*__real_mmap(void*,size_t,int,int,int,off_t); int __real_munmap(void*,size_t); int __real_mprotect(void*,size_t,int); void*__real_mmap64(void*,size_t,int,int,int,off_t);
/* ledger: every page mapped by the code under test, tagged with the allocation it was mapped for */
static struct { int on; u32 tag; u64 nmap,nprot,fail_map,fail_prot; int fired; } I;
typedef struct { uintptr_t a; size_t n; u32 tag; } reg; static reg L[4096]; static int nl;
static void add(uintptr_t a,size_t n) { if(nl==4096) vh_internal("ledger"); L[nl++]=(reg){a,(n+4095)&~(size_t)4095,I.tag}; }
static void cut(uintptr_t a,size_t n) { uintptr_t e=a+((n+4095)&~(size_t)4095); uintptr_t left=e-a; for(int i=0;i<nl;i++) { uintptr_t s=L[i].a,t=s+L[i].n; uintptr_t x=a>s?a:s,y=e<t?e:t; if(x>=y) continue; if(L[i].tag!=I.tag) vh_fail("unmaps-other","releasing one block unmaps pages of another"); left-=y-x; if(x==s&&y==t) { L[i--]=L[--nl]; } else if(x==s) { L[i].a=y; L[i].n=t-y; } else if(y==t) L[i].n=x-s; else { L[i].n=x-s; if(nl==4096) vh_internal("ledger"); L[nl++]=(reg){y,t-y,L[i].tag}; } } if(left) vh_fail("unmaps-foreign","unmaps %zu bytes that were not mapped for the block",(size_t)left); }
static size_t owned(u32 tag) { size_t n=0; for(int i=0;i<nl;i++) if(L[i].tag==tag) n+=L[i].n; return n; }
void*__wrap_mmap(void*a,size_t n,int p,int f,int d,off_t o) { if(!I.on) return __real_mmap(a,n,p,f,d,o); if(++I.nmap==I.fail_map) { I.fired=1; VH_COUNT("mmap failures injected",1); errno=ENOMEM; return MAP_FAILED; } void*r=__real_mmap(a,n,p,f,d,o); if(r!=MAP_FAILED) { if(f&MAP_FIXED) cut((uintptr_t)r,n); add((uintptr_t)r,n); } return r; }
void*__wrap_mmap64(void*a,size_t n,int p,int f,int d,off_t o) { return __wrap_mmap(a,n,p,f,d,o); }
int __wrap_munmap(void*a,size_t n) { if(!I.on) return __real_munmap(a,n); int r=__real_munmap(a,n); if(!r) cut((uintptr_t)a,n); return r; }
int __wrap_mprotect(void*a,size_t n,int p) { if(!I.on) return __real_mprotect(a,n,p); if(++I.nprot==I.fail_prot) { I.fired=1; VH_COUNT("mprotect failures injected",1); errno=ENOMEM; return -1; } return __real_mprotect(a,n,p); }
static sigjmp_buf jb; static volatile sig_atomic_t armed; static void seg(int s) { if(armed) siglongjmp(jb,1); signal(s,SIG_DFL); raise(s); }
void vh_setup(void) { struct sigaction sa={.sa_handler=seg,.sa_flags=SA_NODEFER}; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); }
static int faults(volatile u8*p,int wr) { int f; armed=1; if(sigsetjmp(jb,0)) f=1; else { if(wr) *p=0x77; else (void)*p; f=0; } armed=0; return f; }
typedef struct { u8*p; size_t n; u32 tag; u8 pat; } blk;
static void probe(blk*b,int init) { size_t n=b->n,i,stp=n>70000?n/4096+1:1; for(i=0;i<n;i+=stp) { if(init) { if(faults(b->p+i,1)) vh_fail("write-faults","writing byte %zu of a block of %zu faults",i,n); b->p[i]=(u8)(b->pat+i); } else if(faults(b->p+i,0)) vh_fail("read-faults","reading byte %zu of a block of %zu faults",i,n); } if(n) { i=n-1; if(faults(b->p+i,0)||faults(b->p+i,1)) vh_fail("last-byte","the last byte of %zu is not accessible",n); b->p[i]=(u8)(b->pat+i); } VH_COUNT("accesses inside",n/stp);
	if(!init) for(i=0;i<n;i+=stp) if(b->p[i]!=(u8)(b->pat+i)) vh_fail("contents","byte %zu of %zu changed",i,n);
	static const size_t O[]={0,1,2,3,7,8,63,64,255,1000,2047,2048,4000,4094,4095}; for(i=0;i<sizeof O/sizeof*O+3;i++) { size_t o=i<sizeof O/sizeof*O?O[i]:vh_below(4096); int w; for(w=0;w<2;w++) { if(!faults(b->p+n+o,w)) vh_fail(w?"write-behind":"read-behind","%s at offset %zu behind a block of %zu bytes does not fault",w?"writing":"reading",o,n); if(w) VH_COUNT("faulting writes behind the end",1); else VH_COUNT("faulting reads behind the end",1); } } }
static u32 tags; static size_t psize(void) { switch(vh_below(8)) { case 0: return 0; case 1: return 4096*vh_below(8); case 2: return 4096*(1+vh_below(8))+vh_below(3)-1; case 3: return 1+vh_below(64); case 4: return vh_size(40*4096); case 5: return vh_chance(1,8)?(1u<<20)*(1+vh_below(60))+vh_below(3)*2047:vh_below(5000); default: return vh_size(9000); } }
static void *galloc(size_t n,u32 tag) { I.tag=tag; I.on=1; void*p=guard_alloc(n); I.on=0; return p; }
static void history(u64 idx) {
	blk B[12]; int nb=0,k,ops=4+vh_below(20); u64 sig=1; memset(&I,0,sizeof I); nl=0;
	for(k=0;k<ops||nb;k++) { int a=vh_below(3); if(k>=ops) a=2; if(a<2&&nb<12) { size_t n=psize(); blk*b=&B[nb]; b->n=n; b->tag=++tags; b->pat=vh_rnd(); b->p=galloc(n,b->tag); VH_TRACE("alloc %zu: %p",n,b->p); VH_CHECK(b->p,"fails","allocation of %zu bytes fails",n); for(int i=0;i<nb;i++) VH_CHECK(b->p+n<=B[i].p||B[i].p+B[i].n<=b->p,"overlap","blocks overlap"); nb++; probe(b,1); VH_COUNT("allocations",1); if(!n) VH_COUNT("size 0",1); else if(n%4096==0) VH_COUNT("page multiples",1); else if(n%4096==1||n%4096==4095) VH_COUNT("one below or above a page multiple",1); if(n>=1u<<20) VH_COUNT("large sizes",1); if(nb>1) VH_COUNT("several live",1); sig=vh_hashu(n,sig); }
		else if(nb) { int i=vh_below(nb); blk b=B[i]; probe(&b,0); B[i]=B[--nb]; VH_TRACE("free %zu",b.n); size_t had=owned(b.tag); uintptr_t lo=((uintptr_t)b.p)&~(uintptr_t)4095,hi=((uintptr_t)b.p+b.n+4096+4095)&~(uintptr_t)4095; I.tag=b.tag; I.on=1; guard_free(b.p,b.n); I.on=0; VH_COUNT("releases",1); size_t left=owned(b.tag); VH_CHECK(!left,"left-mapped","%zu of %zu bytes stay mapped after releasing a block of %zu bytes",left,had,b.n);
			if(b.n<300000) for(uintptr_t q=lo;q<hi;q+=4096) { int own=0; for(int j=0;j<nl;j++) if(q>=L[j].a&&q<L[j].a+L[j].n) own=1; unsigned char v; if(!own&&q+4096<=(((uintptr_t)b.p+b.n+4095)&~(uintptr_t)4095)) { VH_CHECK(mincore((void*)q,4096,&v)==-1&&errno==ENOMEM,"left-mapped","page %ld of a released block is still mapped",(long)((q-lo)/4096)); VH_COUNT("pages checked as unmapped",1); } }
			for(i=0;i<nb;i++) if(B[i].n) VH_CHECK(!faults(B[i].p,0),"unmaps-other","a live block is no longer accessible"); sig=vh_hashu(b.n*3+1,sig); } }
	VH_CHECK(nl==0,"left-mapped","%d mappings left after all releases",nl); vh_seen(sig); vh_sample("%d operations, history hash %llx",ops,(unsigned long long)sig);
}
static void failing(u64 idx) {
	memset(&I,0,sizeof I); nl=0; size_t n=vh_chance(1,3)?(vh_chance(1,2)?(size_t)-1-vh_below(3*4096):((size_t)1<<(47+vh_below(17)))-vh_below(2)*vh_below(9000)):psize(); int big=n>>46; if(!big) { if(vh_chance(1,2)) I.fail_map=1; else I.fail_prot=1; } void*p=galloc(n,++tags); VH_TRACE("alloc %zx failing map %llu prot %llu: %p",n,(unsigned long long)I.fail_map,(unsigned long long)I.fail_prot,p);
	if(big) { VH_CHECK(!p,"impossible","allocating %zx bytes gives %p",n,p); VH_COUNT("impossible sizes",1); } if(I.fired) VH_CHECK(!p,"failure-missed","a failing mapping call is not reported"); if(!p) { VH_CHECK(nl==0,"failure-leaks","%d mappings left by a failed allocation",nl); VH_CHECK(big||I.fired,"fails","allocation of %zu bytes fails",n); } else { I.on=1; I.fail_map=I.fail_prot=0; guard_free(p,n); I.on=0; VH_CHECK(nl==0,"left-mapped","mappings left"); } vh_seen(vh_hashu(n,I.fail_map));
}
/* every size of the first pages */
static void sizes(u64 idx) { memset(&I,0,sizeof I); nl=0; size_t n=idx%(3*4096+2); blk b={galloc(n,++tags),n,tags,3}; VH_CHECK(b.p,"fails","allocation of %zu bytes fails",n); probe(&b,1); I.on=1; guard_free(b.p,n); I.on=0; VH_CHECK(!nl,"left-mapped","%zu bytes stay mapped after releasing a block of %zu bytes",owned(tags),n); vh_seen(vh_hashu(n,77)); VH_COUNT("allocations",1); VH_COUNT("releases",1); }
#ifdef HUGE
static void huge(u64 idx) {
	static const size_t Z[]={(1ull<<31)-1,(1ull<<31)+4096,(1ull<<32)-4096,(1ull<<32)-1,1ull<<32,(1ull<<32)+1,(1ull<<32)+4097,5ull<<30}; memset(&I,0,sizeof I); nl=0; size_t n=Z[idx%8]; blk b={galloc(n,++tags),n,tags,5},c={galloc(100,++tags),100,tags,9}; VH_CHECK(b.p&&c.p,"fails","allocation of %zu bytes fails",n); probe(&b,1); probe(&c,1); probe(&b,0); I.tag=b.tag; I.on=1; guard_free(b.p,n); I.on=0; VH_CHECK(!owned(b.tag),"left-mapped","%zu bytes left mapped after releasing %zu",owned(b.tag),n); probe(&c,0); I.tag=c.tag; I.on=1; guard_free(c.p,100); I.on=0; VH_CHECK(!nl,"left-mapped","%d mappings left",nl); VH_COUNT("huge allocations",1); vh_seen(n);
}
const vh_mode vh_modes[]={{"huge",huge,8,8},{0}};
#else
const vh_mode vh_modes[]={{"history",history,2500,80000},{"failing",failing,4000,50000},{"sizes",sizes,3*4096+2,3*4096+2},{0}};
#endif
