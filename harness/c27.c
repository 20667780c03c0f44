/* C27: pool allocator vs. a slot model, 20 configurations, each in its own translation unit */
#include "vh.h"
#include "c27.h"
#include <stdio.h>
 extern const struct pooldef pool_0; extern const struct pooldef pool_1; extern const struct pooldef pool_2; extern const struct pooldef pool_3; extern const struct pooldef pool_4; extern const struct pooldef pool_5; extern const struct pooldef pool_6; extern const struct pooldef pool_7; extern const struct pooldef pool_8; extern const struct pooldef pool_9; extern const struct pooldef pool_10; extern const struct pooldef pool_11; extern const struct pooldef pool_12; extern const struct pooldef pool_13; extern const struct pooldef pool_14; extern const struct pooldef pool_15; extern const struct pooldef pool_16; extern const struct pooldef pool_17; extern const struct pooldef pool_18; extern const struct pooldef pool_19;
static const struct pooldef*const T[]={ &pool_0, &pool_1, &pool_2, &pool_3, &pool_4, &pool_5, &pool_6, &pool_7, &pool_8, &pool_9, &pool_10, &pool_11, &pool_12, &pool_13, &pool_14, &pool_15, &pool_16, &pool_17, &pool_18, &pool_19, 0};
#define NT 20
const char *const vh_rule="random and exhaustive (4 slots, 7 operations) histories of allocations of all sizes, releases of live blocks in several orders and releases of invalid pointers (NULL, interior, freed, foreign, in front of and behind the pool) on pools of 2..4096 elements of 1..100 bytes, in exact-size heap memory and in the static pool; addresses, contents and capacity vs. a model after every step; distinct = hash of the history";
const char *const vh_required[]={"allocations","releases","pool full","reuse after full","invalid releases","double releases","interior pointers","foreign pointers","oversized requests","zero-size requests","pool drained","exhaustive histories","static pool used","small pools","pools beyond 16 bits",0};
typedef struct { u8*p; u32 pat; int live; } blk;
static const struct pooldef*D; static void*pool; static int st; static blk*B; static size_t nlive,maxb; static u8*lastfreed;
static void*al(size_t n) { return st?D->salloc(pool,n):D->alloc(pool,n); } static void fr(void*p) { if(st) D->sfree(pool,p); else D->free(pool,p); }
static void fillb(blk*b) { for(size_t i=0;i<D->elem;i++) b->p[i]=(u8)(b->pat+i*7); }
static void okb(blk*b,const char*when) { for(size_t i=0;i<D->elem;i++) if(b->p[i]!=(u8)(b->pat+i*7)) vh_fail("contents","contents of a live block changed %s (byte %zu of %zu, pool of %zu)",when,i,D->elem,D->max); }
static void okall(const char*when) { for(size_t i=0;i<maxb;i++) if(B[i].live) okb(&B[i],when); }
static void doalloc(size_t n) {
	u8*p=al(n); VH_TRACE("alloc %zu: %ld (live %zu of %zu)",n,p?(long)(p-(u8*)pool):-1L,nlive,D->max); VH_COUNT("allocations",1); if(!n) VH_COUNT("zero-size requests",1);
	if(n>D->elem) { VH_CHECK(!p,"oversized","a block of %zu bytes from a pool of %zu-byte elements",n,D->elem); VH_COUNT("oversized requests",1); return; }
	if(nlive==D->max) { VH_CHECK(!p,"over-capacity","allocation from a full pool succeeds"); VH_COUNT("pool full",1); return; }
	VH_CHECK(p,"lost","allocation fails with %zu of %zu elements live",nlive,D->max); VH_CHECK(p>=(u8*)pool&&p+D->elem<=(u8*)pool+D->size,"outside","block outside the pool"); size_t i,s=maxb; for(i=0;i<maxb;i++) { if(B[i].live) VH_CHECK(p+D->elem<=B[i].p||B[i].p+D->elem<=p,"overlap","new block overlaps a live one"); else s=i; } if(s==maxb) vh_internal("slots"); B[s].p=p; B[s].pat=(u32)vh_rnd(); B[s].live=1; nlive++; fillb(&B[s]);
}
static void dofree(size_t k) { blk*b=&B[k]; okb(b,"before its release"); VH_TRACE("free %ld",(long)(b->p-(u8*)pool)); int full=nlive==D->max; fr(b->p); b->live=0; nlive--; lastfreed=b->p; VH_COUNT("releases",1); if(full) VH_COUNT("reuse after full",1); if(!nlive) VH_COUNT("pool drained",1); }
static int islive(void*p) { for(size_t i=0;i<maxb;i++) if(B[i].live&&B[i].p==p) return 1; return 0; }
static void badfree(void) { u8*p=0; static u8 foreign[64]; void*h=0; int k=vh_below(8); switch(k) { case 0: p=0; break; case 1: { size_t i=vh_below(maxb); if(!B[i].live||D->elem<2) return; p=B[i].p+1+vh_below(D->elem-1); VH_COUNT("interior pointers",1); break; } case 2: p=lastfreed; if(!p||islive(p)) return; VH_COUNT("double releases",1); break; case 3: p=foreign+vh_below(64); VH_COUNT("foreign pointers",1); break; case 4: p=(u8*)((uintptr_t)pool-D->elem*(1+vh_below(100))); VH_COUNT("foreign pointers",1); break; case 5: p=(u8*)((uintptr_t)pool+D->elem*(D->max+vh_below(100))); VH_COUNT("foreign pointers",1); break; case 6: p=h=xmalloc(16); break; default: p=(u8*)((uintptr_t)pool+vh_below(D->max)*D->elem); if(islive(p)) return; } VH_TRACE("bad free %ld",(long)(p-(u8*)pool)); fr(p); VH_COUNT("invalid releases",1); okall("by an invalid release"); xfree(h); }
static void begin(const struct pooldef*d,int s) { D=d; st=s; maxb=D->max; B=xcalloc(maxb,sizeof*B); nlive=0; lastfreed=0; if(s) { pool=D->stat; D->sinit(pool); VH_COUNT("static pool used",1); } else { pool=vh_gbuf(D->size); memset(pool,0xcc,D->size); D->init(pool); } if(D->max<8) VH_COUNT("small pools",1); }
static void end(void) { if(!st) vh_gfree(pool); xfree(B); }
static size_t anylive(void) { size_t i,s=vh_below(maxb); for(i=0;i<maxb;i++) if(B[(s+i)%maxb].live) return (s+i)%maxb; vh_internal("live"); }
static void history(u64 idx) {
	begin(T[idx%NT],vh_chance(1,5)); u64 sig=idx%NT; size_t ops=vh_chance(1,6)?3*D->max+20:20+vh_below(120),k; if(D->max>=1024&&ops>2500) ops=2500; int phase=vh_below(3); if(D->max>=1024&&vh_chance(1,6)) { /* fill completely first */ while(nlive<D->max) { u8*p=al(D->elem); VH_CHECK(p,"lost","allocation fails with %zu of %zu elements live",nlive,D->max); B[nlive].p=p; B[nlive].pat=nlive*31; B[nlive].live=1; fillb(&B[nlive]); nlive++; } u8*seen=xcalloc(D->size,1); for(k=0;k<maxb;k++) { VH_CHECK(B[k].p>=(u8*)pool&&B[k].p+D->elem<=(u8*)pool+D->size,"outside","block outside the pool"); for(size_t q=0;q<D->elem;q++) { VH_CHECK(!seen[B[k].p-(u8*)pool+q],"overlap","blocks overlap"); seen[B[k].p-(u8*)pool+q]=1; } } xfree(seen); okall("during filling"); doalloc(1); if(D->max>1024) ops=60; }
	for(k=0;k<ops;k++) { if(vh_chance(1,20)) phase=vh_below(3); int a=vh_below(10); sig=vh_hashu(a,sig); if(a==9) badfree(); else if(a==8) doalloc(vh_chance(1,2)?D->elem+1+vh_below(5):vh_chance(1,2)?(size_t)-1:0); else if(a<(phase==0?6:phase==1?2:4)||!nlive) doalloc(vh_chance(1,3)?D->elem:vh_below(D->elem+1)); else dofree(vh_chance(1,3)?({ size_t i=maxb; while(i&&!B[i-1].live) i--; i-1; }):anylive()); if(D->max<=64||k%32==0) okall("by another operation"); }
	/* drain, then the whole capacity must be available again */
	okall("at the end"); while(nlive) dofree(anylive()); if(D->max<=256||vh_chance(1,10)) { if(D->max<=256) { while(nlive<D->max) doalloc(D->elem); doalloc(D->elem); okall("after refilling"); } } vh_seen(sig); vh_sample("%zu operations on %zu x %zu",ops,D->max,D->elem); end();
}
/* all histories of 7 operations on pools of 2 and 4 elements: alloc, or release of the k-th block ever returned */
static void exhaust(u64 idx) { const struct pooldef*d=T[(int[]){0,2,3,4,5}[idx%5]]; u64 c=idx/5; begin(d,0); u8*hist[8]; int nh=0; for(int k=0;k<7;k++) { int a=c%5; c/=5; if(a==4||nh==0) { size_t before=nlive; doalloc(d->elem); if(nlive>before) { for(size_t i=0;i<maxb;i++) if(B[i].live) { int known=0; for(int j=0;j<nh;j++) known|=hist[j]==B[i].p; if(!known&&nh<8) hist[nh++]=B[i].p; } } } else { u8*p=hist[a%nh]; size_t i; for(i=0;i<maxb;i++) if(B[i].live&&B[i].p==p) break; if(i<maxb) dofree(i); else { fr(p); VH_COUNT("double releases",1); } } okall("by another operation"); } while(nlive<d->max) doalloc(d->elem); doalloc(d->elem); VH_COUNT("exhaustive histories",1); vh_seen(vh_hashu(idx,99)); end(); }
/* more than 2^16 elements */
extern const struct pooldef pool_20;
static void wide(u64 idx) {
	const struct pooldef*d=&pool_20; size_t n=d->max,i,k,f; u8*m=vh_gbuf(d->size); memset(m,0xcc,d->size); d->init(m); u32**q=xcalloc(n,sizeof*q); u8*seen=xcalloc(d->size,1); size_t*fr_=xcalloc(n,sizeof*fr_);
	for(int round=0;round<2;round++) { memset(seen,0,d->size);
		for(i=0;i<n;i++) { q[i]=d->alloc(m,4); VH_CHECK(q[i],"lost","allocation fails with %zu of %zu elements live",i,n); VH_CHECK((u8*)q[i]>=m&&(u8*)(q[i]+1)<=m+d->size,"outside","block outside the pool"); size_t o=(u8*)q[i]-m; VH_CHECK(!seen[o]&&!seen[o+3],"overlap","blocks overlap"); memset(seen+o,1,4); *q[i]=i*7+round; }
		VH_CHECK(!d->alloc(m,4),"over-capacity","allocation from a full pool succeeds");
		/* release some, mostly from one end, and get exactly as many back */
		f=1+vh_below(1500); int where=vh_below(4); for(k=0;k<f;k++) { size_t j; do j=where==0?vh_below(n):where==1?n-1-vh_below(3000):where==2?vh_below(3000):65536-1500+vh_below(3000); while(!q[j]); VH_CHECK(*q[j]==j*7+round,"contents","block %zu changed",j); d->free(m,q[j]); memset(seen+((u8*)q[j]-m),0,4); q[j]=0; fr_[k]=j; }
		if(vh_chance(1,2)) d->free(m,m+d->size+4*vh_below(100)); 
		for(k=0;k<f;k++) { u32*p=d->alloc(m,1+vh_below(4)); VH_CHECK(p,"lost","allocation fails with %zu of %zu elements live",n-f+k,n); VH_CHECK((u8*)p>=m&&(u8*)(p+1)<=m+d->size,"outside","block outside the pool"); size_t o=(u8*)p-m; VH_CHECK(!seen[o]&&!seen[o+3],"overlap","a block overlaps a live one"); memset(seen+o,1,4); q[fr_[k]]=p; *p=fr_[k]*7+round; }
		VH_CHECK(!d->alloc(m,1),"over-capacity","allocation from a full pool succeeds"); for(i=0;i<n;i++) VH_CHECK(*q[i]==i*7+round,"contents","block %zu changed",i); for(i=0;i<n;i++) { size_t j=(i*40503+idx)&(n-1); d->free(m,q[j]); } }
	VH_COUNT("pools beyond 16 bits",1); vh_seen(vh_hashu(idx,77)); xfree(q); xfree(seen); xfree(fr_); vh_gfree(m);
}
const vh_mode vh_modes[]={{"history",history,24000,400000},{"exhaust",exhaust,390625,390625},{"wide",wide,16,400},{0}};
