/* C07: work per operation. tlist: control-flow edges executed in the library per call
 * (compiler trace-pc instrumentation); searches: calls of the comparison function. */
#include "vh.h"
#include "tlist.h"
#include "sblist.h"
#include "hbmap.h"
#include <math.h>
static u64 edges; static int counting;
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) { edges++; }
const char *const vh_rule="work of single operations measured as executed control-flow edges (tlist) or comparison calls (searches) at sizes up to 2^17 under 12 insertion/deletion orders; bounds proportional to log2(n), calibrated on lists of 64..256 items of the same build; distinct = (structure, order, size, position class) combinations";
const char *const vh_required[]={"tlist ops measured","edges observed","large items and millions of items","bsearch measured","sorted insert measured","bmap lookup measured","hbmap lookup measured",0};
/* per-level cost of this build, from small lists */
static double unit; 
static int lg(size_t n) { int r=0; while(n) { r++; n>>=1; } return r; }
static size_t order(int shape,size_t k,size_t n,u64*st) {
	switch(shape) { case 0: return n; case 1: return 0; case 2: return n/2; case 3: return k&1?n:0; case 4: return vh_below(n+1); case 5: return n?n-1:0; case 6: return k%7==0?0:n; case 7: return (k*2654435761u)%(n+1); case 8: return n-n/4; case 9: return *st=(*st*1103515245+12345)&0x7fffffff,*st%(n+1); case 10: return k%16<8?n/3:n*2/3; default: return n?(k%2?n/2:vh_below(2)):0; }
}
static void calibrate(void) {
	tlist*t=tlist_new(8); u64 v=0; size_t k,n=0; u64 c=0; double tot=0; S: for(k=0;k<256;k++) { tlist_insert(t,vh_below(n+1),&v); n++; }
	for(k=0;k<400;k++) { u64 e=edges; tlist_insert(t,vh_below(n+1),&v); tot+=edges-e; c++; e=edges; tlist_delete(t,vh_below(n)); tot+=edges-e; c++; }
	tlist_free(t); unit=tot/c/lg(256); if(unit<1) vh_internal("no edges observed in the library");
}
static void one(const char*what,int shape,size_t n,u64 cost,u64*sum,u64*cnt,u64*mx) {
	double bound=5*unit*lg(n)+30*unit; VH_COUNT("tlist ops measured",1); VH_COUNT("edges observed",cost);
	*sum+=cost; (*cnt)++; if(cost>*mx) *mx=cost;
	VH_CHECK((double)cost<=bound,"work","%s on a tlist of %zu items (order %d) executed %llu edges, bound %.0f (unit %.1f)",what,n,shape,(unsigned long long)cost,bound,unit);
}
static void tlx(u64 idx,int shape,int del,size_t N,size_t isz) {
	size_t k,n=0; tlist*t; u64 e,st=384; u8*item=xcalloc(isz,1); u64 s[3]={0},c[3]={0},m[3]={0}; if(!unit) calibrate(); t=tlist_new(isz); u64 s0=0,c0=0,slast=0,clast=0;
	for(k=0;k<N;k++) { size_t pos=order(shape,k,n,&st); e=edges; tlist_insert(t,pos,item); one("insert",shape,n+1,edges-e,&s[0],&c[0],&m[0]); if(k>=900&&k<1100) { s0+=edges-e; c0++; } if(k>=N-2000) { slast+=edges-e; clast++; } n++;
		if(del&&k%3==2) { pos=shape==0?0:shape==1?n-1:vh_below(n); e=edges; tlist_delete(t,pos); one("delete",shape,n,edges-e,&s[1],&c[1],&m[1]); n--; }
		if(k%4==0) { pos=k%8?vh_below(n):k%16?0:n-1; e=edges; (void)tlist_get(t,pos); one("get",shape,n,edges-e,&s[2],&c[2],&m[2]); }
		if(k%4096==0) vh_tick();
	}
	VH_CHECK((double)slast/clast<=2.5*s0/c0+6*unit,"growth","order %d: average insert work grew from %.0f at ~1000 items to %.0f at %zu",shape,(double)s0/c0,(double)slast/clast,n);
	/* tear down from a fixed end: work must stay logarithmic too */
	for(k=0;k<N/2&&n;k++) { size_t pos=shape%3==0?0:shape%3==1?n-1:n/2; e=edges; tlist_delete(t,pos); one("delete",shape,n,edges-e,&s[1],&c[1],&m[1]); n--; }
	for(k=0;k<200;k++) { size_t pos=n?vh_below(n):0; e=edges; (void)tlist_get(t,pos); one("get after deletes",shape,n,edges-e,&s[2],&c[2],&m[2]); }
	e=edges; size_t nn=n; tlist_free(t); VH_CHECK((double)(edges-e)<=(nn+10)*(8*unit*lg(nn)+80*unit),"free-work","freeing %zu items executed %llu edges",nn,(unsigned long long)(edges-e));
	xfree(item); vh_seen(vh_hashu(shape*100+lg(N)+del*50,idx)); vh_sample("tlist order=%d N=%zu deletes=%d: avg insert %.0f max %llu edges, avg get %.0f max %llu, unit %.1f",shape,N,del,(double)s[0]/c[0],(unsigned long long)m[0],(double)s[2]/(c[2]+1),(unsigned long long)m[2],unit);
}
static void tl(u64 idx) { tlx(idx,idx%12,idx/12%2,vh_thorough?(1u<<18):(idx<24?1u<<16:1u<<12),idx%3?8:(size_t[]){1,4,80,200}[vh_below(4)]); }
/* millions of items, and large ones */
static void tlbig(u64 idx) { size_t sz[]={80,8,300,1,4000,8,1000,65537}; size_t z=sz[idx%8]; tlx(idx+1000,idx%8==1?0:(int)vh_below(12),idx%8==1?0:(int)vh_below(2),z==8?(idx%8==1?1u<<22:1u<<20):z<=80?1u<<17:z<=300?1u<<16:1u<<13,z); VH_COUNT("large items and millions of items",1); }
static u64 ncmp; static const int *bkt; static int wantb=-1,badb;
static int cmpi(const void*a,const void*b) { ncmp++; int x=*(int*)a,y=*(int*)b; return x<y?-1:x>y; }
static int cmpir(const void*a,const void*b,void*c) { return cmpi(a,b); }
#define BOUND(n) (3ull*lg(n)+8)
static void sbl(u64 idx) {
	size_t n=idx<40?idx:vh_chance(1,3)?(1u<<vh_below(17))+vh_below(3):vh_below(vh_thorough?200000:40000),i; sblist*l=sblist_new(4,4096); int shape=idx%5; int v;
	for(i=0;i<n;i++) { v=shape==0?(int)i*2:shape==1?7:shape==2?(int)(i/100):shape==3?(i<n/2?0:1):(int)i; sblist_add(l,&v); }
	for(i=0;i<60;i++) { int key=i<2?-1-(int)i:i<4?(int)(n*2+i):i<30?(int)vh_below(n*2+1):shape==1?7:(int)vh_below(200); u64 c=ncmp; if(i&1) sblist_bsearch(l,&key,cmpi); else sblist_bsearch_r(l,&key,cmpir,0); VH_CHECK(ncmp-c<=BOUND(n),"compares","binary search in %zu items made %llu comparisons",n,(unsigned long long)(ncmp-c)); VH_COUNT("bsearch measured",1); }
	for(i=0;i<30;i++) { int key=i<2?-1:i<4?(int)(n*2+5):i<15?7:(int)vh_below(n*2+1); u64 c=ncmp; if(i&1) sblist_insert_sorted(l,&key,cmpi); else sblist_insert_sorted_r(l,&key,cmpir,0); VH_CHECK(ncmp-c<=BOUND(n+i),"compares","sorted insert into %zu items made %llu comparisons",n+i,(unsigned long long)(ncmp-c)); VH_COUNT("sorted insert measured",1); }
	/* list wrapped around caller memory */
	{ int*d=malloc((n+1)*4); sblist*w; for(i=0;i<n;i++) d[i]=i*2; w=sblist_new_from_data(4,d,n*4); for(i=0;i<10;i++) { int key=vh_below(2*n+2); u64 c=ncmp; sblist_bsearch(w,&key,cmpi); VH_CHECK(ncmp-c<=BOUND(n),"compares","bsearch from_data"); } sblist_free(w); }
	sblist_free(l); if(n>2) vh_seen(vh_hashu(n,shape));
}
static int hm; static unsigned hf(const int k) { return hm==0?(unsigned)k:hm==1?(unsigned)k*2654435761u:hm==2?(unsigned)k/64:3; }
static int cmpb(const void*a,const void*b) { ncmp++; int x=*(int*)a,y=*(int*)b; if(hf(x)%16!=hf(y)%16) badb=1; return x<y?-1:x>y; }
static void maps(u64 idx) {
	size_t n=idx<40?idx:vh_below(vh_thorough?30000:4000),i; bmap(int,int) *b=bmap_new(cmpi); u64 c; int shape=idx%3;
	for(i=0;i<n;i++) { int key=shape==0?(int)i:shape==1?(int)(n-i):(int)((i*7919)%(n+1)),v=i; c=ncmp; (void)bmap_insert(b,key,v); VH_CHECK(ncmp-c<=2*BOUND(i),"compares","bmap insert with %zu keys made %llu comparisons",i,(unsigned long long)(ncmp-c)); }
	for(i=0;i<50;i++) { int key=i<3?-5:i<6?(int)n+99:(int)vh_below(n+2); c=ncmp; (void)bmap_find(b,key); VH_CHECK(ncmp-c<=BOUND(n),"compares","bmap lookup with %zu keys made %llu comparisons",n,(unsigned long long)(ncmp-c)); c=ncmp; (void)bmap_get(b,key); VH_CHECK(ncmp-c<=BOUND(n),"compares","bmap get"); c=ncmp; (void)bmap_contains(b,key); VH_CHECK(ncmp-c<=BOUND(n),"compares","bmap contains"); VH_COUNT("bmap lookup measured",3); }
	bmap_fini(b,0); free(b);
	typedef hbmap(int,int,16) MT; MT*h=hbmap_new(cmpb,(void*)hf,16); size_t per[16]={0}; hm=vh_below(4); badb=0;
	for(i=0;i<n;i++) { int key=(int)i,v=1; per[hf(key)%16]++; (void)hbmap_insert(h,key,v); }
	VH_CHECK(!badb,"bucket","insert compared keys of different buckets"); 
	for(i=0;i<50;i++) { int key=(int)vh_below(n+10); c=ncmp; (void)hbmap_find(h,key); VH_CHECK(!badb,"bucket","hbmap lookup compared with a key of another bucket"); VH_CHECK(ncmp-c<=BOUND(per[hf(key)%16]),"compares","hbmap lookup among %zu keys made %llu comparisons",per[hf(key)%16],(unsigned long long)(ncmp-c)); c=ncmp; (void)hbmap_contains(h,key); (void)hbmap_get(h,key); VH_CHECK(!badb,"bucket","bucket"); VH_CHECK(ncmp-c<=2*BOUND(per[hf(key)%16]),"compares","hbmap get"); VH_COUNT("hbmap lookup measured",1); }
	hbmap_fini(h,0); free(h);
	/* typed list sorted insertion */
	tglist(int)*tl=tglist_new(); for(i=0;i<n;i++) { int key=shape==0?(int)i:shape==1?-(int)i:5; c=ncmp; tglist_insert_sorted(tl,key,cmpi); VH_CHECK(ncmp-c<=BOUND(i+1),"compares","tglist sorted insert into %zu made %llu comparisons",i,(unsigned long long)(ncmp-c)); } tglist_free(tl);
	if(n>2) vh_seen(vh_hashu(n,shape+77));
}
const vh_mode vh_modes[]={{"tlist-big",tlbig,8,32},{"tlist",tl,96,48},{"sblist",sbl,400,4000},{"maps",maps,400,3000},{0}};
