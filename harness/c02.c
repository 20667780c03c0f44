/* C02: tglist / tgilist against plain arrays */
#include "vh.h"
#include "tglist.h"
#include "tgilist.h"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
static size_t cmpsz;
typedef struct { u8 b[3]; } s3; typedef struct { u64 a,b,c; } s24; typedef struct { char b[100]; } s100; typedef struct { char b[5000]; } s5000;
const char *const vh_rule="random histories of typed-list operations at valid positions over 9 element types and 4 index types, static and dynamic lists; whole list compared after each operation; distinct = hash of operations and values, >=3 changes";
#ifdef HUGE
const char *const vh_required[]={"huge lists",0};
#else
const char *const vh_required[]={"add","insert","set","delete","sort","insert_sorted","tgilist ops","pointers freed","wide lists","lists used in turn",0};
#endif
#define T char
#define N ch
#include "c02_t.h"
#define T short
#define N sh
#include "c02_t.h"
#define T int
#define N in
#include "c02_t.h"
#define T u64
#define N ll
#include "c02_t.h"
#define T s3
#define N t3
#include "c02_t.h"
#define T s24
#define N t24
#include "c02_t.h"
#define T s100
#define N t100
#include "c02_t.h"
#define T double
#define N dbl
#include "c02_t.h"
#define T s5000
#define N t5000
#include "c02_t.h"
#define ROW(n) {tg_##n,tgi8_##n,tgi16_##n,tgi32_##n,tgi64_##n}
static void (*const fns[9][5])(void)={ROW(ch),ROW(sh),ROW(in),ROW(ll),ROW(t3),ROW(t24),ROW(t100),ROW(dbl),ROW(t5000)};
static void tg(u64 i) { int t=i%9; if(t==8&&i%5) t=i%8; fns[t][0](); }
static void tgi(u64 i) { int t=i%9; if(t==8&&i%5) t=i%8; fns[t][1+vh_below(4)](); }
/* freeing stored values releases each stored pointer exactly once */
static void freeval(u64 idx) {
	size_t n=vh_below(30),i; u64 sig=n;
	vh_ledger_begin();
	if(vh_chance(1,2)) {
		tglist(char*) *l=tglist_new(); size_t c=0;
		for(i=0;i<n;i++) { char *p=vh_chance(1,5)?0:malloc(1+vh_below(20)); if(p) p[0]=i; if(c&&vh_chance(1,3)) { size_t pos=vh_below(c+1); tglist_insert(l,p,pos); } else tglist_add(l,p); c++; if(vh_chance(1,6)) { size_t pos=vh_below(c); free(tglist_get(l,pos)); tglist_delete(l,pos); c--; } sig=sig*31+c; }
		tglist_free_values(l);
		VH_CHECK(vh_ledger_live()<=2,"free-values","%zu blocks live after freeing values of a list",vh_ledger_live());
		tglist_free(l); VH_COUNT("pointers freed",c);
	} else {
		tgilist(char*,unsigned) *l=tgilist_new(); size_t c=0;
		for(i=0;i<n;i++) { char *p=vh_chance(1,5)?0:malloc(1+vh_below(20)); if(p) p[0]=i; if(vh_chance(1,2)) { size_t pos=vh_below(c+1); tgilist_insert(l,p,pos); } else tgilist_add(l,p); c++; sig=sig*31+c; }
		tgilist_free_values(l); tgilist_free(l); VH_COUNT("pointers freed",c);
	}
	VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks live after freeing list and values",vh_ledger_live());
	VH_CHECK(vh_ledger_badfree()==0,"badfree","freed something that was never stored");
	vh_ledger_end(); if(n>2) vh_seen(sig^0x77);
}
/* several lists alive at once, used in turn; values are 64-bit, positions random */
static int cmp_ww(const void*a,const void*b) { u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }
#define SEVERAL(DECL,P,SORT,BYTES) do { enum { LN=4 }; DECL *l[LN]; u64 m[LN][200]; size_t c[LN]={0},i,k,j; for(i=0;i<LN;i++) { l[i]=P##_new(); VH_CHECK(l[i],"new","new list"); } \
	for(k=0;k<100;k++) { i=vh_below(LN); u64 v=vh_chance(1,3)?vh_rnd():7; size_t pos=vh_below(c[i]+1); int op=vh_below(10); sig=vh_hashu(op*4+i,sig); \
		VH_TRACE("list %zu op %d pos %zu of %zu",i,op,pos,c[i]); if(op<4&&c[i]<190) { VH_CHECK(P##_add(l[i],v)==1,"ret","add"); m[i][c[i]++]=v; } else if(op<6&&c[i]<190) { VH_CHECK(P##_insert(l[i],v,pos)==1,"ret","insert"); memmove(m[i]+pos+1,m[i]+pos,(c[i]-pos)*8); m[i][pos]=v; c[i]++; } \
		else if(op==6&&pos<c[i]) { P##_set(l[i],v,pos); m[i][pos]=v; } else if(op==7&&pos<c[i]) { P##_delete(l[i],pos); memmove(m[i]+pos,m[i]+pos+1,(c[i]-pos-1)*8); c[i]--; } else if(op==8) { SORT } else if(op==9&&vh_chance(1,3)) { P##_free(l[i]); l[i]=P##_new(); c[i]=0; } \
		for(j=0;j<LN;j++) { VH_CHECK((size_t)P##_getsize(l[j])==c[j],"size","list %zu after an operation on list %zu: %zu items, want %zu",j,i,(size_t)P##_getsize(l[j]),c[j]); for(pos=0;pos<c[j];pos++) VH_CHECK(P##_get(l[j],pos)==m[j][pos],"content","list %zu item %zu after an operation on list %zu",j,pos,i); } } \
	for(i=0;i<LN;i++) P##_free(l[i]); VH_COUNT("lists used in turn",1); vh_seen(sig); } while(0)
typedef tglist(u64) sl; typedef tgilist(u64,unsigned) sli; typedef tgilist(u64,unsigned char) slb;
static void several(u64 idx) { u64 sig=idx%3; switch(idx%3) { case 0: SEVERAL(sl,tglist,tglist_sort(l[i],cmp_ww); qsort(m[i],c[i],8,cmp_ww);,8); break; case 1: SEVERAL(sli,tgilist,;,8); break; default: SEVERAL(slb,tgilist,;,8); } }
/* sizes and positions beyond 16 bits, index types of every width */
static int cmp_w(const void*a,const void*b) { u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }
#define WIDE(DECL,P,SORTED) do { size_t n=65530+vh_below(12)+(vh_chance(1,3)?65540:0),i,k,pos; u64*m=xmalloc((n+200)*8); DECL *l=P##_new(); \
	for(i=0;i<n;i++) { u64 v=i*4+1; VH_CHECK(P##_add(l,v)==1,"ret","add"); m[i]=v; } \
	for(k=0;k<40;k++) { u64 v=vh_rnd(); pos=vh_chance(1,3)?65534+vh_below(5):vh_chance(1,2)?n-1-vh_below(20):vh_below(n); if(pos>=n) pos=n-1; sig=vh_hashu(pos,sig); \
		if(SORTED) v=pos*4+1+vh_below(4); \
		switch(SORTED?4:k%4) { case 0: VH_CHECK(P##_insert(l,v,pos)==1,"ret","insert"); memmove(m+pos+1,m+pos,(n-pos)*8); m[pos]=v; n++; break; \
		case 1: P##_set(l,v,pos); m[pos]=v; break; case 2: P##_delete(l,pos); memmove(m+pos,m+pos+1,(n-pos-1)*8); n--; break; \
		case 3: VH_CHECK(P##_add(l,v)==1,"ret","add"); m[n++]=v; break; default: ; } \
		if(SORTED) { SORTED_OP(l) } \
		VH_CHECK(P##_getsize(l)==n,"size","wide list: %zu items, want %zu",(size_t)P##_getsize(l),n); VH_CHECK(P##_get(l,n-1)==m[n-1],"content","last item"); \
		if(k%8==7) for(i=0;i<n;i++) VH_CHECK(P##_get(l,i)==m[i],"content","wide list: item %zu of %zu differs",i,n); } \
	VH_COUNT("wide lists",1); vh_seen(vh_hash(m,n*8,sig)); P##_free(l); xfree(m); } while(0)
#define SORTED_OP(l) { size_t r=tglist_insert_sorted(l,v,cmp_w); VH_CHECK(r<=n&&(!r||m[r-1]<=v)&&(r==n||m[r]>=v),"sorted-idx","sorted insertion of %llu at %zu of %zu",(unsigned long long)v,r,n); memmove(m+r+1,m+r,(n-r)*8); m[r]=v; n++; }
typedef tglist(u64) wl; typedef tgilist(u64,unsigned) wli; typedef tgilist(u64,size_t) wlz; typedef tgilist(u64,int) wls;
static void wide(u64 idx) { u64 sig=idx; switch(idx%5) { case 0: WIDE(wl,tglist,0); break; case 1: WIDE(wl,tglist,1); break;
#undef SORTED_OP
#define SORTED_OP(l)
	case 2: WIDE(wli,tgilist,0); break; case 3: WIDE(wlz,tgilist,0); break; default: WIDE(wls,tgilist,0); } }
#ifdef HUGE
static char*hb; static size_t hi_;
static int cmp_addr(const void*key,const void*item) { size_t i=((const char*)item-hb)/hi_,k=*(const u8*)key==1?4500000000ull/hi_:*(const u8*)key==2?(5ull<<30)/hi_-2:3; return k<i?-1:k>i; }
#define HUGEL(T,ISZ) do { tglist(T) *l=tglist_new(); size_t n=(5ull<<30)/ISZ,p; hi_=ISZ; l->items=malloc((n+1)*ISZ); if(!l->items) vh_internal("no memory"); l->count=n; l->capa=n+1; hb=(char*)l->items; T v; memset(&v,0,sizeof v); \
	*(u8*)&v=0x31; for(i=0;i<20;i++) { p=n-1-vh_below(100); if(i&1) p=n/2+vh_below(n/2); *(u8*)&v=i+1; tglist_set(l,v,p); VH_CHECK(hb[p*ISZ]==i+1,"huge","set(%zu)",p); VH_CHECK((char*)&tglist_get(l,p)==hb+p*ISZ,"huge","get(%zu)",p); } \
	hb[(n-2)*ISZ]=0x21; hb[(n-1)*ISZ]=0x22; tglist_delete(l,n-3); VH_CHECK(tglist_getsize(l)==n-1&&hb[(n-3)*ISZ]==0x21&&hb[(n-2)*ISZ]==0x22,"huge","deletion at %zu of %zu",n-3,n); \
	*(u8*)&v=0x23; VH_CHECK(tglist_insert(l,v,n-2)==1&&tglist_getsize(l)==n&&hb[(n-2)*ISZ]==0x23&&hb[(n-1)*ISZ]==0x22,"huge","insertion at %zu of %zu",n-2,n-1); \
	*(u8*)&v=2; p=tglist_insert_sorted(l,v,cmp_addr); VH_CHECK((p==n-2||p==n-1)&&tglist_getsize(l)==n+1&&hb[p*ISZ]==2,"huge","sorted insertion at %zu, want %zu",p,n-2); \
	VH_CHECK(tglist_sorted_insert_pos_impl(l,(u8[]){1},ISZ,cmp_addr)-4500000000ull/ISZ<=1,"huge","sorted position"); \
	tglist_add(l,v); VH_CHECK(tglist_getsize(l)==n+2&&((u8*)l->items)[(n+1)*ISZ]==2,"huge","add after growth"); \
	VH_COUNT("huge lists",1); vh_seen(ISZ); tglist_free(l); } while(0)
static void huge(u64 idx) { int i; if(idx&1) HUGEL(u64,8); else HUGEL(u8,1); }
const vh_mode vh_modes[]={{"huge",huge,2,10},{0}};
#else
const vh_mode vh_modes[]={{"wide",wide,40,600},{"several",several,3000,90000},{"tglist",tg,30000,1000000},{"tgilist",tgi,30000,1000000},{"freevalues",freeval,10000,200000},{0}};
#endif
