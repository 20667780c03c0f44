/* C04: hbmap against a reference map, several bucket counts and hash functions */
#include "vh.h"
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
const char *const vh_rule="random histories over bucket counts 1,2,3,7,64,1000 and hash functions (identity, constant, max, sparse, mixed); after every operation every key is looked up and a full iteration is compared with a reference map; distinct = hash of history, >=3 changes";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge buckets",0};
#else
const char *const vh_required[]={"insert new","overwrite","delete","find hit","find miss","iterations","empty bucket skipped","iterated empty map","delete all by foreach","many buckets","wide buckets","maps in an array","maps used in turn",0};
#endif
static int cmpi(const void*a,const void*b) { int x=*(int*)a,y=*(int*)b; return x<y?-1:x>y; }
static int cmps(const void*a,const void*b) { return strcmp(*(char**)a,*(char**)b); }
static int hmode; static u64 hcalls;
static unsigned hi(const int k) { hcalls++; switch(hmode) { case 0: return k; case 1: return 0; case 2: return 0xffffffffu; case 3: return (unsigned)k*2654435761u; case 4: return 0x80000000u+(unsigned)k; default: return (unsigned)k&1?5:3; } }
static unsigned hs(char *const k) { unsigned h=5381; const char*s=k; hcalls++; switch(hmode) { case 1: return 0; case 2: return ~0u; case 5: return (unsigned)strlen(k); default: while(*s) h=h*33+(u8)*s++; return h; } }
typedef struct { u64 a; char pad[30]; } big;
#define U 48
#define BODY(KT,VT,NB,CMP,HF,MKKEY,KEYEQ) { \
	int present[U]={0}; VT mv[U]; KT keys[U]; size_t i,n=0,k,ops=vh_chance(1,8)?160:vh_below(50); u64 sig=NB*10+hmode; int ch=0; memset(mv,0,sizeof mv); memset(keys,0,sizeof keys); \
	typedef hbmap(KT,VT,NB) MT; MT *h,*st=0; if(vh_chance(1,2)) h=hbmap_new(CMP,(void*)HF,NB); else { st=xmalloc(sizeof*st); memset(st,0x33,sizeof*st); h=st; hbmap_init(h,CMP,HF); } \
	VH_CHECK(h,"new","hbmap_new failed"); for(i=0;i<U;i++) MKKEY(keys[i],i); VH_CHECK(hbmap_getbucketcount(h)==NB,"buckets","bucket count"); \
	for(k=0;k<=ops;k++) { int id=vh_below(U); KT key=keys[id]; VT v; vh_bytes(&v,sizeof v); int op=vh_below(100); hbmap_iter it; const char*nm="start"; \
		if(k==0) ; else if(op<45) { VH_TRACE("insert %d%s",id,present[id]?" (overwrite)":""); it=hbmap_insert(h,key,v); nm="insert"; VH_CHECK(it!=(hbmap_iter)-1,"insert","insert failed"); VH_CHECK(hbmap_iter_valid(h,it)&&KEYEQ(hbmap_getkey(h,it),key)&&!memcmp(&hbmap_getval(h,it),&v,sizeof v),"insert-iter","iterator from insert does not designate the entry"); if(present[id]) VH_COUNT("overwrite",1); else { present[id]=1; n++; VH_COUNT("insert new",1); } mv[id]=v; ch++; } \
		else if(op<52) { if(present[id]) continue; it=hbmap_insert_nocheck(h,key,v); nm="insert_nocheck"; VH_CHECK(it!=(hbmap_iter)-1&&KEYEQ(hbmap_getkey(h,it),key),"insert-iter","nocheck iterator wrong"); present[id]=1; n++; mv[id]=v; ch++; } \
		else if(op<62) { if(!present[id]) continue; it=hbmap_find(h,key); nm="setvalue"; VH_CHECK(it!=(hbmap_iter)-1,"find","present key not found"); hbmap_setvalue(h,v,it); mv[id]=v; ch++; } \
		else if(op<86) { it=hbmap_find(h,key); nm="delete"; VH_TRACE("delete %d present=%d",id,present[id]); if(!present[id]) { VH_CHECK(it==(hbmap_iter)-1,"find","absent key found"); continue; } if(vh_chance(1,2)) hbmap_delete(h,it); else hbmap_delete(h,hbmap_find(h,key)); present[id]=0; n--; ch++; VH_COUNT("delete",1); } \
		else if(op<88&&vh_chance(1,3)) { hbmap_foreach(h,it) { while(hbmap_iter_index_valid(h,it)) hbmap_delete(h,it); } nm="delete all"; memset(present,0,sizeof present); n=0; VH_COUNT("delete all by foreach",1); } \
		else nm="lookups"; \
		for(i=0;i<U;i++) { KT q=keys[i]; it=hbmap_find(h,q); if(!present[i]) { VH_CHECK(it==(hbmap_iter)-1,"find","after %s: absent key %zu found",nm,i); VH_CHECK(!hbmap_contains(h,q)&&!hbmap_get(h,q),"find","contains/get of absent key"); VH_COUNT("find miss",1); } \
			else { VH_CHECK(it!=(hbmap_iter)-1,"find","after %s: key %zu lost",nm,i); VH_CHECK(hbmap_iter_valid(h,it)&&KEYEQ(hbmap_getkey(h,it),q)&&!memcmp(&hbmap_getval(h,it),&mv[i],sizeof v),"find","after %s: iterator of key %zu designates another entry",nm,i); VT*p=hbmap_get(h,q); VH_CHECK(p&&!memcmp(p,&mv[i],sizeof v)&&hbmap_contains(h,q),"get","get"); VH_COUNT("find hit",1); } } \
		{ int seen[U]={0}; size_t c=0,lastb=0; hbmap_foreach(h,it) { VH_CHECK(c<n,"iterate","after %s: iteration yields more than %zu entries",nm,n); KT kk=hbmap_getkey(h,it); for(i=0;i<U;i++) if(KEYEQ(keys[i],kk)) break; VH_CHECK(i<U&&present[i],"iterate","iteration gave a key not in the map"); VH_CHECK(!seen[i],"iterate","after %s: key %zu visited twice",nm,i); seen[i]=1; VH_CHECK(!memcmp(&hbmap_getval(h,it),&mv[i],sizeof v),"iterate","value of key %zu",i); size_t bk=it>>32; if(bk>lastb+1||(c==0&&bk>0)) VH_COUNT("empty bucket skipped",1); lastb=bk; c++; } \
		  VH_CHECK(c==n,"iterate","after %s: iteration visited %zu of %zu entries",nm,c,n); VH_COUNT("iterations",1); if(!n) VH_COUNT("iterated empty map",1); } \
		sig=vh_hashu(op*64+id,sig); } \
	VH_CHECK(hbmap_getkeysize(h)==sizeof(KT)&&hbmap_getvalsize(h)==sizeof(VT),"sizes","sizes"); \
	if(ch>=3) vh_seen(sig); vh_sample("hbmap buckets=%d hash=%d keysize=%zu valsize=%zu ops=%zu final=%zu",NB,hmode,sizeof(KT),sizeof(VT),ops,n); \
	hbmap_fini(h,0); if(st) xfree(st); else free(h); }
static u64 salt; static char wbuf[U][12];
#define MKI(d,i) d=(int)(salt?(i*2654435761u)^salt:i)
#define EQI(a,b) ((a)==(b))
#define MKS(d,i) d=wbuf[i]
#define EQS(a,b) (!strcmp(a,b))
typedef struct { int a,b,c; } k12;
static int cmp12(const void*a,const void*b) { const k12*x=a,*y=b; return x->b<y->b?-1:x->b>y->b?1:x->c<y->c?-1:x->c>y->c; }
static unsigned h12(const k12 k) { return hi(k.b+k.c*77); }
#define MK12(dst,i) (dst.a=-(int)i,dst.b=(int)((i/3*2654435761u)^salt),dst.c=(int)(i%3)-1)
#define EQ12(x,y) ((x).b==(y).b&&(x).c==(y).c)
static void k4(void) BODY(k12,k12,4,cmp12,h12,MK12,EQ12)
static void k6(void) BODY(k12,char,6,cmp12,h12,MK12,EQ12)
static void b1(void) BODY(int,int,1,cmpi,hi,MKI,EQI)
static void b2(void) BODY(int,u64,2,cmpi,hi,MKI,EQI)
static void b3(void) BODY(int,big,3,cmpi,hi,MKI,EQI)
static void b7(void) BODY(int,char,7,cmpi,hi,MKI,EQI)
static void b64(void) BODY(int,int,64,cmpi,hi,MKI,EQI)
static void b1000(void) BODY(int,int,1000,cmpi,hi,MKI,EQI)
static void s5(void) BODY(char*,int,5,cmps,hs,MKS,EQS)
static void s32(void) BODY(char*,big,32,cmps,hs,MKS,EQS)
static void history(u64 idx) { int i; salt=vh_chance(1,2)?0:(u32)vh_rnd(); hmode=vh_below(6); for(i=0;i<U;i++) { size_t l=i%5; memset(wbuf[i],0,12); memset(wbuf[i],'a'+i%3,l); wbuf[i][l]='A'+i/2; wbuf[i][l+1]=i&1?'x':0; }
	switch(idx%10) { case 8: k4(); break; case 9: k6(); break; case 0: b1(); break; case 1: b2(); break; case 2: b3(); break; case 3: b7(); break; case 4: b64(); break; case 5: b1000(); break; case 6: s5(); break; default: s32(); } }
static void large(u64 idx) {
	enum { N=20000 }; static int val[N]; static char pr[N]; size_t n=0,k,ops=500+vh_size(vh_thorough?20000:5000); typedef hbmap(int,int,64) MT; MT *h=hbmap_new(cmpi,(void*)hi,64); hbmap_iter it; u64 sig=ops; hmode=vh_below(6); memset(pr,0,sizeof pr);
	for(k=0;k<ops;k++) { int key=vh_below(N>ops?ops:N),v=(int)vh_rnd(); it=hbmap_find(h,key); VH_CHECK((it!=(hbmap_iter)-1)==pr[key],"find","presence of %d",key); if(pr[key]&&vh_chance(1,2)) { VH_CHECK(hbmap_getval(h,it)==val[key],"value","value of %d",key); hbmap_delete(h,it); pr[key]=0; n--; } else { it=hbmap_insert(h,key,v); VH_CHECK(hbmap_getkey(h,it)==key&&hbmap_getval(h,it)==v,"insert-iter","iterator"); if(!pr[key]) n++; pr[key]=1; val[key]=v; } sig=vh_hashu(key,sig); }
	size_t c=0; hbmap_foreach(h,it) { int kk=hbmap_getkey(h,it); VH_CHECK(kk>=0&&kk<N&&pr[kk]==1&&val[kk]==hbmap_getval(h,it),"iterate","entry %d wrong or visited twice",kk); pr[kk]=2; c++; } VH_CHECK(c==n,"iterate","visited %zu of %zu",c,n); VH_COUNT("iterations",1);
	vh_seen(sig); hbmap_fini(h,0); free(h);
}
/* bucket counts beyond 8 and 16 bits, and few entries far apart */
#define HUGE_(NB,KT) { typedef hbmap(KT,u64,NB) MT; MT*h=hbmap_new(cmpi,(void*)hi,NB); hbmap_iter it; enum { N=40 }; KT keys[N]; u64 val[N]; int pr[N]={0},i,k,n=0,ops=10+vh_below(40); hmode=vh_chance(1,4)?3:0; \
	for(i=0;i<N;i++) { int dup; do { dup=0; keys[i]=vh_chance(1,3)?(KT)(NB-1-vh_below(3)):vh_chance(1,3)?(KT)(65536*vh_below(1+NB/65536)+vh_below(3)):vh_chance(1,3)?(KT)(256*vh_below(1+NB/256)+vh_below(3)):(KT)vh_below(NB*3ull); for(k=0;k<i;k++) if(keys[k]==keys[i]) dup=1; } while(dup); } \
	for(k=0;k<ops;k++) { i=vh_below(N); u64 v=vh_rnd(); if(pr[i]&&vh_chance(1,2)) { it=hbmap_find(h,keys[i]); VH_CHECK(it!=(hbmap_iter)-1&&hbmap_getkey(h,it)==keys[i]&&hbmap_getval(h,it)==val[i],"find","present key wrong with %d buckets",NB); hbmap_delete(h,it); pr[i]=0; n--; } else { it=hbmap_insert(h,keys[i],v); VH_CHECK(it!=(hbmap_iter)-1&&hbmap_iter_valid(h,it)&&hbmap_getkey(h,it)==keys[i]&&hbmap_getval(h,it)==v,"insert-iter","iterator of insert designates another entry with %d buckets",NB); if(!pr[i]) n++; pr[i]=1; val[i]=v; } } \
	for(i=0;i<N;i++) { it=hbmap_find(h,keys[i]); VH_CHECK((it!=(hbmap_iter)-1)==pr[i],"find","presence wrong with %d buckets",NB); if(pr[i]) VH_CHECK(hbmap_getkey(h,it)==keys[i]&&hbmap_getval(h,it)==val[i],"find","entry wrong with %d buckets",NB); } \
	int c=0; hbmap_foreach(h,it) { for(i=0;i<N;i++) if(keys[i]==hbmap_getkey(h,it)) break; VH_CHECK(i<N&&pr[i]==1&&val[i]==hbmap_getval(h,it),"iterate","visits a wrong entry, or one twice, with %d buckets",NB); pr[i]=2; c++; } VH_CHECK(c==n,"iterate","visited %d of %d entries with %d buckets",c,n,NB); VH_COUNT("iterations",1); VH_COUNT("many buckets",1); vh_seen(vh_hash(keys,sizeof keys,NB)); hbmap_fini(h,0); free(h); }
static void m257(void) HUGE_(257,int)
static void m65536(void) HUGE_(65536,int)
static void m70001(void) HUGE_(70001,int)
static void m200000(void) HUGE_(200000,int)
static void many(u64 idx) { switch(idx%4) { case 0: m257(); break; case 1: m65536(); break; case 2: m70001(); break; default: m200000(); } }
/* more than 2^16 entries in one bucket */
static void wide(u64 idx) {
	enum { NB=2 }; typedef hbmap(int,u32,NB) MT; MT*h=hbmap_new(cmpi,(void*)hi,NB); hbmap_iter it; size_t n=0,i,k,N=65530+vh_below(2000)+(idx%3==2?65600:0); u32*mv=xcalloc(2*N,4); u8*pr=xcalloc(2*N,1); u64 sig=N; hmode=idx%2?1:0; size_t step=idx%2?1:2;
	for(i=0;i<N;i++) { int key=i*step; u32 v=vh_rnd(); it=vh_chance(1,2)?hbmap_insert(h,key,v):hbmap_insert_nocheck(h,key,v); VH_CHECK(it==i,"insert-iter","entry %zu of the bucket got iterator %llx",i,(unsigned long long)it); mv[key]=v; pr[key]=1; n++; }
	for(k=0;k<40;k++) { int key=vh_chance(1,3)?(int)((65533+vh_below(6))*step):vh_chance(1,2)?(int)((N-1-vh_below(8))*step):(int)vh_below(2*N); if((size_t)key>=2*N) key=0; u32 v=vh_rnd(); if(!step||(!(hmode)&&key&1)) key^=1; if((size_t)key>=2*N) key=0; sig=vh_hashu(key,sig); it=hbmap_find(h,key); VH_CHECK((it!=(hbmap_iter)-1)==pr[key],"find","presence of key %d",key);
		if(pr[key]) { VH_CHECK(hbmap_getkey(h,it)==key&&hbmap_getval(h,it)==mv[key],"find","entry of key %d",key); if(k%3==0) { hbmap_delete(h,it); pr[key]=0; n--; continue; } if(k%3==1) { hbmap_setvalue(h,v,it); mv[key]=v; continue; } }
		it=hbmap_insert(h,key,v); VH_CHECK(hbmap_iter_valid(h,it)&&hbmap_getkey(h,it)==key&&hbmap_getval(h,it)==v,"insert-iter","iterator of insert of %d",key); if(!pr[key]) n++; pr[key]=1; mv[key]=v; }
	for(i=0;i<2*N;i+=1+vh_below(50)) { int key=i; u32*g=hbmap_get(h,key); VH_CHECK(!!g==pr[i]&&(!g||*g==mv[i]),"get","key %zu",i); }
	size_t c=0; hbmap_foreach(h,it) { VH_CHECK(c<n,"iterate","more than %zu entries",n); int kk=hbmap_getkey(h,it); VH_CHECK(kk>=0&&(size_t)kk<2*N&&pr[kk]==1&&mv[kk]==hbmap_getval(h,it),"iterate","entry %d wrong or visited twice",kk); pr[kk]=2; c++; } VH_CHECK(c==n,"iterate","visited %zu of %zu",c,n);
	VH_COUNT("wide buckets",1); vh_seen(sig); hbmap_fini(h,0); free(h); xfree(mv); xfree(pr);
}
/* several maps of the same type alive at once, used in turn, iterations nested */
static void several(u64 idx) {
	enum { N=3, K=24, NB=5 }; typedef hbmap(int,u64,NB) MT; MT*b[N]; int pr[N][K]; u64 mv[N][K]; size_t i,j,k; hbmap_iter it,it2; u64 sig=idx%2; memset(pr,0,sizeof pr); hmode=vh_below(6); for(i=0;i<N;i++) b[i]=hbmap_new(cmpi,(void*)hi,NB);
	for(k=0;k<100;k++) { i=vh_below(N); int key=vh_chance(1,2)?(int)vh_below(K):5,op=vh_below(10); u64 v=vh_chance(1,4)?7:vh_rnd(); sig=vh_hashu((op*4+i)*32+key,sig); VH_TRACE("map %zu op %d key %d",i,op,key);
		if(op<4) { it=hbmap_insert(b[i],key,v); VH_CHECK(hbmap_iter_valid(b[i],it)&&hbmap_getkey(b[i],it)==key&&hbmap_getval(b[i],it)==v,"insert-iter","map %zu: insert",i); pr[i][key]=1; mv[i][key]=v; } else if(op<6&&pr[i][key]) { if(vh_chance(1,2)) { it=hbmap_find(b[i],key); hbmap_delete(b[i],it); } else hbmap_delete(b[i],hbmap_find(b[i],key)); pr[i][key]=0; } else if(op==6&&pr[i][key]) { it=hbmap_find(b[i],key); hbmap_setvalue(b[i],v,it); mv[i][key]=v; } else if(op==7&&vh_chance(1,4)) { hbmap_fini(b[i],0); free(b[i]); b[i]=hbmap_new(cmpi,(void*)hi,NB); memset(pr[i],0,sizeof pr[i]); }
		for(j=0;j<N;j++) { u64*g; it=hbmap_find(b[j],key); VH_CHECK((it!=(hbmap_iter)-1)==pr[j][key],"find","map %zu after an operation on map %zu: presence of key %d",j,i,key); g=hbmap_get(b[j],key); VH_CHECK(!!g==pr[j][key]&&(!g||*g==mv[j][key]),"get","map %zu after an operation on map %zu: value of key %d",j,i,key); }
		if(k%8==7) { int seen[2][K]; memset(seen,0,sizeof seen); j=(i+1)%N; int outer=0; hbmap_foreach(b[i],it) { seen[0][hbmap_getkey(b[i],it)]++; if(outer++<3) { memset(seen[1],0,sizeof seen[1]); hbmap_foreach(b[j],it2) seen[1][hbmap_getkey(b[j],it2)]++; VH_CHECK(!memcmp(seen[1],pr[j],sizeof pr[j]),"iterate","nested iteration over map %zu does not visit each entry once",j); } } VH_CHECK(!memcmp(seen[0],pr[i],sizeof pr[i]),"iterate","iteration over map %zu does not visit each entry once",i); } }
	for(i=0;i<N;i++) { hbmap_fini(b[i],0); free(b[i]); } VH_COUNT("maps used in turn",1); vh_seen(sig);
}
/* maps reached through variables with the names a macro might use itself */
static void names(u64 idx) {
	typedef hbmap(int,int,3) MT; enum { N=3 }; MT mm[N]; size_t i; int k,n=1+vh_below(40); hbmap_iter it; int want[N]={0}; hmode=vh_below(6); memset(mm,0x5a,sizeof mm); u64 sig=hmode;
	for(i=0;i<N;i++) { hbmap_init(&mm[i],cmpi,hi); }
	for(k=0;k<n;k++) { MT*p=&mm[i=vh_below(N)]; int key=vh_below(30),v=(int)vh_rnd(); sig=vh_hashu(key*4+i,sig); it=vh_chance(1,2)?hbmap_insert(&mm[i],key,v):hbmap_insert(p,key,v); VH_CHECK(hbmap_getkey(p,it)==key&&hbmap_getval(&mm[i],it)==v,"macro","insert into map %zu of an array",i); }
	for(i=0;i<N;i++) { hbmap_foreach(&mm[i],it) want[i]++; int c=0; for(k=0;k<30;k++) c+=!!hbmap_contains(&mm[i],k); VH_CHECK(c==want[i],"macro","map %zu of an array iterates %d of %d entries",i,want[i],c); }
	for(i=0;i<N;i++) { if(vh_chance(1,2)) hbmap_fini(&mm[i],0); else { MT*p=&mm[i]; hbmap_fini(p,0); } }
	VH_COUNT("maps in an array",1); vh_seen(sig);
}
#ifdef HUGE
/* nearly 2^32 one-byte entries in one bucket: compared by their position */
static u8*hk; static size_t tgt; static int cmpaddr(const void*k,const void*e) { size_t at=(u8*)e-hk; (void)k; return tgt<at?-1:tgt>at; } static unsigned hb; static unsigned hhash(const u8 k) { (void)k; return hb; }
static void huge(u64 idx) {
	enum { NB=5 }; hbmap(u8,u8,NB) st,*h=&st; size_t n=(1ull<<32)-8-(idx?vh_below(1u<<20):vh_below(50)),i; hbmap_iter it; u64 B=idx==0?1:vh_below(NB); u8 k=0; int j; hbmap_init(h,cmpaddr,hhash); hb=NB*vh_below(1u<<28)+B; u8*kk=mmap(0,n+16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0),*hv=mmap(0,n+16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(kk==MAP_FAILED||hv==MAP_FAILED) vh_internal("mmap"); hk=kk;
	h->buckets[B].keys.items=(void*)kk; h->buckets[B].values.items=(void*)hv; h->buckets[B].keys.count=h->buckets[B].values.count=n; h->buckets[B].keys.capa=h->buckets[B].values.capa=n+16;
	for(j=0;j<40;j++) { tgt=j%4==0?n-1-vh_below(100):j%4==1?(1ull<<31)-3+vh_below(6):j%4==2?(1u<<24)-3+vh_below(6):vh_below(n); it=hbmap_find(h,k); VH_CHECK(it==(B<<32|tgt),"huge","entry %zu of bucket %llu: iterator %llx",tgt,(unsigned long long)B,(unsigned long long)it); VH_CHECK(hbmap_iter_valid(h,it)&&hbmap_contains(h,k),"huge","entry %zu: iterator not valid",tgt); VH_CHECK(hbmap_get(h,k)==hv+tgt,"huge","value of entry %zu",tgt);
		hbmap_setvalue(h,j+1,it); VH_CHECK(hv[tgt]==j+1&&hbmap_getval(h,it)==j+1,"huge","value set at entry %zu",tgt); hk[tgt]=j; VH_CHECK(hbmap_getkey(h,it)==j,"huge","key of entry %zu",tgt); it=hbmap_insert(h,k,99); VH_CHECK(it==(B<<32|tgt)&&hv[tgt]==99,"huge","overwriting entry %zu: iterator %llx",tgt,(unsigned long long)it);
		hbmap_iter nx=hbmap_next_valid_impl(h,it,NB); if(tgt+1<n) VH_CHECK(nx==it+1,"huge","step from entry %zu leads to %llx",tgt,(unsigned long long)nx); else VH_CHECK(!hbmap_iter_valid(h,nx),"huge","step from the last entry leads to %llx",(unsigned long long)nx); }
	{ size_t c=0; for(it=B<<32|(n-5);hbmap_iter_valid(h,it);it=hbmap_next_valid_impl(h,it,NB)) c++; VH_CHECK(c==5,"huge","%zu entries visited from the fifth last one",c); } hbmap_foreach(h,it) { VH_CHECK(it==B<<32,"huge","iteration starts at %llx",(unsigned long long)it); break; }
	tgt=n; VH_CHECK(hbmap_find(h,k)==(hbmap_iter)-1&&!hbmap_get(h,k),"huge","found a key that is not there");
	for(i=0;i<6;i++) { tgt=n; it=hbmap_insert(h,k,i+40); VH_CHECK(it==(B<<32|n)&&hv[n]==i+40&&hbmap_iter_valid(h,it),"huge","new entry %zu got iterator %llx",n,(unsigned long long)it); n++; }
	hv[n-1]=7; hv[n-2]=6; hbmap_delete(h,(B<<32|(n-2))); n--; VH_CHECK(hv[n-1]==7&&hbmap_iter_valid(h,(B<<32|(n-1)))&&!hbmap_iter_valid(h,(B<<32|n)),"huge","deletion near the end");
	VH_COUNT("huge buckets",1); vh_seen(vh_hashu(n,B)); munmap(kk,n+16); munmap(hv,n+16);
}
const vh_mode vh_modes[]={{"huge",huge,3,12},{0}};
#else
const vh_mode vh_modes[]={{"names",names,800,20000},{"several",several,1200,40000},{"wide",wide,16,300},{"many-buckets",many,240,6000},{"history",history,8000,300000},{"large",large,160,3000},{0}};
#endif
