/* C03: bmap against a reference map; both value-list backends (compiled twice) */
#include "vh.h"
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "bmap.h"
const char *const vh_rule="random histories of insert/overwrite/lookup/delete/index writes over int, string and struct keys and small and big values; the whole map is compared with a reference map after every operation; distinct = hash of the history, >=3 changes";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge maps",0};
#else
const char *const vh_required[]={"insert new","overwrite","delete","find hit","find miss","get hit","get miss","nocheck","wide maps","maps used in turn",0};
#endif
typedef struct { u64 a; char pad[40]; } big;
typedef struct { short k; short payload; } skey; typedef struct { int a,b,c; } k12; typedef struct { u8 b[3]; } k3; typedef struct { u64 a; char x[93]; } k101;
static int dir=1;
static int cmpi(const void*a,const void*b) { int x=*(int*)a,y=*(int*)b; return dir*(x<y?-1:x>y); }
static int cmps(const void*a,const void*b) { return dir*strcmp(*(char**)a,*(char**)b); }
static int cmpk(const void*a,const void*b) { short x=((skey*)a)->k,y=((skey*)b)->k; return dir*(x<y?-1:x>y)*7; }
static char *const words[]={"","a","aa","ab","abc","b","ba","zeta","Zeta","eta","theta","iota","x","xx","xy","xz","\xff","\x01","0","00","-1","key1","key10","key2","k","K","kk","Kk","m","n","o","p"};
#define NW 32
#define BODY(KT,VT,CMP,MKKEY,KEYID) \
	int present[NW]={0}; VT mv[NW]; KT keys[NW]; size_t i,n=0,k,ops=vh_chance(1,8)?250:vh_below(70); u64 sig=0; int ch=0; \
	dir=vh_chance(1,4)?-1:1; \
	bmap(KT,VT) st,*b; int dyn=vh_chance(1,2); if(dyn) b=bmap_new(CMP); else { memset(&st,0x33,sizeof st); b=(void*)&st; bmap_init(b,CMP); } \
	VH_CHECK(b,"new","bmap_new failed"); memset(mv,0,sizeof mv); memset(keys,0,sizeof keys); \
	for(i=0;i<NW;i++) { MKKEY(keys[i],i); } \
	for(k=0;k<ops;k++) { int id=vh_below(NW); KT key=keys[id]; VT v; vh_bytes(&v,sizeof v); int op=vh_below(100); ssize_t r; const char*nm; \
		/* expected index of key */ \
		size_t ei=0; for(i=0;i<NW;i++) if(present[i] && CMP(&keys[i],&key)<0) ei++; \
		if(op<45) { VH_TRACE("insert key %d%s",id,present[id]?" (overwrite)":""); r=bmap_insert(b,key,v); nm="insert"; VH_CHECK(r==(ssize_t)ei,"insert-idx","insert reported index %zd, key is at %zu of %zu",r,ei,n+!present[id]); if(present[id]) VH_COUNT("overwrite",1); else { present[id]=1; n++; VH_COUNT("insert new",1); } mv[id]=v; ch++; } \
		else if(op<52) { if(present[id]) continue; VH_TRACE("insert_nocheck %d",id); r=bmap_insert_nocheck(b,key,v); nm="insert_nocheck"; VH_CHECK(r==(ssize_t)ei,"insert-idx","insert_nocheck reported %zd, key is at %zu",r,ei); present[id]=1; n++; mv[id]=v; ch++; VH_COUNT("nocheck",1); } \
		else if(op<64) { nm="find"; r=bmap_find(b,key); VH_TRACE("find %d -> %zd",id,r); VH_CHECK(r==(present[id]?(ssize_t)ei:-1),"find","find gave %zd, want %zd",r,present[id]?(ssize_t)ei:(ssize_t)-1); if(present[id]) VH_COUNT("find hit",1); else VH_COUNT("find miss",1); VH_CHECK(!!bmap_contains(b,key)==present[id],"contains","contains wrong"); } \
		else if(op<76) { VT *p; nm="get"; p=bmap_get(b,key); VH_TRACE("get %d",id); if(present[id]) { VH_CHECK(p&&!memcmp(p,&mv[id],sizeof v),"get","get of present key wrong (%p)",(void*)p); VH_COUNT("get hit",1); } else { VH_CHECK(!p,"get","get of absent key not NULL"); VH_COUNT("get miss",1); } } \
		else if(op<84) { if(!present[id]) continue; VH_TRACE("setvalue at %zu",ei); nm="setvalue"; bmap_setvalue(b,v,ei); mv[id]=v; ch++; } \
		else { if(!present[id]) continue; nm="delete"; VH_TRACE("delete index %zu of %zu",ei,n); size_t pos=ei; switch(vh_below(3)) { case 0: bmap_delete(b,pos); break; case 1: bmap_delete(b,bmap_find(b,key)); break; default: if(ei==n-1) bmap_delete(b,bmap_getsize(b)-1); else bmap_delete(b,ei+0); } present[id]=0; n--; ch++; VH_COUNT("delete",1); } \
		VH_CHECK(bmap_getsize(b)==n,"size","after %s: size %zu want %zu",nm,(size_t)bmap_getsize(b),n); \
		for(i=0;i<n;i++) { KT kk=bmap_getkey(b,i); int q=KEYID(kk,keys); VH_CHECK(q>=0&&q<NW&&present[q],"walk","after %s: index %zu has a key that is not in the map",nm,i); \
			VH_CHECK(!memcmp(&bmap_getval(b,i),&mv[q],sizeof v),"value","after %s: value of key %d (index %zu of %zu) differs",nm,q,i,n); \
			if(i) VH_CHECK(CMP(&bmap_getkey(b,i-1),&kk)<0,"order","after %s: keys %zu and %zu not ascending",nm,i-1,i); } \
		sig=vh_hashu(op*64+id,sig); } \
	VH_CHECK(bmap_getkeysize(b)==sizeof(KT)&&bmap_getvalsize(b)==sizeof(VT),"sizes","key/value size"); \
	if(ch>=3) vh_seen(sig); vh_sample("bmap keysize=%zu valsize=%zu ops=%zu final=%zu",sizeof(KT),sizeof(VT),ops,n); \
	bmap_fini(b,0); if(dyn) free(b);
static u64 salt;
#define MKI(dst,i) dst=(int)((i*2654435761u)^salt)
#define IDI(k,keys) ({ int q_=-1; for(int z_=0;z_<NW;z_++) if(keys[z_]==k) q_=z_; q_; })
#define MKS(dst,i) dst=words[i]
#define IDS(k,keys) ({ int q_=-1; for(int z_=0;z_<NW;z_++) if(!strcmp(keys[z_],k)) q_=z_; q_; })
#define MKK(dst,i) (dst.k=(short)(i*4099+salt), dst.payload=i)
#define IDK(kk_,keys) ({ int q_=-1; for(int z_=0;z_<NW;z_++) if(keys[z_].k==kk_.k && keys[z_].payload==kk_.payload) q_=z_; q_; })
static int cmp12(const void*a,const void*b) { const k12*x=a,*y=b; return dir*(x->b<y->b?-1:x->b>y->b?1:x->c<y->c?-1:x->c>y->c); }
static int cmp3(const void*a,const void*b) { return dir*memcmp(a,b,3); }
static int cmp101(const void*a,const void*b) { const k101*x=a,*y=b; int r=x->a<y->a?-1:x->a>y->a; return dir*(r?r:memcmp(x->x,y->x,93))*1000000; }
#define MK12(dst,i) (dst.a=-(int)i,dst.b=(int)((i/3*2654435761u)^salt),dst.c=i%3-1)
#define MK3(dst,i) (dst.b[0]=(i*37)^salt,dst.b[1]=i*101,dst.b[2]=i)
#define MK101(dst,i) (dst.a=(i/2)*0x0123456789abcdefull,memset(dst.x,0,93),dst.x[92]=i)
#define IDM(kk_,keys) ({ int q_=-1; for(int z_=0;z_<NW;z_++) if(!memcmp(&keys[z_],&kk_,sizeof kk_)) q_=z_; q_; })
static void k12i(void) { BODY(k12,int,cmp12,MK12,IDM) }
static void k3b(void) { BODY(k3,k101,cmp3,MK3,IDM) }
static void kbig(void) { BODY(k101,k3,cmp101,MK101,IDM) }
static void ii(void) { BODY(int,int,cmpi,MKI,IDI) }
static void ib(void) { BODY(int,big,cmpi,MKI,IDI) }
static void sc(void) { BODY(char*,char,cmps,MKS,IDS) }
static void sb(void) { BODY(char*,big,cmps,MKS,IDS) }
static void kb(void) { BODY(skey,u64,cmpk,MKK,IDK) }
static void history(u64 idx) { salt=vh_chance(1,3)?0:(u32)vh_rnd(); switch(idx%8) { case 5: k12i(); break; case 6: k3b(); break; case 7: kbig(); break; case 0: ii(); break; case 1: ib(); break; case 2: sc(); break; case 3: sb(); break; default: kb(); } }
/* many distinct keys, mirrored in a direct-address table */
static void large(u64 idx) {
	enum { U=4096 }; static int val[U]; static char pr[U]; size_t n=0,k,ops=200+vh_size(vh_thorough?8000:2500); bmap(int,int) *b=bmap_new(cmpi); u64 sig=ops; int pat=vh_below(4); memset(pr,0,sizeof pr); dir=1;
	for(k=0;k<ops;k++) {
		int key=pat==0?(int)(k%U):pat==1?(int)(U-1-k%U):(int)vh_below(U), v=(int)vh_rnd(); if(vh_chance(1,5)&&n) {
			size_t p=vh_below(n); int kk=bmap_getkey(b,p); VH_CHECK(kk>=0&&kk<U&&pr[kk]&&val[kk]==bmap_getval(b,p),"large","index %zu holds wrong entry",p); bmap_delete(b,p); pr[kk]=0; n--; VH_COUNT("delete",1);
		} else { ssize_t r=bmap_insert(b,key,v); VH_CHECK(r>=0&&(size_t)r<n+1,"large","insert index %zd",r); VH_CHECK(bmap_getkey(b,r)==key&&bmap_getval(b,r)==v,"insert-idx","entry not at reported index %zd",r); if(!pr[key]) n++; pr[key]=1; val[key]=v; sig=vh_hashu(key,sig); }
		VH_CHECK(bmap_getsize(b)==n,"size","size %zu want %zu",(size_t)bmap_getsize(b),n);
		if(vh_chance(1,100)||k+1==ops) { size_t i,j=0; for(i=0;i<U;i++) { int q=i; ssize_t f=bmap_find(b,q); VH_CHECK((f!=-1)==pr[i],"find","key %d presence wrong",q); if(pr[i]) { VH_CHECK(f==(ssize_t)j,"find","key %d at %zd want %zu",q,f,j); VH_CHECK(bmap_getval(b,j)==val[i],"value","value of %d",q); j++; } } }
	}
	vh_seen(sig); bmap_fini(b,0); free(b);
}
/* several maps of the same type alive at once, used in turn */
static void several(u64 idx) {
	enum { N=3, K=24 }; bmap(int,u64)*b[N]; int pr[N][K]; u64 mv[N][K]; size_t i,j,k; u64 sig=idx%2; memset(pr,0,sizeof pr); dir=1; for(i=0;i<N;i++) b[i]=(void*)bmap_new(cmpi);
	for(k=0;k<120;k++) { i=vh_below(N); int key=vh_chance(1,2)?(int)vh_below(K):5,op=vh_below(10); u64 v=vh_chance(1,4)?7:vh_rnd(); ssize_t r; size_t ei=0; for(j=0;(int)j<key;j++) ei+=pr[i][j]; sig=vh_hashu((op*4+i)*32+key,sig); VH_TRACE("map %zu op %d key %d",i,op,key);
		if(op<4) { r=bmap_insert(b[i],key,v); VH_CHECK(r==(ssize_t)ei,"insert-idx","map %zu: insert gave %zd want %zu",i,r,ei); pr[i][key]=1; mv[i][key]=v; } else if(op<6&&pr[i][key]) { if(vh_chance(1,2)) bmap_delete(b[i],ei); else bmap_delete(b[i],bmap_find(b[i],key)); pr[i][key]=0; } else if(op==6&&pr[i][key]) { bmap_setvalue(b[i],v,ei); mv[i][key]=v; } else if(op==7&&vh_chance(1,4)) { bmap_fini(b[i],0); free(b[i]); b[i]=(void*)bmap_new(cmpi); memset(pr[i],0,sizeof pr[i]); }
		/* the same key in every map, then everything */
		for(j=0;j<N;j++) { u64*g; r=bmap_find(b[j],key); VH_CHECK((r!=-1)==pr[j][key],"find","map %zu after an operation on map %zu: key %d found at %zd",j,i,key,r); g=bmap_get(b[j],key); VH_CHECK(!!g==pr[j][key]&&(!g||*g==mv[j][key]),"get","map %zu after an operation on map %zu: value of key %d",j,i,key); }
		for(j=0;j<N;j++) { size_t c=0; int q; for(q=0;q<K;q++) if(pr[j][q]) { VH_CHECK(c<(size_t)bmap_getsize(b[j])&&bmap_getkey(b[j],c)==q&&bmap_getval(b[j],c)==mv[j][q],"walk","map %zu entry %zu after an operation on map %zu",j,c,i); c++; } VH_CHECK((size_t)bmap_getsize(b[j])==c,"size","map %zu: size",j); } }
	for(i=0;i<N;i++) { bmap_fini(b[i],0); free(b[i]); } VH_COUNT("maps used in turn",1); vh_seen(sig);
}
/* more than 2^16 keys */
static int cmpu(const void*a,const void*b) { u64 x=*(u64*)a,y=*(u64*)b; return dir*(x<y?-1:x>y); }
static void wide(u64 idx) {
	size_t n=65528+vh_below(20)+(vh_chance(1,3)?65536:0),i,k,p; u64*mk=xmalloc((n+99)*8); u32*mv=xmalloc((n+99)*4); bmap(u64,u32)*b=bmap_new(cmpu); u64 sig=n; dir=1;
	for(i=0;i<n;i++) { u64 key=i*3; u32 v=(u32)i*2654435761u; ssize_t r=vh_chance(1,2)?bmap_insert(b,key,v):bmap_insert_nocheck(b,key,v); VH_CHECK(r==(ssize_t)i,"insert-idx","insert of key %zu gave %zd",i,r); mk[i]=key; mv[i]=v; }
	for(k=0;k<48;k++) { p=vh_chance(1,3)?65534+vh_below(5):vh_chance(1,2)?n-1-vh_below(9):vh_below(n); if(p>=n) p=n-1; u64 key=mk[p]; u32 v=vh_rnd(); ssize_t r; sig=vh_hashu(p,sig);
		switch(k%4) { case 0: if(p+1<n&&mk[p]+1<mk[p+1]) { key++; r=bmap_insert(b,key,v); VH_CHECK(r==(ssize_t)p+1,"insert-idx","insert at %zu of %zu reported %zd",p+1,n,r); memmove(mk+p+2,mk+p+1,(n-p-1)*8); memmove(mv+p+2,mv+p+1,(n-p-1)*4); mk[p+1]=key; mv[p+1]=v; n++; } break;
		case 1: r=bmap_insert(b,key,v); VH_CHECK(r==(ssize_t)p,"insert-idx","overwrite at %zu reported %zd",p,r); mv[p]=v; break;
		case 2: if(vh_chance(1,2)) bmap_delete(b,bmap_find(b,key)); else bmap_delete(b,p); memmove(mk+p,mk+p+1,(n-p-1)*8); memmove(mv+p,mv+p+1,(n-p-1)*4); n--; break;
		default: bmap_setvalue(b,v,p); mv[p]=v; }
		VH_CHECK(bmap_getsize(b)==n,"size","size %zu want %zu",(size_t)bmap_getsize(b),n);
		for(i=0;i<40;i++) { p=i<12?65530+i:vh_chance(1,2)?vh_below(n):n-1-vh_below(6); if(p>=n) continue; key=mk[p]; r=bmap_find(b,key); VH_CHECK(r==(ssize_t)p,"find","key at %zu of %zu found at %zd",p,n,r); u32*g=bmap_get(b,key); VH_CHECK(g&&*g==mv[p],"get","value of key %zu of %zu",p,n); key+=2; { int have=0; size_t w; for(w=p;w<p+4&&w<n;w++) if(mk[w]==key) have=1; VH_CHECK(have==(bmap_find(b,key)!=-1),"find","presence of key %llu wrong",(unsigned long long)key); } }
		if(k%12==11) for(i=0;i<n;i++) VH_CHECK(bmap_getkey(b,i)==mk[i]&&bmap_getval(b,i)==mv[i],"walk","entry %zu of %zu differs",i,n); }
	VH_COUNT("wide maps",1); vh_seen(sig); bmap_fini(b,0); free(b); xfree(mk); xfree(mv);
}
#ifdef HUGE
static u8*hk; static size_t tgt; static int cmpaddr(const void*k,const void*e) { size_t at=(u8*)e-hk; (void)k; return tgt<at?-1:tgt>at; }
static void huge(u64 idx) { /* as many one-byte keys as have no other place: compared by their position */
	bmap(u8,u8) st,*b=&st; size_t n=(5ull<<30)+vh_below(999); bmap_init(b,cmpaddr); b->keys.items=mmap(0,n+1,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); b->values.items=mmap(0,n+1,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if((void*)b->keys.items==MAP_FAILED||(void*)b->values.items==MAP_FAILED) vh_internal("mmap"); b->keys.count=b->values.count=n; b->keys.capa=b->values.capa=n+1; hk=(u8*)b->keys.items; u8*hv=(u8*)b->values.items; u8 k=0; VH_CHECK(bmap_getsize(b)==n,"huge","size");
	for(int i=0;i<20;i++) { tgt=i&1?n-1-vh_below(100):i&2?(1ull<<32)-2+vh_below(5):n/2+vh_below(n/2); ssize_t r=bmap_find(b,k); VH_CHECK(r==(ssize_t)tgt,"huge","key at %zu of %zu found at %zd",tgt,n,r); VH_CHECK(bmap_get(b,k)==hv+tgt,"huge","value of the key at %zu",tgt); bmap_setvalue(b,i+1,tgt); VH_CHECK(hv[tgt]==i+1&&bmap_getval(b,tgt)==i+1,"huge","value set at %zu",tgt); hk[tgt]=i; VH_CHECK(bmap_getkey(b,tgt)==i,"huge","key at %zu",tgt); r=bmap_insert(b,k,99); VH_CHECK(r==(ssize_t)tgt&&hv[tgt]==99&&bmap_getsize(b)==n,"huge","overwriting at %zu: %zd",tgt,r); }
	tgt=n; VH_CHECK(bmap_find(b,k)==-1&&!bmap_get(b,k),"huge","found a key that is not there"); hv[n-1]=7; hv[n-2]=6; bmap_delete(b,n-2); VH_CHECK(bmap_getsize(b)==n-1&&hv[n-2]==7,"huge","deletion at %zu",n-2);
	VH_COUNT("huge maps",1); vh_seen(n); munmap(hk,n+1); munmap(hv,n+1);
}
const vh_mode vh_modes[]={{"huge",huge,2,8},{0}};
#else
const vh_mode vh_modes[]={{"wide",wide,24,400},{"several",several,2400,80000},{"history",history,20000,700000},{"large",large,160,3000},{0}};
#endif
