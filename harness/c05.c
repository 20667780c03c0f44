/* C05: hashlist */
#include "vh.h"
#include "hashlist.h"
const char *const vh_rule="random histories of adds over bucket counts 1..70, value sizes 1..200, hashes incl. extremes; removals through the returned list; both iterators checked against a model after every few operations; distinct = hash of history, >=3 values";
const char *const vh_required[]={"adds","iterations","iterated over emptied bucket","iterated empty list","bucket iterations","removed values","many buckets","wide lists","interleaved iterators",0};
typedef struct { u32 hash; u8 d[200]; } rec;
static int havehash; 
static void check(hashlist *h, rec *r, size_t n, size_t bc, size_t ds, const u8 *created, const char *op) {
	size_t b,i; sblist *l;
	for(b=0;b<bc;b++) { /* list of a bucket = values of all hashes in that bucket in insertion order */
		size_t c=0; l=hashlist_get(h,(u32)b); for(i=0;i<n;i++) if(r[i].hash%bc==b) { VH_CHECK(l,"get-null","bucket list is NULL though values were added"); void*p=sblist_get(l,c); VH_CHECK(p&&!memcmp(p,r[i].d,ds),"content","%s: value %zu of hash %u differs or is missing",op,c,r[i].hash); c++; }
		VH_CHECK((l?sblist_getsize(l):0)==c,"count","%s: list for hash %zu has %zu values, %zu were added",op,b,l?(size_t)sblist_getsize(l):0,c);
		if(!created[b]) VH_CHECK(!l||sblist_empty(l),"phantom","%s: values for a hash never added",op);
	}
	{ hashlist_iterator it; hashlist_iterator_init(&it); u8 *p; u8 seen[400]={0}; size_t c=0; while((p=hashlist_next(h,&it))) { VH_CHECK(c<n,"iterate","%s: iterator yields more than %zu values",op,n); int hit=0; for(b=0;b<bc&&!hit;b++) { l=hashlist_get(h,b); if(!l) continue; for(i=0;i<sblist_getsize(l);i++) if(sblist_get(l,i)==p) { /* unique address */ size_t q=0,k; for(k=0;k<n;k++) if(r[k].hash%bc==b) { if(q==i) break; q++; } VH_CHECK(!seen[k],"iterate","%s: value visited twice",op); seen[k]=1; VH_CHECK(!memcmp(p,r[k].d,ds),"iterate","bytes"); hit=1; break; } }
		VH_CHECK(hit,"iterate","%s: iterator returned something that is no stored value",op); c++; }
	  VH_CHECK(c==n,"iterate","%s: value iterator visited %zu of %zu",op,c,n); VH_CHECK(!hashlist_next(h,&it)&&!hashlist_next(h,&it),"iterate-end","%s: iterator does not stay at end",op); VH_COUNT("iterations",1); if(!n) VH_COUNT("iterated empty list",1);
	  int em=0; for(b=0;b<bc;b++) { l=hashlist_get(h,b); if(l&&sblist_empty(l)) em=1; } if(em&&n) VH_COUNT("iterated over emptied bucket",1); }
	{ hashlist_bucket_iterator it; hashlist_bucket_iterator_init(&it); u8 sb[128]={0}; size_t c=0; while((l=hashlist_bucket_next(h,&it))) { for(b=0;b<bc;b++) if(hashlist_get(h,b)==l) break; VH_CHECK(b<bc,"bucket-iter","%s: bucket iterator gave an unknown list",op); VH_CHECK(!sb[b],"bucket-iter","%s: bucket visited twice",op); sb[b]=1; VH_CHECK(++c<=bc,"bucket-iter","endless"); }
	  for(b=0;b<bc;b++) { l=hashlist_get(h,b); if(l&&sblist_getsize(l)) VH_CHECK(sb[b],"bucket-iter","%s: used bucket %zu not visited",op,b); } VH_CHECK(!hashlist_bucket_next(h,&it),"bucket-iter","not at end"); VH_COUNT("bucket iterations",1); }
}
static void history(u64 idx) {
	size_t bc=1+vh_below(vh_chance(1,2)?4:70),ds=vh_chance(1,2)?8:1+vh_below(200),n=0,k,ops=vh_below(vh_chance(1,6)?300:50); static rec r[400]; u8 created[128]={0}; u64 sig=bc*1000+ds; if(idx<8) bc=1+idx;
	hashlist *h=hashlist_new(bc,ds); VH_CHECK(h,"new","hashlist_new"); check(h,r,0,bc,ds,created,"creation"); u8 *it=vh_gbuf(ds); int rem=vh_chance(1,2);
	for(k=0;k<ops&&n<390;k++) {
		if(n&&rem&&vh_chance(1,4)) { /* remove through the list, as user code does */
			size_t b=r[vh_below(n)].hash%bc,i,q=0; sblist*l=hashlist_get(h,b); size_t pos=vh_below(sblist_getsize(l)); int all=vh_chance(1,3);
			do { if(all) pos=0; VH_TRACE("remove bucket %zu pos %zu",b,pos); sblist_delete(l,pos); q=0; for(i=0;i<n;i++) if(r[i].hash%bc==b) { if(q==pos) break; q++; } memmove(r+i,r+i+1,(n-i-1)*sizeof*r); n--; VH_COUNT("removed values",1); } while(all&&sblist_getsize(l));
		} else { u32 hash=vh_chance(1,2)?vh_below(bc*2):vh_chance(1,8)?0xffffffffu-vh_below(3):(u32)vh_rnd(); vh_bytes(it,ds); memcpy(r[n].d,it,ds); r[n].hash=hash; int rc=hashlist_add(h,hash,it); VH_TRACE("add hash %u -> %d",hash,rc); VH_CHECK(rc==0,"ret","add returned %d",rc); n++; created[hash%bc]=1; sig=vh_hashu(hash,sig); VH_COUNT("adds",1); VH_CHECK(hashlist_get(h,hash)!=0,"get-null","get of just added hash");
		  VH_CHECK(!memcmp(it,r[n-1].d,ds),"item-modified","value modified"); }
		if(vh_chance(1,3)||k+1==ops) check(h,r,n,bc,ds,created,"history");
	}
	if(n>=3) vh_seen(sig); vh_sample("hashlist buckets=%zu valuesize=%zu ops=%zu final=%zu",bc,ds,ops,n);
	hashlist_free(h); vh_gfree(it);
}
/* several lists and iterators at once: each advances on its own */
static void interleave(u64 idx) {
	hashlist*h[3]; size_t n[3],nl=1+vh_below(3),ni=2+vh_below(4),i,j,left; u8 seen[6][60]={{0}},bs_[6][80]={{0}}; struct { size_t l; int bucket,done; size_t c; hashlist_iterator v; hashlist_bucket_iterator b; } it[6]; u64 sig=nl*10+ni; u32 v;
	for(i=0;i<nl;i++) { size_t bc=1+vh_below(vh_chance(1,2)?5:70); h[i]=hashlist_new(bc,4); VH_CHECK(h[i],"new","hashlist_new"); n[i]=vh_below(50); for(v=0;v<n[i];v++) { u32 q=v|(u32)i<<8; VH_CHECK(hashlist_add(h[i],vh_chance(1,2)?vh_below(4):(u32)vh_rnd(),&q)==0,"ret","add"); } sig=vh_hashu(n[i]*100+bc,sig); }
	for(j=0;j<ni;j++) { it[j].l=vh_below(nl); it[j].bucket=vh_chance(1,4); it[j].done=0; it[j].c=0; hashlist_iterator_init(&it[j].v); hashlist_bucket_iterator_init(&it[j].b); }
	for(left=ni;left;) { size_t st=vh_chance(1,3)?1+vh_below(60):1; j=vh_below(ni); if(it[j].done) { /* restart now and then; asking a finished one again gives nothing */ if(it[j].bucket) VH_CHECK(!hashlist_bucket_next(h[it[j].l],&it[j].b),"bucket-iter","not at end"); else VH_CHECK(!hashlist_next(h[it[j].l],&it[j].v),"iterate-end","iterator does not stay at end"); continue; }
		while(st--&&!it[j].done) { size_t l=it[j].l; if(it[j].bucket) { sblist*b=hashlist_bucket_next(h[l],&it[j].b); VH_TRACE("bucket iterator %zu of list %zu: %p",j,l,(void*)b); if(!b) { size_t w=0; for(i=0;i<h[l]->bucketcount;i++) { sblist*x=hashlist_get(h[l],i); if(x&&sblist_getsize(x)) w++; } VH_CHECK(it[j].c==w,"bucket-iter","interleaved: bucket iterator gave %zu of %zu lists",it[j].c,w); it[j].done=1; left--; } else { for(i=0;i<h[l]->bucketcount;i++) if(hashlist_get(h[l],i)==b) break; VH_CHECK(i<h[l]->bucketcount,"bucket-iter","interleaved: list of another hash list"); VH_CHECK(!bs_[j][i],"bucket-iter","interleaved: bucket twice"); bs_[j][i]=1; it[j].c+=!!sblist_getsize(b); } }
			else { u32*p=hashlist_next(h[l],&it[j].v); VH_TRACE("iterator %zu of list %zu: %x",j,l,p?*p:-1u); if(!p) { VH_CHECK(it[j].c==n[l],"iterate","interleaved: iterator visited %zu of %zu values",it[j].c,n[l]); it[j].done=1; left--; } else { VH_CHECK(*p>>8==l&&(*p&255)<n[l],"iterate","interleaved: value %x of another list",*p); VH_CHECK(!seen[j][*p&255],"iterate","interleaved: value %x visited twice",*p); seen[j][*p&255]=1; it[j].c++; } } } }
	VH_COUNT("interleaved iterators",1); vh_seen(sig); for(i=0;i<nl;i++) hashlist_free(h[i]);
}
/* bucket counts beyond 8 and 16 bits; values of one hash in a list of their own */
static void many(u64 idx) {
	static const u32 BC[]={256,257,1000,65535,65536,65537,70001,131072,262145}; size_t bc=BC[idx%9],n=0,i,k,ds=1+vh_below(40),ops=5+vh_below(120); u32 hs[130]; u8 id[130]; hashlist*h=hashlist_new(bc,ds); VH_CHECK(h,"new","hashlist_new(%zu,%zu)",bc,ds);
	u8*it=vh_gbuf(ds); for(k=0;k<ops;k++) { u32 x=vh_chance(1,3)?(u32)(bc-1-vh_below(3)):vh_chance(1,3)?(u32)(65536*vh_below(3)+vh_below(4)):vh_chance(1,3)?(u32)(256*vh_below(4)+vh_below(4)):vh_chance(1,4)?0xffffffffu-vh_below(4):(u32)vh_rnd(); memset(it,(int)k,ds); VH_CHECK(hashlist_add(h,x,it)==0,"ret","add"); hs[n]=x; id[n++]=k; }
	size_t total=0; for(k=0;k<n;k++) { sblist*l=hashlist_get(h,hs[k]); size_t c=0; VH_CHECK(l,"get-null","no list for an added hash"); for(i=0;i<n;i++) if(hs[i]%bc==hs[k]%bc) { u8*p=sblist_get(l,c++); memset(it,id[i],ds); VH_CHECK(p&&!memcmp(p,it,ds),"content","value for hash %u missing from its list (%zu buckets)",hs[i],bc); } VH_CHECK(sblist_getsize(l)==c,"count","list of hash %u has %zu values, want %zu (%zu buckets)",hs[k],(size_t)sblist_getsize(l),c,bc); }
	hashlist_iterator vi; hashlist_iterator_init(&vi); u8*p; u8 seen[130]={0}; while((p=hashlist_next(h,&vi))) { VH_CHECK(*p<n&&!seen[*p],"iterate","value visited twice or unknown"); seen[*p]=1; total++; } VH_CHECK(total==n,"iterate","visited %zu of %zu values in %zu buckets",total,n,bc);
	hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); sblist*l; total=0; while((l=hashlist_bucket_next(h,&bi))) { VH_CHECK(total<=n,"bucket-iter","endless"); total+=sblist_getsize(l); } VH_CHECK(total==n,"bucket-iter","buckets visited hold %zu of %zu values",total,n); VH_COUNT("many buckets",1);
	vh_seen(vh_hash(hs,n*4,bc)); hashlist_free(h); vh_gfree(it);
}
/* more than 2^16 values in a bucket, values longer than 2^16 bytes */
static void wide(u64 idx) {
	if(idx%2) { size_t bc=1+vh_below(3),n=65530+vh_below(3000),i,c[4]={0}; u32 v; hashlist*h=hashlist_new(bc,4); u32 tgt=vh_rnd(); for(i=0;i<n;i++) { v=i; VH_CHECK(hashlist_add(h,tgt,&v)==0,"ret","add"); c[tgt%bc]++; } for(i=0;i<5;i++) { v=n+i; VH_CHECK(hashlist_add(h,tgt+1+(u32)i*(u32)bc,&v)==0,"ret","add"); c[(u32)(tgt+1+i*bc)%bc]++; }
		sblist*l=hashlist_get(h,tgt); VH_CHECK(l&&sblist_getsize(l)==c[tgt%bc],"count","list has %zu of %zu values",l?(size_t)sblist_getsize(l):0,c[tgt%bc]); for(i=0;i<n;i++) { u32*p=sblist_get(l,i); VH_CHECK(p&&*p==i,"content","value %zu",i); } hashlist_iterator it; hashlist_iterator_init(&it); u8*seen=xcalloc(n+5,1); size_t k=0; u32*p; while((p=hashlist_next(h,&it))) { VH_CHECK(*p<n+5&&!seen[*p],"iterate","value visited twice or unknown after %zu of %zu",k,n+5); seen[*p]=1; k++; } VH_CHECK(k==n+5,"iterate","visited %zu of %zu values",k,n+5);
		xfree(seen); vh_seen(vh_hashu(tgt,n)); hashlist_free(h); }
	else { size_t ds=65530+vh_below(vh_chance(1,2)?12:70000),i,k,n=3+vh_below(8); hashlist*h=hashlist_new(3,ds); u8*b=vh_gbuf(ds); u32 hs[12]; for(i=0;i<n;i++) { hs[i]=vh_rnd(); memset(b,i+1,ds); b[ds-1]=0x80+i; VH_CHECK(hashlist_add(h,hs[i],b)==0,"ret","add"); }
		for(i=0;i<n;i++) { sblist*l=hashlist_get(h,hs[i]); size_t c=0; for(k=0;k<n;k++) if(hs[k]%3==hs[i]%3) { u8*p=sblist_get(l,c++); memset(b,k+1,ds); b[ds-1]=0x80+k; VH_CHECK(p&&!memcmp(p,b,ds),"content","value %zu of %zu bytes differs",k,ds); } VH_CHECK(sblist_getsize(l)==c,"count","list size"); } vh_seen(vh_hashu(ds,n)); hashlist_free(h); vh_gfree(b); }
	VH_COUNT("wide lists",1);
}
const vh_mode vh_modes[]={{"wide",wide,30,400},{"many-buckets",many,500,9000},{"interleave",interleave,4000,120000},{"history",history,12000,400000},{0}};
