/* C01: sblist & the lists built on it against a plain-array model */
#include "vh.h"
#include "sblist.h"
#include "sptrlist.h"
#include "stringlist.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "kvlist.h"

const char *const vh_rule = "random operation histories over item sizes 1..9000, block sizes incl. 0, lists created new/init/from-data; after every operation the whole list is compared with an array model; distinct = hash of the full history with at least 3 state-changing operations";
#ifdef HUGE
const char *const vh_required[] = {"huge lists",0};
#else
const char *const vh_required[] = {"add","insert","set","delete","pop","sort","insert_sorted","bsearch hit","bsearch miss","refused insert","refused set","refused delete","from_data","block0","growths","big item","wrapper ops","wide lists","wide items","wide typed lists","lists used in turn","kv repeated keys","kv lookups far from the end","items beyond the stack",0};
#endif

typedef struct { u8 *d; size_t n, isz; size_t cap; } model;
static void m_ins(model *m, size_t pos, const void *it) {
	if((m->n+1)*m->isz > m->cap) { m->cap = (m->n+1)*m->isz*2; m->d = xrealloc(m->d, m->cap); }
	memmove(m->d+(pos+1)*m->isz, m->d+pos*m->isz, (m->n-pos)*m->isz);
	memcpy(m->d+pos*m->isz, it, m->isz); m->n++;
}
static void m_del(model *m, size_t pos) { memmove(m->d+pos*m->isz, m->d+(pos+1)*m->isz, (m->n-pos-1)*m->isz); m->n--; }

static void full(sblist *l, model *m, const char *op) {
	size_t i;
	VH_CHECK(sblist_getsize(l)==m->n, "count", "after %s: list reports %zu items, model has %zu", op, (size_t)sblist_getsize(l), m->n);
	VH_CHECK(!!sblist_empty(l)==(m->n==0), "empty", "after %s: empty flag wrong", op);
	for(i=0;i<m->n;i++) {
		u8 *p = sblist_get(l,i);
		VH_CHECK(p, "get-null", "after %s: get(%zu) of %zu is NULL", op, i, m->n);
		VH_CHECK(!memcmp(p, m->d+i*m->isz, m->isz), "content", "after %s: item %zu of %zu differs: %s want %s", op, i, m->n, vh_esc(p,m->isz), vh_esc(m->d+i*m->isz,m->isz));
	}
	VH_CHECK(!sblist_get(l,m->n), "get-oob", "after %s: get(count) not NULL", op);
	VH_CHECK(!sblist_get(l,m->n+1+vh_below(1000)), "get-oob", "after %s: get beyond count not NULL", op);
	VH_CHECK(!sblist_get(l,(size_t)-1-vh_below(4)), "get-oob", "after %s: get(-1..) not NULL", op);
	VH_COUNT("full compares",1); VH_COUNT("items compared", m->n);
}
static size_t cmpsz; /* key prefix size */
static int cmp_up(const void *a, const void *b) { return memcmp(a,b,cmpsz); }
static int cmp_down(const void *a, const void *b) { return memcmp(b,a,cmpsz); }
static int cmp_up_r(const void *a, const void *b, void *ctx) { if(ctx != &cmpsz) vh_fail("ctx","compare context not passed through"); return memcmp(a,b,cmpsz); }
static int cmp_big(const void *a, const void *b) { int r=memcmp(a,b,cmpsz); return r<0?-1000000:r>0?2000000:0; }

static size_t pick_isz(void) {
	switch(vh_below(10)) {
	case 0: return 1; case 1: return 2; case 2: return 4; case 3: return 8; case 4: return 3;
	case 5: return 1+vh_below(40); case 6: return 16; case 7: return 1+vh_below(300);
	case 8: { size_t s=vh_size(2000); return s?s:1; }
	default: return vh_chance(1,4) ? 4090+vh_below(20)+(vh_chance(1,3)?4096:0) : 24;
	}
}
static size_t pick_block(void) {
	switch(vh_below(8)) { case 0: case 1: return 0; case 2: return 1; case 3: return 2; case 4: return 3; case 5: return 8; case 6: return 1+vh_below(40); default: return vh_size(600)+1; }
}
static sblist *mk(size_t isz, size_t blk, model *m, int *isinit, sblist *store) {
	sblist *l; *isinit=0;
	m->isz=isz; m->n=0;
	switch(vh_below(4)) {
	case 0: {
		size_t cnt = vh_chance(1,4)?0:vh_below(12), extra = vh_chance(1,3)?vh_below(isz):0, len=cnt*isz+extra, i;
		u8 *data = malloc(len?len:1); u8 *it=xmalloc(isz);
		vh_bytes(data,len);
		for(i=0;i<cnt;i++) m_ins(m,m->n,data+i*isz);
		l = sblist_new_from_data(isz, data, len);
		VH_CHECK(l,"new","new_from_data failed");
		if(vh_chance(1,3)) sblist_set_blockitems(l, blk);
		VH_COUNT("from_data",1); xfree(it);
		VH_TRACE("from_data itemsize=%zu len=%zu", isz, len);
		break; }
	case 1: memset(store,0x5a,sizeof *store); sblist_init(store,isz,blk); l=store; *isinit=1; VH_TRACE("init itemsize=%zu block=%zu",isz,blk); break;
	default: l = sblist_new(isz,blk); VH_CHECK(l,"new","sblist_new failed"); VH_TRACE("new itemsize=%zu block=%zu",isz,blk);
	}
	if(!blk) VH_COUNT("block0",1);
	if(isz>4096) VH_COUNT("big item",1);
	return l;
}
static void history(u64 idx) {
	model m={0}; sblist store, *l; int isinit; size_t isz=pick_isz(), blk=pick_block(); u64 sig=vh_hashu(isz,blk); int changes=0;
	l=mk(isz,blk,&m,&isinit,&store);
	size_t maxops = isz>1000 ? 12 : vh_chance(1,12) ? 400 : 5+vh_below(70), k; int bias=vh_below(4);
	u8 *it = vh_gbuf(isz), *keep=xmalloc(isz);
	full(l,&m,"creation");
	for(k=0;k<maxops;k++) {
		int op=vh_below(100); size_t pos; const char *name="?"; size_t oldcap=m.n;
		vh_bytes(it,isz); memcpy(keep,it,isz);
		if(bias==1 && op>=40 && op<60) op=vh_below(30);
		if(op<22) { int r=sblist_add(l,it); name="add"; VH_TRACE("add"); VH_CHECK(r==1,"ret","add returned %d",r); m_ins(&m,m.n,it); changes++; VH_COUNT("add",1); }
		else if(op<30) { size_t r=sblist_addi(l,it); name="addi"; VH_TRACE("addi"); VH_CHECK(r==m.n,"ret","addi returned %zu, want %zu",r,m.n); m_ins(&m,m.n,it); changes++; }
		else if(op<48) {
			if(vh_chance(1,6)) { pos=m.n+1+(vh_chance(1,2)?0:vh_below(500)); if(vh_chance(1,8)) pos=(size_t)-1-vh_below(3); int r; name="insert(oob)"; VH_TRACE("insert at %zu of %zu",pos,m.n); r=sblist_insert(l,it,pos); VH_CHECK(r==0,"refuse","insert at %zu of %zu returned %d",pos,m.n,r); VH_COUNT("refused insert",1); }
			else { pos=vh_chance(1,4)?m.n:vh_chance(1,4)?0:vh_below(m.n+1); int r; name="insert"; VH_TRACE("insert at %zu of %zu",pos,m.n); r=sblist_insert(l,it,pos); VH_CHECK(r==1,"ret","insert at %zu of %zu returned %d",pos,m.n,r); m_ins(&m,pos,it); changes++; VH_COUNT("insert",1); }
			sig=vh_hashu(pos,sig);
		} else if(op<60) {
			int r; if(m.n && !vh_chance(1,5)) { pos=vh_chance(1,4)?m.n-1:vh_below(m.n); name="set"; VH_TRACE("set %zu",pos); r=sblist_set(l,it,pos); VH_CHECK(r==1,"ret","set returned %d",r); memcpy(m.d+pos*isz,it,isz); changes++; VH_COUNT("set",1); }
			else { pos=m.n+(vh_chance(1,2)?0:vh_below(100)); if(vh_chance(1,8)) pos=-1; name="set(oob)"; VH_TRACE("set %zu of %zu",pos,m.n); r=sblist_set(l,it,pos); VH_CHECK(r==0,"refuse","set outside returned %d",r); VH_COUNT("refused set",1); }
			sig=vh_hashu(pos,sig);
		} else if(op<76) {
			if(m.n && !vh_chance(1,5)) { pos=vh_chance(1,4)?m.n-1:vh_chance(1,4)?0:vh_below(m.n); name="delete"; VH_TRACE("delete %zu of %zu",pos,m.n); sblist_delete(l,pos); m_del(&m,pos); changes++; VH_COUNT("delete",1); }
			else { pos=m.n+(vh_chance(1,2)?0:vh_below(100)); if(vh_chance(1,8)) pos=-1; name="delete(oob)"; VH_TRACE("delete %zu of %zu",pos,m.n); sblist_delete(l,pos); VH_COUNT("refused delete",1); }
			sig=vh_hashu(pos,sig);
		} else if(op<84) {
			u8 *p; name="pop"; VH_TRACE("pop"); p=sblist_pop(l);
			if(!m.n) VH_CHECK(!p,"pop","pop of empty list gave an item");
			else { VH_CHECK(p,"pop","pop gave NULL with %zu items",m.n); VH_CHECK(!memcmp(p,m.d+(m.n-1)*isz,isz),"pop","pop gave wrong item"); m.n--; changes++; VH_COUNT("pop",1); }
		} else if(op<88) {
			name="sort"; cmpsz=isz; VH_TRACE("sort %zu",m.n); int dn=vh_chance(1,3); sblist_sort(l,dn?cmp_down:cmp_up);
			/* whole item is the key: the sorted sequence is unique */
			if(m.n) qsort(m.d,m.n,isz,dn?cmp_down:cmp_up); VH_COUNT("sort",1); changes++;
		} else if(op<90) { sblist_set_blockitems(l,pick_block()); name="set_blockitems"; }
		else if(op<92 && m.n) {
			u8 *p; size_t i=0; name="iter";
			sblist_iter(l,p) { VH_CHECK(i<m.n && !memcmp(p,m.d+i*isz,isz),"iter","iteration item %zu wrong",i); i++; }
			VH_CHECK(i==m.n,"iter","iteration gave %zu of %zu",i,m.n);
			size_t c; i=0; sblist_iter_counter2(l,c,p) { VH_CHECK(c==i && !memcmp(p,m.d+i*isz,isz),"iter","iteration2 item %zu wrong",i); i++; }
			VH_CHECK(i==m.n,"iter","iteration2 gave %zu of %zu",i,m.n);
			ssize_t cs; i=0; sblist_iter_counter2s(l,cs,p) { VH_CHECK(cs==(ssize_t)i && !memcmp(p,m.d+i*isz,isz),"iter","iteration2s item %zu wrong",i); i++; }
			VH_CHECK(i==m.n,"iter","iteration2s gave %zu of %zu",i,m.n);
		} else if(op<93) { name="free_items"; VH_TRACE("free_items"); sblist_free_items(l); m.n=0; }
		else { size_t n=vh_below(30), q; name="burst add"; if(isz>1000) n=2; VH_TRACE("burst add %zu",n); for(q=0;q<n;q++) { vh_bytes(it,isz>64?64:isz); memcpy(keep,it,isz); VH_CHECK(sblist_add(l,it)==1,"ret","add failed"); m_ins(&m,m.n,it); } VH_COUNT("growths",n>0); }
		VH_CHECK(!memcmp(keep,it,isz),"item-modified","%s modified the caller's item",name);
		sig=vh_hashu(op,sig);
		if(m.n*isz<20000 || vh_chance(1,8)) full(l,&m,name);
		else VH_CHECK(sblist_getsize(l)==m.n,"count","after %s: %zu items, model %zu",name,(size_t)sblist_getsize(l),m.n);
	}
	full(l,&m,"history");
	if(changes>=3) vh_seen(sig);
	vh_sample("itemsize=%zu block=%zu %s, %zu ops, final size %zu",isz,blk,isinit?"init":"new",maxops,m.n);
	if(isinit) sblist_free_items(l); else sblist_free(l);
	vh_gfree(it); xfree(keep); xfree(m.d);
}
/* long lists: growth over many blocks, deletions in the middle */
static void bulk(u64 idx) {
	model m={0}; size_t isz=vh_chance(1,2)?4+vh_below(9):8, blk=pick_block(), n=500+vh_size(vh_thorough?20000:4000), i; sblist *l=sblist_new(isz,blk); u8 it[32];
	m.isz=isz;
	for(i=0;i<n;i++) { vh_bytes(it,isz); memcpy(it,&i,4); VH_CHECK(sblist_add(l,it)==1,"ret","add failed"); m_ins(&m,m.n,it);
		if(vh_chance(1,200)) { size_t p=vh_below(m.n); sblist_delete(l,p); m_del(&m,p); }
		if(vh_chance(1,200)) { size_t p=vh_below(m.n+1); VH_CHECK(sblist_insert(l,it,p)==1,"ret","insert failed"); m_ins(&m,p,it); }
	}
	full(l,&m,"bulk"); vh_seen(vh_hash(m.d,m.n*isz,blk)); VH_COUNT("growths",1);
	while(m.n>n/2) { if(vh_chance(1,3)) { u8*p=sblist_pop(l); VH_CHECK(p&&!memcmp(p,m.d+(m.n-1)*isz,isz),"pop","wrong item"); m.n--; } else { size_t p=m.n-1-vh_below(m.n<50?m.n:50); sblist_delete(l,p); m_del(&m,p); } }
	full(l,&m,"bulk delete");
	sblist_free(l); xfree(m.d);
}
/* sorted insertion and binary search */
typedef struct { int pad; unsigned key; } krec;
static int cmp_asym(const void *key, const void *item) { unsigned a=*(const unsigned*)key, b=((const krec*)item)->key; return a<b?-1:a>b; }
static int cmp_asym_r(const void *key, const void *item, void *c) { if(c!=&cmpsz) vh_fail("ctx","compare context not passed through"); return cmp_asym(key,item); }
static void sorted(u64 idx) {
	size_t isz=pick_isz(), blk=pick_block(), n=idx<64?idx:vh_chance(1,10)?vh_below(600):vh_below(60), i,k; if(isz>500) isz=1+isz%40;
	cmpsz = 1+vh_below(isz<4?isz:4); u64 sig=vh_hashu(n,isz);
	int which=vh_below(4); int (*cmp)(const void*,const void*) = which==1?cmp_down:which==2?cmp_big:cmp_up; int alpha=1+vh_below(vh_chance(1,2)?4:200);
	sblist *l=sblist_new(isz,blk); bs all={0}; u8 *it=vh_gbuf(isz), *save=xmalloc(isz);
	for(i=0;i<n;i++) {
		vh_bytes(it,isz); for(k=0;k<cmpsz;k++) it[k]=vh_below(alpha)*(255/alpha);
		memcpy(save,it,isz); sig=vh_hash(it,isz,sig);
		size_t r=which==3?sblist_insert_sorted_r(l,it,cmp_up_r,&cmpsz):sblist_insert_sorted(l,it,cmp);
		VH_TRACE("insert_sorted %s -> %zu",vh_esc(it,isz),r);
		VH_CHECK(!memcmp(save,it,isz),"item-modified","insert_sorted modified the item");
		VH_CHECK(sblist_getsize(l)==i+1,"count","size %zu after %zu sorted inserts",(size_t)sblist_getsize(l),i+1);
		VH_CHECK(r<=i,"sorted-idx","insert_sorted returned %zu with %zu items",r,i+1);
		VH_CHECK(!memcmp(sblist_get(l,r),it,isz),"sorted-idx","item is not at returned index %zu",r);
		bs_put(&all,it,isz);
		for(k=1;k<=i;k++) VH_CHECK(cmp(sblist_get(l,k-1),sblist_get(l,k))<=0,"unsorted","list of %zu not sorted at %zu after sorted insert",i+1,k);
		VH_COUNT("insert_sorted",1);
	}
	/* multiset equality */
	{ u8 *a=xmalloc(n*isz+1); for(i=0;i<n;i++) memcpy(a+i*isz,sblist_get(l,i),isz); cmpsz_save: ; size_t cs=cmpsz; cmpsz=isz; if(n) { qsort(a,n,isz,cmp_up); qsort(all.d,n,isz,cmp_up); VH_CHECK(!memcmp(a,all.d,n*isz),"multiset","sorted inserts lost or duplicated items"); } cmpsz=cs; xfree(a); }
	/* searches: every item, and random keys */
	for(i=0;i<n+30;i++) {
		size_t j,r; int have=0; if(i<n) memcpy(it,sblist_get(l,i),isz); else { vh_bytes(it,isz); for(k=0;k<cmpsz;k++) it[k]=vh_below(alpha+1)*(255/alpha)+vh_below(2); }
		for(j=0;j<n;j++) if(!cmp(it,sblist_get(l,j))) have=1;
		r=which==3?sblist_bsearch_r(l,it,cmp_up_r,&cmpsz):sblist_bsearch(l,it,cmp);
		if(have) { VH_CHECK(r<n && !cmp(it,sblist_get(l,r)),"bsearch","search for present key %s in %zu items gave %zd",vh_esc(it,isz),n,(ssize_t)r); VH_COUNT("bsearch hit",1); }
		else { VH_CHECK(r==(size_t)-1,"bsearch","search for absent key gave %zd",(ssize_t)r); VH_COUNT("bsearch miss",1); }
	}
	if(n>=3) vh_seen(sig);
	vh_sample("sorted: itemsize=%zu keybytes=%zu alphabet=%d n=%zu order=%d",isz,cmpsz,alpha,n,which);
	sblist_free(l); vh_gfree(it); xfree(save); bs_free(&all);
	/* documented argument order: searched-for item first, list item second */
	l=sblist_new(sizeof(krec),blk); n=vh_below(40);
	for(i=0;i<n;i++) { krec r={-1,i*3+1}; sblist_add(l,&r); }
	for(i=0;i<n*3+2;i++) { unsigned key=i; size_t r=vh_chance(1,2)?sblist_bsearch(l,&key,cmp_asym):sblist_bsearch_r(l,&key,cmp_asym_r,&cmpsz); int have=i%3==1 && i/3<n; VH_CHECK(have?r==i/3:r==(size_t)-1,"bsearch","asymmetric search for %u in %zu items gave %zd",key,n,(ssize_t)r); }
	sblist_free(l);
}
/* the typed lists on top */
static void wrappers(u64 idx) {
	size_t n=vh_below(40),i; u64 sig=n;
	{ sptrlist *l=vh_chance(1,2)?sptrlist_new(vh_below(5)):sptrlist_new(0), ls; void *mm[64]; size_t c=0; sptrlist *q=l; if(vh_chance(1,4)) { sptrlist_free(l); sptrlist_init(&ls,vh_below(4)); q=&ls; }
	  for(i=0;i<n;i++) { void *v=(void*)(uintptr_t)vh_rnd(); if(c&&vh_chance(1,4)) { size_t p=vh_below(c); VH_CHECK(sptrlist_set(q,v,p)==1,"sptr","set"); mm[p]=v; } else { VH_CHECK(sptrlist_add(q,v)==1,"sptr","add"); mm[c++]=v; } }
	  VH_CHECK(sptrlist_get_count(q)==c,"sptr","count"); for(i=0;i<c;i++) VH_CHECK(sptrlist_get(q,i)==mm[i],"sptr","pointer %zu differs",i);
	  sig=vh_hash(mm,c*8,sig); if(q==&ls) sptrlist_free_items(q); else sptrlist_free(q); VH_COUNT("wrapper ops",n); }
	{ stringlist *l=stringlist_new(vh_below(9)); char *mm[64]; size_t c=0; int dup[64]; char t[64];
	  for(i=0;i<n;i++) { size_t len=vh_below(60),k; vh_text(t,len,"ab \xff\n",5); t[len]=0; if(c&&vh_chance(1,5)) { size_t p=vh_below(c); free(mm[p]); stringlist_delete(l,p); memmove(mm+p,mm+p+1,(c-p-1)*sizeof*mm); c--; continue; }
	    if(vh_chance(1,2)) { char *e=vh_rstr(t); VH_CHECK(stringlist_add_dup(l,e)==1,"strl","add_dup"); vh_gfree(e); mm[c]=stringlist_get(l,c); VH_CHECK(mm[c]&&!strcmp(mm[c],t),"strl","add_dup content"); c++; }
	    else { char *s=malloc(len+1); memcpy(s,t,len+1); VH_CHECK(stringlist_add(l,s)==1,"strl","add"); mm[c++]=s; } }
	  VH_CHECK(stringlist_getsize(l)==c,"strl","size"); for(i=0;i<c;i++) VH_CHECK(stringlist_get(l,i)==mm[i],"strl","item %zu",i);
	  VH_CHECK(!stringlist_get(l,c),"strl","get beyond end"); { char *r; size_t k=0; stringlist_foreach(l,r) { VH_CHECK(k<c&&r==mm[k],"strl","foreach %zu",k); k++; } VH_CHECK(k==c,"strl","foreach count"); }
	  { size_t k,cc=0; stringlist_iter(l,k) { VH_CHECK(stringlist_get(l,k)==mm[k],"strl","iter"); cc++; } VH_CHECK(cc==c,"strl","iter count"); }
	  if(vh_chance(1,2)) sblist_free_values(l); else for(i=0;i<c;i++) free(mm[i]); stringlist_free(l); VH_COUNT("wrapper ops",n); }
	{ stringptrlist *l=stringptrlist_new(vh_below(9)); stringptr mm[64]; size_t c=0; static char txt[256];
	  for(i=0;i<n;i++) { char *p=txt+vh_below(100); size_t sz=vh_below(50); stringptr v={p,sz}; size_t at; int r;
	    switch(c?vh_below(4):0) { case 0: r=stringptrlist_add(l,p,sz); VH_CHECK(r==1,"spl","add"); mm[c++]=v; break;
	    case 1: at=vh_below(c); r=stringptrlist_set(l,at,p,sz); VH_CHECK(r==1,"spl","set"); mm[at]=v; break;
	    case 2: at=vh_below(c+1); r=stringptrlist_insert(l,at,p,sz); VH_CHECK(r==1,"spl","insert"); memmove(mm+at+1,mm+at,(c-at)*sizeof v); mm[at]=v; c++; break;
	    default: r=stringptrlist_set(l,c+vh_below(5),p,sz); VH_CHECK(r==0,"spl","set outside"); } }
	  VH_CHECK(stringptrlist_getsize(l)==c && !!stringptrlist_empty(l)==!c,"spl","size"); for(i=0;i<c;i++) { stringptr*s=stringptrlist_get(l,i); VH_CHECK(s&&s->ptr==mm[i].ptr&&s->size==mm[i].size,"spl","entry %zu",i); }
	  VH_CHECK(!stringptrlist_get(l,c),"spl","get outside"); stringptrlist_free(l); VH_COUNT("wrapper ops",n); }
	{ kvlist *l=kv_new(vh_below(9)); char keys[64][12]; size_t ks[64]; void *vv[64]; size_t c=0,k;
	  for(i=0;i<n;i++) { size_t s=vh_below(5); vh_text(keys[c],s,"ab\0",3); ks[c]=s; vv[c]=(void*)(uintptr_t)vh_rnd();
	    if(c&&vh_chance(1,4)) { size_t p=vh_below(c); VH_CHECK(kv_set(l,p,keys[p],ks[p],vv[c])==1,"kv","set"); vv[p]=vv[c]; } else { VH_CHECK(kv_add(l,keys[c],s,vv[c])==1,"kv","add"); c++; } }
	  VH_CHECK(kv_getsize(l)==c,"kv","size");
	  for(i=0;i<20;i++) { char q[8]; size_t s=vh_below(6); vh_text(q,s,"ab\0",3); char *g=vh_rdup(q,s); stringptr w={g,s}; void *out=&w,*o0=out; int r=kv_find(l,&w,&out); for(k=0;k<c;k++) if(ks[k]==s&&!memcmp(keys[k],q,s)) break;
	    if(k<c) VH_CHECK(r==1&&out==vv[k],"kv","find of present key %s: r=%d",vh_esc(q,s),r); else VH_CHECK(r==0&&out==o0,"kv","find of absent key r=%d",r); vh_gfree(g); }
	  kv_free(l); VH_COUNT("wrapper ops",n); }
	if(n>3) vh_seen(sig);
}
/* several lists alive at once, used in turn: none may affect another; the same caller buffers are used for all of them */
static void several(u64 idx) {
	enum { N=5 }; sblist *l[N], store[N]; model m[N]; int isinit[N]; size_t n=2+vh_below(N-1),i,k,ops=20+vh_below(120); u64 sig=n; static u8 it[4200]; memset(m,0,sizeof m);
	size_t isz0=pick_isz(); if(isz0>4200) isz0=64; int same=vh_chance(1,2); memset(isinit,0,sizeof isinit);
	for(i=0;i<n;i++) { size_t s=same?isz0:1+vh_below(40); l[i]=mk(s,pick_block(),&m[i],&isinit[i],&store[i]); }
	for(k=0;k<ops;k++) { i=vh_below(n); size_t s=m[i].isz,pos=m[i].n?vh_below(m[i].n):0,b; int op=vh_below(12); if(s>400&&m[i].n>60) op=5; sig=vh_hashu(op*8+i,sig);
		if(vh_chance(2,3)) memset(it,k,s); /* otherwise the same bytes once more */
		VH_TRACE("list %zu: op %d at %zu of %zu",i,op,pos,m[i].n);
		switch(op) {
		case 0: case 1: case 2: VH_CHECK(sblist_add(l[i],it)==1,"ret","add"); m_ins(&m[i],m[i].n,it); break;
		case 3: VH_CHECK(sblist_addi(l[i],it)==m[i].n,"ret","addi"); m_ins(&m[i],m[i].n,it); break;
		case 4: pos=vh_below(m[i].n+1); VH_CHECK(sblist_insert(l[i],it,pos)==1,"ret","insert"); m_ins(&m[i],pos,it); break;
		case 5: if(m[i].n) { sblist_delete(l[i],pos); m_del(&m[i],pos); } break;
		case 6: if(m[i].n) { VH_CHECK(sblist_set(l[i],it,pos)==1,"ret","set"); memcpy(m[i].d+pos*s,it,s); } break;
		case 7: { u8*p=sblist_pop(l[i]); VH_CHECK(!p==!m[i].n,"pop","pop"); if(p) { VH_CHECK(!memcmp(p,m[i].d+(m[i].n-1)*s,s),"pop","pop gave a wrong item"); m[i].n--; } break; }
		case 8: cmpsz=s; sblist_sort(l[i],cmp_up); if(m[i].n) qsort(m[i].d,m[i].n,s,cmp_up); break;
		case 9: { /* two iterations over different lists at the same time */ u8*p,*q; size_t x=0; b=vh_below(n); sblist_iter(l[i],p) { size_t y=0; VH_CHECK(x<m[i].n&&!memcmp(p,m[i].d+x*s,s),"iter","outer iteration item %zu",x); sblist_iter(l[b],q) { VH_CHECK(y<m[b].n&&!memcmp(q,m[b].d+y*m[b].isz,m[b].isz),"iter","inner iteration item %zu",y); y++; } VH_CHECK(y==m[b].n,"iter","inner iteration gave %zu of %zu",y,m[b].n); if(++x>6) break; } break; }
		case 10: if(vh_chance(1,3)) { sblist_free_items(l[i]); m[i].n=0; } break;
		default: if(vh_chance(1,3)) { if(isinit[i]) sblist_free_items(l[i]); else sblist_free(l[i]); xfree(m[i].d); memset(&m[i],0,sizeof m[i]); l[i]=mk(same?isz0:1+vh_below(40),pick_block(),&m[i],&isinit[i],&store[i]); } }
		full(l[i],&m[i],"an operation"); b=vh_below(n); full(l[b],&m[b],"an operation on another list"); }
	for(i=0;i<n;i++) full(l[i],&m[i],"all"); for(i=0;i<n;i++) { if(isinit[i]) sblist_free_items(l[i]); else sblist_free(l[i]); xfree(m[i].d); }
	VH_COUNT("lists used in turn",1);
	/* two key-value lists, the same key buffers, keys repeated: the first entry of a key is found */
	{ size_t n=vh_size(1200),b; kvlist*l=kv_new(vh_chance(1,2)?vh_below(9):vh_below(2000)); u32*kk=xmalloc(n*4+4),mul=vh_rnd()|1; for(k=0;k<n;k++) { kk[k]=k*mul; VH_CHECK(kv_add(l,(char*)(kk+k),4,(void*)(uintptr_t)(k*16+1))==1,"kv","add"); }
	  for(b=0;b<40;b++) { size_t at=b<4?(b&1?b/2:n-1-b/2):vh_below(n+1); if(n>65&&at<n-64) VH_COUNT("kv lookups far from the end",1); u32 q=(u32)at*mul; stringptr w={(char*)&q,4}; void*o=&w; int r=kv_find(l,&w,&o); if(at<n) VH_CHECK(r==1&&o==(void*)(uintptr_t)(at*16+1),"kv","find of key %zu of %zu: r=%d",at,n,r); else VH_CHECK(r==0&&o==&w,"kv","find of absent key (%zu of %zu): r=%d",at,n,r); } kv_free(l); xfree(kk); }
	{ enum { K=40 }; kvlist*kv[2]={kv_new(vh_below(9)),kv_new(vh_below(9))}; struct { char k[5]; size_t s; void*v; } e[2][K]; size_t c[2]={0}; static char pool[6][5]; memset(e,0,sizeof e); for(i=0;i<6;i++) vh_text(pool[i],5,"ab",2);
	  for(k=0;k<70;k++) { int w=vh_below(2); size_t q=vh_below(6),s=vh_chance(1,8)?vh_below(6):5; void*v=(void*)(uintptr_t)vh_rnd(); if(c[w]<K&&vh_chance(1,2)) { VH_CHECK(kv_add(kv[w],pool[q],s,v)==1,"kv","add"); memcpy(e[w][c[w]].k,pool[q],5); e[w][c[w]].s=s; e[w][c[w]++].v=v; } else if(c[w]&&vh_chance(1,2)) { size_t p=vh_below(c[w]); VH_CHECK(kv_set(kv[w],p,pool[q],s,v)==1,"kv","set"); memcpy(e[w][p].k,pool[q],5); e[w][p].s=s; e[w][p].v=v; } else if(c[w]>1&&vh_chance(1,3)) { size_t p=vh_below(c[w]); sblist_delete((sblist*)kv[w],p); memmove(&e[w][p],&e[w][p+1],(c[w]-p-1)*sizeof e[w][0]); c[w]--; }
	    { char key[5]; memcpy(key,pool[vh_below(6)],5); stringptr g={key,5}; void*o=&g; size_t x; int r=kv_find(kv[w],&g,&o); for(x=0;x<c[w];x++) if(e[w][x].s==5&&!memcmp(e[w][x].k,key,5)) break; if(x<c[w]) { VH_CHECK(r==1&&o==e[w][x].v,"kv","find of a key whose first entry is %zu of %zu: r=%d",x,c[w],r); VH_COUNT("kv repeated keys",1); } else VH_CHECK(r==0&&o==&g,"kv","find of absent key r=%d",r); } }
	  kv_free(kv[0]); kv_free(kv[1]); }
	vh_seen(sig);
}
/* sizes and positions beyond 16 bits */
static int cmp_u64(const void *a, const void *b) { u64 x,y; memcpy(&x,a,8); memcpy(&y,b,8); return x<y?-1:x>y; }
static int cmp_u64_r(const void *a, const void *b, void *c) { if(c!=&cmpsz) vh_fail("ctx","compare context not passed through"); return cmp_u64(a,b); }
static void wide(u64 idx) {
	model m={0}; size_t i,k; u64 sig=idx;
	if(idx%3==0) { /* many items */
		static const size_t N[]={65530,65534,65536,66000,70000,131070,131080,200000}; size_t n=N[(idx/3)%8]+vh_below(9), isz=8+vh_below(3)*4, blk=vh_chance(1,4)?0:vh_chance(1,2)?65536+vh_below(70000):3000; sblist *l=sblist_new(isz,blk); u8 *it=vh_gbuf(isz);
		m.isz=isz; for(i=0;i<n;i++) { u64 v=i*4+1; memset(it,i,isz); memcpy(it,&v,8); VH_CHECK(sblist_add(l,it)==1,"ret","add failed"); m_ins(&m,m.n,it); }
		full(l,&m,"wide adds"); VH_COUNT("wide lists",1);
		if(vh_chance(1,2)) sblist_set_blockitems(l,vh_below(4));
		for(k=0;k<24;k++) {
			size_t pos=vh_chance(1,3)?65534+vh_below(5):vh_chance(1,2)?m.n-1-vh_below(20):vh_below(m.n); if(pos>=m.n) pos=m.n-1; u64 v=vh_rnd(); size_t r; memset(it,k,isz); sig=vh_hashu(pos,sig);
			switch(k<8?k%2:2+k%6) {
			case 0: case 1: { /* sorted: keys are still ascending */ v=pos*4+1+vh_below(3); if(vh_chance(1,8)) v=~0ull-vh_below(3); memcpy(it,&v,8); r=k&1?sblist_insert_sorted(l,it,cmp_u64):sblist_insert_sorted_r(l,it,cmp_u64_r,&cmpsz); VH_TRACE("wide sorted insert of %llu into %zu -> %zu",(unsigned long long)v,m.n,r);
				VH_CHECK(r<=m.n,"sorted-idx","index %zu of %zu",r,m.n); u64 a; if(r) { memcpy(&a,m.d+(r-1)*isz,8); VH_CHECK(a<=v,"unsorted","sorted insert at %zu of %zu after a bigger key",r,m.n); } if(r<m.n) { memcpy(&a,m.d+r*isz,8); VH_CHECK(a>=v,"unsorted","sorted insert at %zu of %zu before a smaller key",r,m.n); }
				m_ins(&m,r,it); VH_CHECK(!memcmp(sblist_get(l,r),it,isz),"sorted-idx","item not at %zu",r);
				for(i=0;i<60;i++) { size_t q=vh_chance(1,2)?vh_below(m.n):vh_chance(1,2)?65533+vh_below(6):m.n-1-vh_below(5); if(q>=m.n) q=m.n-1; memcpy(it,m.d+q*isz,isz); if(vh_chance(1,3)) { u64 z; memcpy(&z,it,8); z+=vh_below(2)?1:-1; memcpy(it,&z,8); } size_t g=i&1?sblist_bsearch(l,it,cmp_u64):sblist_bsearch_r(l,it,cmp_u64_r,&cmpsz); int have=0; size_t w; for(w=q>6?q-6:0;w<q+6&&w<m.n;w++) if(!cmp_u64(it,m.d+w*isz)) have=1; if(have) VH_CHECK(g<m.n&&!cmp_u64(it,m.d+g*isz),"bsearch","key near %zu of %zu not found (%zd)",q,m.n,(ssize_t)g); else VH_CHECK(g==(size_t)-1,"bsearch","absent key found at %zd",(ssize_t)g); }
				break; }
			case 2: memcpy(it,&v,8); VH_CHECK(sblist_insert(l,it,pos)==1,"ret","insert at %zu of %zu",pos,m.n); m_ins(&m,pos,it); break;
			case 3: memcpy(it,&v,8); VH_CHECK(sblist_set(l,it,pos)==1,"ret","set %zu",pos); memcpy(m.d+pos*isz,it,isz); break;
			case 4: sblist_delete(l,pos); m_del(&m,pos); break;
			case 5: memcpy(it,&v,8); r=sblist_addi(l,it); VH_CHECK(r==m.n,"ret","addi gave %zu want %zu",r,m.n); m_ins(&m,m.n,it); break;
			case 6: { u8*p=sblist_pop(l); VH_CHECK(p&&!memcmp(p,m.d+(m.n-1)*isz,isz),"pop","pop"); m.n--; break; }
			default: { u8*p; i=0; sblist_iter(l,p) { VH_CHECK(i<m.n&&!memcmp(p,m.d+i*isz,isz),"iter","iteration item %zu",i); i++; } VH_CHECK(i==m.n,"iter","iteration gave %zu of %zu",i,m.n); size_t c; i=0; sblist_iter_counter2(l,c,p) { VH_CHECK(c==i,"iter","counter"); i++; } VH_CHECK(i==m.n,"iter","iteration2"); }
			}
			if(k%4==3) full(l,&m,"wide op"); else VH_CHECK(sblist_getsize(l)==m.n,"count","count");
		}
		cmpsz=8; sblist_sort(l,cmp_u64); for(i=1;i<m.n;i++) VH_CHECK(cmp_u64(sblist_get(l,i-1),sblist_get(l,i))<=0,"sort","not sorted at %zu of %zu",i,m.n);
		sblist_free(l); vh_gfree(it);
	} else if(idx%3==1) { /* big items */
		int giant=idx%30==4; size_t isz=giant?(9u<<20)+vh_below(4u<<20):65520+vh_below(vh_chance(1,2)?32:90000), blk=giant?1:vh_below(4), n=giant?2:3+vh_below(5); if(giant) VH_COUNT("items beyond the stack",1); int isinit; sblist st,*l=mk(isz,blk,&m,&isinit,&st); u8*it=vh_gbuf(isz);
		for(k=0;k<n+8;k++) { size_t pos=vh_below(m.n+1); memset(it,0x11*k+1,isz); it[0]=k; it[isz-1]=~k; if(isz>65536) it[65536]=k*3; if(k<n) { VH_CHECK(sblist_insert(l,it,pos)==1,"ret","insert"); m_ins(&m,pos,it); } else if(m.n) { pos=vh_below(m.n); if(k&1) { sblist_delete(l,pos); m_del(&m,pos); } else { VH_CHECK(sblist_set(l,it,pos)==1,"ret","set"); memcpy(m.d+pos*isz,it,isz); } } full(l,&m,"big item op"); }
		sig=vh_hashu(isz,sig); VH_COUNT("wide items",1); if(isinit) sblist_free_items(l); else sblist_free(l); vh_gfree(it);
	} else { /* typed lists with many entries */
		size_t n=65530+vh_below(3000); sptrlist*a=sptrlist_new(vh_below(3)*40000); stringptrlist*s=stringptrlist_new(vh_below(70000)); stringlist*z=stringlist_new(vh_below(70000)); kvlist*kv=kv_new(vh_below(70000)); static char base[300000]; u32*kk=xmalloc(n*4);
		for(i=0;i<n;i++) { kk[i]=i*2654435761u; char*p1=base+i,*p2=base+2*i; VH_CHECK(sptrlist_add(a,p1)==1,"sptr","add"); VH_CHECK(stringptrlist_add(s,p1,i)==1,"spl","add"); VH_CHECK(stringlist_add(z,p2)==1,"strl","add"); VH_CHECK(kv_add(kv,(char*)(kk+i),4,base+3*i)==1,"kv","add"); }
		VH_CHECK(sptrlist_get_count(a)==n&&stringptrlist_getsize(s)==n&&stringlist_getsize(z)==n&&kv_getsize(kv)==n,"count","typed list sizes");
		for(k=0;k<10;k++) { size_t pos=n-1-k-vh_below(400); char*p1=base+n+k,*p2=base+pos; VH_CHECK(sptrlist_set(a,p1,pos)==1&&sptrlist_get(a,pos)==base+n+k,"sptr","set"); VH_CHECK(sptrlist_set(a,p2,pos)==1,"sptr","set"); stringlist_delete(z,pos); VH_CHECK(stringlist_getsize(z)==n-1-k,"strl","delete"); VH_CHECK(stringptrlist_set(s,pos,base,7)==1&&stringptrlist_get(s,pos)->size==7,"spl","set"); stringptrlist_set(s,pos,base+pos,pos); stringptr w={(char*)(kk+pos),4}; void*o=0; VH_CHECK(kv_find(kv,&w,&o)==1&&o==base+3*pos,"kv","find of key %zu of %zu",pos,n); }
		for(i=0;i<n;i++) { stringptr*p=stringptrlist_get(s,i); VH_CHECK(sptrlist_get(a,i)==base+i&&p->ptr==base+i&&p->size==i,"typed","entry %zu differs",i); if(i<n-450) VH_CHECK(stringlist_get(z,i)==base+2*i,"typed","stringlist entry %zu",i); }
		char*r; size_t c=0; stringlist_foreach(z,r) c++; VH_CHECK(c==n-10,"strl","foreach visited %zu",c);
		{ size_t at[6]={0,n-1,65535,65534,n-2,n/2}; for(k=0;k<6;k++) if(at[k]<n) { u32 q=kk[at[k]]; stringptr w={(char*)&q,4}; void*o=0; int r2=kv_find(kv,&w,&o); VH_CHECK(r2==1&&o==base+3*at[k],"kv","find of key %zu of %zu",at[k],n); } }
		VH_COUNT("wide typed lists",1); sptrlist_free(a); stringptrlist_free(s); stringlist_free(z); kv_free(kv); xfree(kk); sig=vh_hashu(n,sig);
	}
	vh_seen(sig); xfree(m.d);
}
#ifdef HUGE
/* more than 2^32 bytes / items, the memory never touched except at the end */
static u8 *hbase; static size_t hisz; static size_t hlast;
static int cmp_addr(const void *key, const void *item) { size_t i=((const u8*)item-hbase)/hisz, k; memcpy(&k,key,sizeof k); hlast=i; return k<i?-1:k>i; }
static int cmp_addr_r(const void *key, const void *item, void*c) { return c==&hisz?cmp_addr(key,item):0; }
static void huge(u64 idx) {
	static const size_t ISZ[]={1,8,1<<20,12}; size_t isz=ISZ[idx%4], n=(5ull<<30)/isz, i, tgt; if(isz==1) n+=vh_below(100); hisz=isz; u8*mem=malloc((n+1)*isz); if(!mem) vh_internal("no memory for the huge list"); hbase=mem;
	sblist*l=sblist_new_from_data(isz,mem,n*isz+isz/2); VH_CHECK(l&&sblist_getsize(l)==n,"huge","%zu items instead of %zu",(size_t)sblist_getsize(l),n);
	u8*it=calloc(1,isz<8?8:isz); it[0]=0x77;
	for(i=0;i<12;i++) { tgt=n-1-vh_below(n<1000?n:1000); if(i&1&&n>10) tgt=n/2+vh_below(n/2); VH_CHECK(sblist_get(l,tgt)==(void*)(mem+tgt*isz),"huge","get(%zu) of %zu items of %zu bytes",tgt,n,isz);
		size_t key[2]={tgt,0}; VH_CHECK(sblist_bsearch(l,key,cmp_addr)==tgt,"huge","bsearch for item %zu of %zu",tgt,n); VH_CHECK(sblist_bsearch_r(l,key,cmp_addr_r,&hisz)==tgt,"huge","bsearch_r for item %zu of %zu",tgt,n);
		it[0]=i+1; VH_CHECK(sblist_set(l,it,tgt)==1&&mem[tgt*isz]==i+1,"huge","set(%zu)",tgt); }
	VH_CHECK(!sblist_get(l,n),"huge","get beyond end"); VH_CHECK(!sblist_get(l,n+(1ull<<32)),"huge","get beyond end + 2^32");
	/* near-end deletion */
	if(n>3) { mem[(n-2)*isz]=0x21; mem[(n-1)*isz]=0x22; sblist_delete(l,n-3); VH_CHECK(sblist_getsize(l)==n-1&&*(u8*)sblist_get(l,n-3)==0x21&&*(u8*)sblist_get(l,n-2)==0x22&&!sblist_get(l,n-1),"huge","deletion at %zu of %zu",n-3,n);
		it[0]=0x23; VH_CHECK(sblist_insert(l,it,n-2)==1&&sblist_getsize(l)==n&&*(u8*)sblist_get(l,n-2)==0x23&&*(u8*)sblist_get(l,n-1)==0x22&&*(u8*)sblist_get(l,n-3)==0x21,"huge","insertion at %zu of %zu",n-2,n-1); }
	/* sblist_grow_if_needed moves the block with realloc */
	sblist_set_blockitems(l,isz==1?4096:1); it[0]=0x24; VH_CHECK(sblist_addi(l,it)==n,"huge","addi to %zu items",n); VH_CHECK(sblist_getsize(l)==n+1&&*(u8*)sblist_get(l,n)==0x24,"huge","added item"); hbase=sblist_get(l,0);
	if(isz<=1<<20&&isz>=8) { size_t key=n-2; memcpy(it,&key,8); size_t r=sblist_insert_sorted(l,it,cmp_addr); VH_CHECK(r==n-2||r==n-1,"huge","sorted insertion at %zu instead of %zu",r,n-2); hbase=sblist_get(l,0); r=sblist_insert_sorted_r(l,it,cmp_addr_r,&hisz); VH_CHECK(r==n-2||r==n-1,"huge","sorted insertion_r at %zu instead of %zu",r,n-2); VH_CHECK(sblist_getsize(l)==n+3,"huge","size"); u8*p=sblist_pop(l); VH_CHECK(p==(u8*)l->items+(n+2)*isz&&sblist_getsize(l)==n+2,"huge","pop"); }
	else { u8*p=sblist_pop(l); VH_CHECK(p&&*p==0x24&&sblist_getsize(l)==n,"huge","pop"); }
	/* growth from empty with a big block */
	{ size_t bi=(3ull<<30)/8*2; sblist st; sblist_init(&st,8,bi); u64 v=5; VH_CHECK(sblist_add(&st,&v)==1&&*(u64*)sblist_get(&st,0)==5,"huge","add with block of %zu",bi); sblist_free_items(&st); }
	VH_COUNT("huge lists",1); vh_seen(vh_hashu(isz,n)); free(it); sblist_free(l);
}
const vh_mode vh_modes[] = { {"huge",huge,8,40},{0} };
#else
const vh_mode vh_modes[] = { {"history",history,40000,1500000},{"bulk",bulk,200,4000},{"sorted",sorted,6000,200000},{"wrappers",wrappers,6000,200000},{"wide",wide,96,1500},{"several",several,4000,120000},{0} };
#endif
