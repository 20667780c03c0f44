/* instantiated per element type T, name N */
static int CAT(cmp_,N)(const void *a, const void *b) { VH_COUNT("compares",1); return memcmp(a,b,cmpsz); }
static int CAT(cmpd_,N)(const void *a, const void *b) { return -memcmp(a,b,cmpsz); }
static void CAT(tg_,N)(void) {
	size_t n=0,k,ops=vh_chance(1,10)?300:vh_below(60),pos; static T m[1200]; u64 sig=sizeof(T); int ch=0;
	tglist(T) st, *l; int dyn=vh_chance(1,2);
	if(dyn) l=tglist_new(); else { memset(&st,0x33,sizeof st); l=(void*)&st; tglist_init(l); }
	VH_CHECK(l,"new","tglist_new failed");
	VH_CHECK(tglist_getsize(l)==0 && tglist_empty(l),"size","new list not empty");
	VH_CHECK(tglist_itemsize(l)==sizeof(T),"itemsize","itemsize");
	for(k=0;k<ops&&n<1100;k++) {
		T v; int op=vh_below(100); const char*nm="?"; vh_bytes(&v,sizeof v); size_t r;
		if(op<35) { VH_TRACE("add"); r=tglist_add(l,v); VH_CHECK(r==1,"ret","add returned %zu",r); m[n++]=v; nm="add"; ch++; VH_COUNT("add",1); }
		else if(op<60) { pos=vh_chance(1,4)?n:vh_chance(1,4)?0:vh_below(n+1); VH_TRACE("insert %zu/%zu",pos,n); r=pos==n&&vh_chance(1,2)?tglist_insert(l,v,tglist_getsize(l)):n-pos==1&&vh_chance(1,2)?tglist_insert(l,v,tglist_getsize(l)-1):tglist_insert(l,v,pos); VH_CHECK(r==1,"ret","insert returned %zu",r); memmove(m+pos+1,m+pos,(n-pos)*sizeof v); m[pos]=v; n++; nm="insert"; ch++; VH_COUNT("insert",1); }
		else if(op<70) { if(!n) continue; pos=vh_below(n); VH_TRACE("set %zu/%zu",pos,n); r=pos==n-1?tglist_set(l,v,tglist_getsize(l)-1):tglist_set(l,v,pos); VH_CHECK(r==1,"ret","tglist_set returned %zu",r); m[pos]=v; nm="set"; VH_COUNT("set",1); ch++; }
		else if(op<88) { if(!n) continue; pos=vh_chance(1,4)?n-1:vh_chance(1,4)?0:vh_below(n); VH_TRACE("delete %zu/%zu",pos,n); if(pos==n-1&&vh_chance(1,2)) { tglist_delete(l,tglist_getsize(l)-1); } else { tglist_delete(l,pos); } memmove(m+pos,m+pos+1,(n-pos-1)*sizeof v); n--; nm="delete"; VH_COUNT("delete",1); ch++; }
		else if(op<92) { if(!n) continue; cmpsz=sizeof v; VH_TRACE("sort"); tglist_sort(l,CAT(cmp_,N)); qsort(m,n,sizeof v,CAT(cmp_,N)); nm="sort"; VH_COUNT("sort",1); ch++; }
		else { /* sorted insertion keeps a sorted list sorted; any index among equals is fine */
			size_t q=vh_below(12),i; int dn=vh_chance(1,4); cmpsz=sizeof v;
			int (*cf)(const void*,const void*)=dn?CAT(cmpd_,N):CAT(cmp_,N);
			if(n) { tglist_sort(l,cf); qsort(m,n,sizeof v,cf); }
			cmpsz=vh_chance(1,2)?1:sizeof v;
			for(;q&&n<1190;q--) { vh_bytes(&v,sizeof v); if(vh_chance(1,2)) memset(&v,vh_below(3)*100,1); if(n&&vh_chance(1,4)) v=m[vh_below(n)];
				T sv=v; r=tglist_insert_sorted(l,v,cf); VH_TRACE("insert_sorted -> %zu of %zu",r,n+1);
				VH_CHECK(!memcmp(&sv,&v,sizeof v),"item-modified","insert_sorted changed the item");
				VH_CHECK(tglist_getsize(l)==n+1,"size","insert_sorted: size");
				VH_CHECK(r<=n && !memcmp(&l->items[r],&v,sizeof v),"sorted-idx","item not at returned index %zu of %zu",r,n+1);
				memmove(m+r+1,m+r,(n-r)*sizeof v); m[r]=v; n++;
				for(i=1;i<n;i++) VH_CHECK(cf(&tglist_get(l,i-1),&tglist_get(l,i))<=0,"unsorted","not sorted at %zu of %zu",i,n);
				VH_COUNT("insert_sorted",1); }
			nm="insert_sorted"; ch++;
		}
		VH_CHECK(tglist_getsize(l)==n && tglist_get_count(l)==n && !!tglist_empty(l)==!n,"size","after %s: size %zu want %zu",nm,(size_t)tglist_getsize(l),n);
		if(n<80||vh_chance(1,8)) { size_t i; for(i=0;i<n;i++) VH_CHECK(!memcmp(&tglist_get(l,i),m+i,sizeof v),"content","after %s: item %zu of %zu differs",nm,i,n); VH_COUNT("items compared",n); }
		sig=vh_hash(&v,sizeof v<9?sizeof v:9,vh_hashu(op,sig));
	}
	{ size_t i,c=0; tglist_foreach(l,i) { VH_CHECK(!memcmp(&tglist_get(l,i),m+i,sizeof(T)),"content","foreach: item %zu differs",i); c++; } VH_CHECK(c==n,"size","foreach visited %zu of %zu",c,n); }
	if(ch>=3) vh_seen(sig);
	vh_sample("tglist of %zu-byte items, %zu ops, final size %zu",sizeof(T),ops,n);
	if(dyn) tglist_free(l); else tglist_free_items(l);
}
#define TGI(IDX,LIM) do { \
	size_t n=0,k,ops=vh_chance(1,8)?400:vh_below(80),pos,total=0; static T m[1200]; u64 sig=sizeof(T)*77+sizeof(IDX); int ch=0; \
	tgilist(T,IDX) st, *l; int dyn=vh_chance(1,2); \
	if(dyn) l=tgilist_new(); else { memset(&st,0x33,sizeof st); l=(void*)&st; tgilist_init(l); } \
	VH_CHECK(tgilist_getsize(l)==0 && tgilist_empty(l),"size","new list not empty"); VH_CHECK(tgilist_itemsize(l)==sizeof(T),"itemsize","itemsize"); \
	for(k=0;k<ops&&n<1100;k++) { T v; int op=vh_below(100); const char*nm="?"; vh_bytes(&v,sizeof v); size_t r; \
		if(op<66 && total>=LIM) op=66+vh_below(34); \
		if(op<32) { VH_TRACE("i-add"); r=tgilist_add(l,v); VH_CHECK(r==1,"ret","tgilist_add returned %zu",r); m[n++]=v; total++; nm="add"; ch++; } \
		else if(op<66) { pos=vh_chance(1,4)?n:vh_chance(1,4)?0:vh_below(n+1); VH_TRACE("i-insert %zu/%zu",pos,n); r=pos==n&&vh_chance(1,2)?tgilist_insert(l,v,tgilist_getsize(l)):n-pos==1&&vh_chance(1,2)?tgilist_insert(l,v,tgilist_getsize(l)-1):tgilist_insert(l,v,pos); VH_CHECK(r==1,"ret","tgilist_insert returned %zu",r); memmove(m+pos+1,m+pos,(n-pos)*sizeof v); m[pos]=v; n++; total++; nm="insert"; ch++; } \
		else if(op<78) { if(!n) continue; pos=vh_chance(1,4)?n-1:vh_below(n); VH_TRACE("i-set %zu/%zu",pos,n); if(pos==n-1&&vh_chance(1,2)) { VH_CHECK(tgilist_set(l,v,tgilist_getsize(l)-1)==1,"ret","tgilist_set"); } else { VH_CHECK(tgilist_set(l,v,pos)==1,"ret","tgilist_set"); } m[pos]=v; nm="set"; ch++; } \
		else { if(!n) continue; pos=vh_chance(1,4)?n-1:vh_chance(1,4)?0:vh_below(n); VH_TRACE("i-delete %zu/%zu",pos,n); if(pos==n-1&&vh_chance(1,2)) { tgilist_delete(l,tgilist_getsize(l)-1); } else { tgilist_delete(l,pos); } memmove(m+pos,m+pos+1,(n-pos-1)*sizeof v); n--; nm="delete"; ch++; } \
		VH_CHECK(tgilist_getsize(l)==n && !!tgilist_empty(l)==!n,"size","tgilist after %s: size %zu want %zu",nm,(size_t)tgilist_getsize(l),n); \
		if(n<80||vh_chance(1,8)) { size_t i; for(i=0;i<n;i++) VH_CHECK(!memcmp(&tgilist_get(l,i),m+i,sizeof v),"content","tgilist after %s: item %zu of %zu differs",nm,i,n); VH_COUNT("items compared",n); } \
		sig=vh_hash(&v,sizeof v<9?sizeof v:9,vh_hashu(op,sig)); VH_COUNT("tgilist ops",1); \
	} \
	{ size_t i; for(i=0;i<n;i++) VH_CHECK(!memcmp(&tgilist_get(l,i),m+i,sizeof(T)),"content","tgilist at end: item %zu of %zu differs",i,n); } \
	if(ch>=3) vh_seen(sig); \
	vh_sample("tgilist of %zu-byte items, %zu-byte index, %zu ops, final size %zu",sizeof(T),sizeof(IDX),ops,n); \
	if(dyn) tgilist_free(l); else tgilist_free_items(l); } while(0)
static void CAT(tgi8_,N)(void) { TGI(unsigned char,250); }
static void CAT(tgi16_,N)(void) { TGI(unsigned short,60000); }
static void CAT(tgi32_,N)(void) { TGI(unsigned,100000); }
static void CAT(tgi64_,N)(void) { TGI(size_t,100000); }
#undef TGI
#undef T
#undef N
