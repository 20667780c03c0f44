/* C06: tlist against an array; deep variants and node ownership against the allocation ledger */
#include "vh.h"
#include "tlist.h"
const char *const vh_rule="random histories of append/insert/delete/get/clear over item sizes 1..300 against an array model (full comparison every few operations), invalid indices incl. beyond 2^32; ledger of live blocks for node and pointee ownership; distinct = hash of history, >=3 changes";
const char *const vh_required[]={"append","insert","delete","refused insert","refused delete","get oob","deep deletes","deep frees","full compares","plain frees with live pointees","wide lists","wide items","lists used in turn","items beyond the stack","long lists taken down",0};
static size_t badidx(size_t n) { switch(vh_below(6)) { case 0: return n; case 1: return n+1; case 2: return n+vh_below(1000); case 3: return (1ull<<32)+vh_below(n+2); case 4: return (size_t)-1-vh_below(3); default: return 0xffffffffu-vh_below(2)+0ull < n ? n : 0xffffffffull; } }
static void cmpall(tlist*t,u8*m,size_t n,size_t isz,const char*op) { size_t i; VH_CHECK(tlist_getsize(t)==n,"size","after %s: size %zu want %zu",op,tlist_getsize(t),n); for(i=0;i<n;i++) { u8*p=tlist_get(t,i); VH_CHECK(p,"get","after %s: get(%zu) of %zu NULL",op,i,n); VH_CHECK(!memcmp(p,m+i*isz,isz),"content","after %s: item %zu of %zu differs",op,i,n); } size_t b=badidx(n); VH_CHECK(!tlist_get(t,b),"get-oob","after %s: get(%zu) of %zu items is not NULL",op,b,n); VH_CHECK(!tlist_get(t,n),"get-oob","after %s: get(size) is not NULL",op); VH_COUNT("get oob",2); VH_COUNT("full compares",1); }
static void history(u64 idx) {
	size_t isz=vh_chance(1,3)?sizeof(void*):vh_chance(1,2)?1+vh_below(20):1+vh_below(300),n=0,cap=700,k,ops=vh_chance(1,10)?500:vh_below(80),pos; if(idx%500==77) { isz=65520+vh_below(5000); cap=30; ops=25; VH_COUNT("wide items",1); } u8*m=xmalloc(cap*isz),*it=vh_gbuf(isz),*sv=xmalloc(isz); u64 sig=isz; int ch=0,shape=vh_below(5); int maxn=cap-2;
	vh_ledger_begin();
	tlist*t=tlist_new(isz); VH_CHECK(t,"new","tlist_new"); size_t base=vh_ledger_live(); cmpall(t,m,0,isz,"creation");
	for(k=0;k<ops;k++) { int op=vh_below(100),r; const char*nm; vh_bytes(it,isz); memcpy(sv,it,isz);
		if((int)n>=maxn&&op<60) op=62;
		if(op<25) { VH_TRACE("append (%zu)",n); r=tlist_append(t,it); nm="append"; VH_CHECK(r==1,"ret","append returned %d",r); memcpy(m+n*isz,it,isz); n++; ch++; VH_COUNT("append",1); }
		else if(op<60) { if(vh_chance(1,6)) { pos=badidx(n); if(pos==n) pos=n+1; VH_TRACE("insert oob %zu of %zu",pos,n); r=tlist_insert(t,pos,it); nm="insert(oob)"; VH_CHECK(r==0,"refuse","insert at %zu of %zu returned %d",pos,n,r); VH_COUNT("refused insert",1); }
			else { pos=shape==0?0:shape==1?n:shape==2?n/2:vh_below(n+1); if(vh_chance(1,4)) pos=vh_below(n+1); VH_TRACE("insert %zu of %zu",pos,n); r=tlist_insert(t,pos,it); nm="insert"; VH_CHECK(r==1,"ret","insert at %zu of %zu returned %d",pos,n,r); memmove(m+(pos+1)*isz,m+pos*isz,(n-pos)*isz); memcpy(m+pos*isz,it,isz); n++; ch++; VH_COUNT("insert",1); sig=vh_hashu(pos,sig); } }
		else if(op<90) { if(!n||vh_chance(1,6)) { pos=badidx(n); VH_TRACE("delete oob %zu of %zu",pos,n); r=tlist_delete(t,pos); nm="delete(oob)"; VH_CHECK(r==0,"refuse","delete at %zu of %zu returned %d",pos,n,r); VH_COUNT("refused delete",1); }
			else { pos=vh_chance(1,3)?0:vh_chance(1,3)?n-1:vh_below(n); VH_TRACE("delete %zu of %zu",pos,n); r=tlist_delete(t,pos); nm="delete"; VH_CHECK(r==1,"ret","delete returned %d",r); memmove(m+pos*isz,m+(pos+1)*isz,(n-pos-1)*isz); n--; ch++; VH_COUNT("delete",1); sig=vh_hashu(pos,sig); } }
		else if(op<92) { VH_TRACE("free_items"); tlist_free_items(t); n=0; nm="free_items"; VH_CHECK(vh_ledger_live()==base,"nodes","after free_items %zu blocks live, empty list has %zu",vh_ledger_live(),base); }
		else { pos=n?vh_below(n):0; nm="get"; if(n) { void*p=tlist_get(t,pos); VH_CHECK(p&&!memcmp(p,m+pos*isz,isz),"content","get %zu",pos); /* items are writable in place */ if(vh_chance(1,2)) { memcpy(p,it,isz); memcpy(m+pos*isz,it,isz); } } }
		VH_CHECK(!memcmp(sv,it,isz),"item-modified","%s modified the caller's value",nm);
		if(n<40||vh_chance(1,10)) cmpall(t,m,n,isz,nm);
		sig=vh_hashu(op,sig);
	}
	cmpall(t,m,n,isz,"history");
	VH_CHECK(tlist_free(t)==0,"free-ret","tlist_free did not return NULL");
	VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks live after tlist_free",vh_ledger_live()); vh_ledger_end();
	if(ch>=3) vh_seen(sig); vh_sample("tlist itemsize=%zu ops=%zu final=%zu",isz,ops,n);
	xfree(m); xfree(sv); vh_gfree(it);
}
/* ownership: items are pointers to heap blocks */
static void deep(u64 idx) {
	void *m[300]; size_t n=0,k,ops=vh_below(100),i; u64 sig=1; vh_ledger_begin(); tlist*t=tlist_new(sizeof(void*));
	size_t base=vh_ledger_live(); /* blocks of the empty list */
	size_t others=0; /* pointees alive outside the list */ void *out[300];
	for(k=0;k<ops&&n<290;k++) { int op=vh_below(100);
		if(op<50) { char*p=malloc(1+vh_below(40)); *p=n; size_t pos=vh_below(n+1); VH_CHECK(tlist_insert(t,pos,&p)==1,"ret","insert"); memmove(m+pos+1,m+pos,(n-pos)*sizeof*m); m[pos]=p; n++; VH_TRACE("insert ptr at %zu",pos); }
		else if(op<62&&n) { size_t pos=vh_below(n),b=vh_ledger_live(); VH_TRACE("delete_deep %zu of %zu",pos,n); VH_CHECK(tlist_delete_deep(t,pos)==1,"ret","delete_deep"); VH_CHECK(vh_ledger_live()==b-2,"deep","delete_deep released %zd blocks instead of node and pointee",(ssize_t)(b-vh_ledger_live())); memmove(m+pos,m+pos+1,(n-pos-1)*sizeof*m); n--; VH_COUNT("deep deletes",1); }
		else if(op<74&&n&&others<290) { size_t pos=vh_below(n),b=vh_ledger_live(); VH_TRACE("delete %zu of %zu",pos,n); VH_CHECK(tlist_delete(t,pos)==1,"ret","delete"); VH_CHECK(vh_ledger_live()==b-1,"shallow","delete released %zd blocks instead of the node only",(ssize_t)(b-vh_ledger_live())); *(char*)m[pos]=7; out[others++]=m[pos]; memmove(m+pos,m+pos+1,(n-pos-1)*sizeof*m); n--; }
		else if(op<76) { size_t b=vh_ledger_live(); VH_TRACE("free_items_deep (%zu)",n); tlist_free_items_deep(t); VH_CHECK(vh_ledger_live()==b-2*n,"deep","free_items_deep of %zu released %zd blocks",n,(ssize_t)(b-vh_ledger_live())); n=0; VH_COUNT("deep frees",1); }
		else if(op<78&&others+n<290) { size_t b=vh_ledger_live(); VH_TRACE("free_items (%zu)",n); tlist_free_items(t); VH_CHECK(vh_ledger_live()==b-n,"shallow","free_items of %zu released %zd blocks",n,(ssize_t)(b-vh_ledger_live())); for(i=0;i<n;i++) { *(char*)m[i]=1; out[others++]=m[i]; } n=0; }
		else if(op<84) { size_t b=vh_ledger_live(); VH_CHECK(tlist_delete_deep(t,badidx(n))==0,"refuse","delete_deep outside"); VH_CHECK(vh_ledger_live()==b,"refuse","refused delete_deep released something"); VH_COUNT("refused delete",1); }
		VH_CHECK(tlist_getsize(t)==n,"size","size"); for(i=0;i<n;i++) VH_CHECK(*(void**)tlist_get(t,i)==m[i],"content","pointer %zu differs",i);
		VH_CHECK(vh_ledger_live()==base+2*n+others,"ledger","%zu blocks live, want %zu",vh_ledger_live(),base+2*n+others);
		sig=vh_hashu(op*1000+n,sig);
	}
	if(vh_chance(1,2)) { VH_CHECK(!tlist_free_deep(t),"free-ret","free_deep"); VH_COUNT("deep frees",1); VH_CHECK(vh_ledger_live()==others,"deep","after free_deep %zu blocks live, want %zu",vh_ledger_live(),others); }
	else { VH_CHECK(!tlist_free(t),"free-ret","free"); VH_CHECK(vh_ledger_live()==others+n,"shallow","after free %zu blocks live, want %zu",vh_ledger_live(),others+n); for(i=0;i<n;i++) { *(char*)m[i]=2; free(m[i]); } if(n) VH_COUNT("plain frees with live pointees",1); }
	for(i=0;i<others;i++) free(out[i]);
	VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks left",vh_ledger_live()); VH_CHECK(!vh_ledger_badfree(),"badfree","freed a block it does not own");
	vh_ledger_end(); if(ops>3) vh_seen(sig^99);
}
/* several lists alive at once, used in turn */
static void several(u64 idx) {
	enum { N=3 }; tlist*t[N]; u64 m[N][160]; size_t c[N]={0},i,j,k,pos; u64 sig=idx&1; for(i=0;i<N;i++) t[i]=tlist_new(8);
	for(k=0;k<120;k++) { i=vh_below(N); u64 v=vh_chance(1,3)?7:vh_rnd(); int op=vh_below(10); pos=vh_below(c[i]+1); sig=vh_hashu(op*4+i,sig); VH_TRACE("list %zu op %d pos %zu of %zu",i,op,pos,c[i]);
		if(op<3&&c[i]<150) { VH_CHECK(tlist_append(t[i],&v)==1,"ret","append"); m[i][c[i]++]=v; } else if(op<6&&c[i]<150) { VH_CHECK(tlist_insert(t[i],pos,&v)==1,"ret","insert"); memmove(m[i]+pos+1,m[i]+pos,(c[i]-pos)*8); m[i][pos]=v; c[i]++; } else if(op<8&&pos<c[i]) { VH_CHECK(tlist_delete(t[i],pos)==1,"ret","delete"); memmove(m[i]+pos,m[i]+pos+1,(c[i]-pos-1)*8); c[i]--; } else if(op==8&&vh_chance(1,5)) { tlist_free_items(t[i]); c[i]=0; } else if(op==9&&vh_chance(1,5)) { tlist_free(t[i]); t[i]=tlist_new(8); c[i]=0; }
		/* the same position in every list, then everything */
		for(j=0;j<N;j++) { u64*p=tlist_get(t[j],pos); VH_CHECK(!!p==(pos<c[j])&&(!p||*p==m[j][pos]),"content","list %zu item %zu of %zu after an operation on list %zu",j,pos,c[j],i); }
		for(j=0;j<N;j++) cmpall(t[j],(u8*)m[j],c[j],8,"an operation in turn"); }
	for(i=0;i<N;i++) tlist_free(t[i]); VH_COUNT("lists used in turn",1); vh_seen(sig);
}
static void giant(u64 idx) { /* items bigger than a stack */
	unsigned z=(9u<<20)+vh_below(3u<<20); u8*it=xmalloc(z); tlist*t=tlist_new(z); int i; VH_CHECK(t,"ret","new"); for(i=0;i<3;i++) { memset(it,i+1,z); it[0]=it[z-1]=0x40+i; VH_CHECK(tlist_insert(t,i/2,it)==1,"ret","insert of a big item"); }
	static const int order[3]={1,2,0}; for(i=0;i<3;i++) { u8*p=tlist_get(t,i); memset(it,order[i]+1,z); it[0]=it[z-1]=0x40+order[i]; VH_CHECK(p&&!memcmp(p,it,z),"content","big item %d",i); }
	VH_CHECK(tlist_delete(t,1)==1&&tlist_getsize(t)==2,"ret","delete"); tlist_free(t); xfree(it); VH_COUNT("items beyond the stack",1); vh_seen(vh_hashu(z,idx)); }
static void bulk(u64 idx) {
	size_t n=0,k,N=idx%20==3?65540+vh_below(3000):1000+vh_size(vh_thorough?60000:8000),q; int wide=N>65536; u32*m=xmalloc((N+10)*4); tlist*t=tlist_new(4); int shape=vh_below(5);
	for(k=0;k<N;k++) { size_t pos=shape==0?n:shape==1?0:shape==2?n/2:shape==3?(k&1?n:0):vh_below(n+1); u32 v=vh_rnd(); VH_CHECK(tlist_insert(t,pos,&v)==1,"ret","insert"); memmove(m+pos+1,m+pos,(n-pos)*4); m[pos]=v; n++; if(!wide&&vh_chance(1,9)) { pos=vh_below(n); VH_CHECK(tlist_delete(t,pos)==1,"ret","delete"); memmove(m+pos,m+pos+1,(n-pos-1)*4); n--; } }
	cmpall(t,(u8*)m,n,4,"bulk"); if(n>65536) VH_COUNT("wide lists",1);
	for(k=0;k<N/2&&n;k++) { size_t pos=shape==0?n-1:shape==1?0:vh_below(n); VH_CHECK(tlist_delete(t,pos)==1,"ret","delete"); memmove(m+pos,m+pos+1,(n-pos-1)*4); n--; if(n) { q=vh_below(n); u32*p=tlist_get(t,q); VH_CHECK(p&&*p==m[q],"content","item %zu of %zu",q,n); } }
	cmpall(t,(u8*)m,n,4,"bulk delete"); vh_seen(vh_hash(m,n*4,shape)); tlist_free(t); xfree(m);
}
/* a list of several 2^16 items taken down to nothing, so that items at the top of the structure go while most of it is there */
static void crown(u64 idx) {
	size_t N=140000+vh_below(160000),n,k,q,i; int front=vh_below(2); u8*live=xcalloc(N,1); tlist*t=tlist_new(4); VH_CHECK(t,"ret","new");
	for(k=0;k<N;k++) { u32 v=front?N-1-k:k; VH_CHECK(tlist_insert(t,front?0:k,&v)==1,"ret","insert"); live[k]=1; if(!(k&4095)) vh_tick(); }
	size_t check=N-N/7; for(n=N;n;) { size_t pos=vh_below(n); u32*p=tlist_get(t,pos); VH_CHECK(p&&*p<N&&live[*p]&&*p>=pos,"content","item %zu of %zu is not one of those left",pos,n); live[*p]=0; VH_CHECK(tlist_delete(t,pos)==1,"ret","delete"); n--; VH_CHECK(tlist_getsize(t)==n,"size","size %zu, expected %zu",(size_t)tlist_getsize(t),n); if(!(n&4095)) vh_tick();
		if(n==check) { for(q=i=0;i<N;i++) if(live[i]) { p=tlist_get(t,q); VH_CHECK(p&&*p==i,"content","item %zu of %zu after deletions",q,n); q++; } check=n-n/4; if(n<2000) check=0; } }
	tlist_free(t); xfree(live); VH_COUNT("long lists taken down",1); vh_seen(vh_hashu(N,front));
}
const vh_mode vh_modes[]={{"crown",crown,8,120},{"history",history,20000,700000},{"deep",deep,15000,400000},{"bulk",bulk,120,2500},{"several",several,2000,60000},{"giant",giant,16,120},{0}};
