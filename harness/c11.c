/* C11: splitting, replacing, joining, finding vs. byte-string model */
#include "vh.h"
#include "stringptrlist.h"
const char *const vh_rule="random texts over small alphabets (overlapping delimiters, delimiters at the ends, empty texts/delimiters/replacements, NUL bytes) split, replaced, joined and searched; compared with a byte-string model; distinct = hash of text, delimiter and replacement";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge texts",0};
#else
const char *const vh_required[]={"splitc","splits","no match","more than 16 pieces","empty piece","overlapping candidates","long delimiter","long replacement","delimiter longer than text","empty delimiter","replace","replace longer","replace by nothing","replace no match","join","dos join","find hit","find miss","find duplicate","dup entries","insert sorted","linesplit","empty list join","bytes above 127","sizes beyond 16 bits",0};
#endif
typedef struct { size_t a,n; } pc; static pc*P; static size_t np,cp;
static void addp(size_t a,size_t n) { if(np==cp) { cp=cp?cp*2:64; P=xrealloc(P,cp*sizeof*P); } P[np].a=a; P[np].n=n; np++; if(!n) VH_COUNT("empty piece",1); }
static size_t model(const u8*t,size_t n,const u8*d,size_t dn) { size_t i=0,st=0,k=0; np=0; if(dn) while(i+dn<=n) { if(!memcmp(t+i,d,dn)) { addp(st,i-st); if(dn>1&&i+1+dn<=n&&!memcmp(t+i+1,d,dn)) VH_COUNT("overlapping candidates",1); i+=dn; st=i; k++; } else i++; } addp(st,n-st); return k; }
static size_t tsize(void) { return vh_chance(1,4)?vh_xsize(400):vh_size(vh_chance(1,20)?30000:vh_chance(1,3)?400:40); }
static int gen(u8*p,size_t n) { int k=vh_below(5); switch(k) { case 0: vh_text((char*)p,n,"ab",2); break; case 1: vh_text((char*)p,n,"a,",2); break; case 2: vh_text((char*)p,n,"ab,\n\0",5); break; case 3: vh_text((char*)p,n,"abcdefghijklmnop,",17); break; default: memset(p,'a',n); for(size_t i=0;i<n/7;i++) p[vh_below(n)]=','; } return k; }
static size_t gend(u8*d,const u8*t,size_t n) { size_t k=vh_below(6); if(vh_chance(1,12)) k=n+vh_below(3); if(k>60) k=60; switch(vh_below(5)) { case 0: vh_text((char*)d,k,"ab",2); break; case 1: memset(d,'a',k); break; case 2: vh_text((char*)d,k,"a,",2); break; default: if(n>=k) memcpy(d,t+vh_below(n-k+1),k); else vh_text((char*)d,k,"ab,",3); } return k; }
/* texts around delimiters that are longer than 255 or 65535 bytes */
static size_t longlen(void) { return vh_chance(1,6)?65530+vh_below(12):(vh_chance(1,3)?512:256)-4+vh_below(12); }
static u8*longtext(u8**d,size_t*dn,size_t*n) { size_t k=*dn=longlen(); bs b={0}; u8*p=xmalloc(k+1); gen(p,k); *d=p; int m=1+vh_below(5); if(k>60000&&m>3) m=3; for(int i=0;i<m;i++) { u8 t[40]; size_t x=vh_below(40); gen(t,x); bs_put(&b,t,x); switch(vh_below(4)) { case 0: bs_put(&b,p,vh_chance(1,2)?k-1:vh_below(k)); break; case 1: bs_put(&b,p,k&0xff00); break; default: bs_put(&b,p,k); } } bs_putc(&b,0); *n=b.n-1; VH_COUNT("long delimiter",1); return b.d; }
static void pieces(stringptrlist*l,const char*base,const u8*t,const char*op) {
	VH_CHECK(l,"null","%s returned NULL",op); VH_CHECK(stringptrlist_getsize(l)==np,"count","%s: %zu pieces, expected %zu",op,stringptrlist_getsize(l),np); if(np>16) VH_COUNT("more than 16 pieces",1);
	for(size_t i=0;i<np;i++) { stringptr*s=stringptrlist_get(l,i); VH_CHECK(s&&s->size==P[i].n,"piece","%s: piece %zu has %zu bytes, expected %zu",op,i,s?s->size:0,P[i].n); VH_CHECK(s->ptr==base+P[i].a,"pointer","%s: piece %zu at offset %td, expected %zu",op,i,s->ptr-base,P[i].a); VH_CHECK(!memcmp(s->ptr,t+P[i].a,P[i].n),"content","%s: piece %zu changed to '%s'",op,i,vh_esc(s->ptr,s->size)); VH_CHECK(s->ptr[s->size]==0,"terminator","%s: piece %zu is not terminated",op,i); }
}
static u64 splitone(int isstr) {
	size_t n=tsize(),dn=1,k; u8*t,d0[64],*d=d0; int lg=isstr&&vh_chance(1,100); if(lg) t=longtext(&d,&dn,&n); else { t=xmalloc(n+1); gen(t,n); if(vh_chance(1,5)) for(size_t q=0;q<n;q++) if(vh_chance(1,5)) { t[q]|=0x80; VH_COUNT("bytes above 127",1); } } t[n]=vh_rnd(); char*b=vh_gdup(t,n+1); stringptr s={b,n},ds; stringptrlist*l;
	if(isstr) { if(!lg) dn=gend(d,t,n); ds.ptr=vh_rdup(d,dn); ds.size=dn; if(dn>n) VH_COUNT("delimiter longer than text",1); if(!dn) VH_COUNT("empty delimiter",1); }
	else { d[0]=",ab\n\0"[vh_below(5)]; if(vh_chance(1,6)) d[0]=vh_below(128); }
	k=model(t,n,d,dn); if(!k) VH_COUNT("no match",1);
	if(isstr) { l=stringptr_splits(&s,&ds); VH_COUNT("splits",1); } else if(d[0]=='\n'&&vh_chance(1,2)) { l=stringptr_linesplit(&s); VH_COUNT("linesplit",1); } else { l=stringptr_splitc(&s,d[0]); VH_COUNT("splitc",1); }
	VH_TRACE("split '%s' by '%s'",vh_esc(t,n),vh_esc(d,dn));
	pieces(l,b,t,isstr?"splits":"splitc"); VH_CHECK(np==k+1,"count","model");
	VH_CHECK(s.ptr==b&&s.size==n,"arg-modified","text slice changed"); if(isstr) { VH_CHECK(ds.size==dn&&!memcmp(ds.ptr,d,dn),"arg-modified","delimiter changed"); vh_gfree(ds.ptr); }
	if(vh_chance(1,3)) { ssize_t r=stringptrlist_dup_entries(l); VH_CHECK(r==-1,"dup","dup_entries returned %zd",r); memset(b,'#',n+1); for(size_t i=0;i<np;i++) { stringptr*q=stringptrlist_get(l,i); VH_CHECK(q->size==P[i].n&&!memcmp(q->ptr,t+P[i].a,P[i].n)&&q->ptr[q->size]==0,"dup","entry %zu differs after dup_entries",i); } VH_COUNT("dup entries",1); if(vh_chance(1,2)) { stringptrlist_freestrings(l); VH_CHECK(stringptrlist_getsize(l)==np,"freestrings","list shrank"); for(size_t i=0;i<np;i++) VH_CHECK(stringptrlist_get(l,i)->ptr==0&&stringptrlist_get(l,i)->size==0,"freestrings","entry %zu not cleared",i); } stringptrlist_freeall(l); } else stringptrlist_free(l);
	u64 sig=vh_hash(d,dn,vh_hash(t,n,isstr)); vh_sample("'%.60s' by '%.20s': %zu pieces",vh_esc(t,n),vh_esc(d,dn),np); vh_gfree(b); xfree(t); if(lg) xfree(d); return sig;
}
static void split(u64 idx) { vh_seen(splitone(idx&1)); }
static void replace(u64 idx) {
	size_t n=tsize(),dn,rn,i; u8*t,d0[64],r0[64],*d=d0,*r=r0; int lg=vh_chance(1,100); if(lg) t=longtext(&d,&dn,&n); else { t=xmalloc(n+1); gen(t,n); dn=gend(d,t,n); } t[n]=vh_rnd(); char*b=vh_gdup(t,n+1); if(lg||vh_chance(1,200)) r=xmalloc(70000); rn=gend(r,t,n<60?n:60); if(vh_chance(1,3)) { rn=dn; memcpy(r,d,dn); } else if(r!=r0) { rn=longlen(); gen(r,rn); VH_COUNT("long replacement",1); } if(vh_chance(1,5)) rn=0; if(vh_chance(1,6)) { rn=60; memset(r,'R',60); }
	stringptr s={b,n},ds={vh_rdup(d,dn),dn},rs={vh_rdup(r,rn),rn}; size_t k=model(t,n,d,dn); bs m={0}; for(i=0;i<np;i++) { bs_put(&m,t+P[i].a,P[i].n); if(i+1<np) bs_put(&m,r,rn); }
	stringptr*q=stringptr_replace(&s,&ds,&rs); VH_COUNT("replace",1); if(k&&rn>dn) VH_COUNT("replace longer",1); if(k&&!rn) VH_COUNT("replace by nothing",1); if(!k) VH_COUNT("replace no match",1);
	VH_CHECK(q,"null","replace returned NULL"); VH_CHECK(q->size==m.n,"size","replace('%s','%s','%s'): size %zu, expected %zu",vh_esc(t,n),vh_esc(d,dn),vh_esc(r,rn),q->size,m.n); VH_CHECK(!memcmp(q->ptr,m.d,m.n),"content","replace('%s','%s','%s') gives '%s'",vh_esc(t,n),vh_esc(d,dn),vh_esc(r,rn),vh_esc(q->ptr,q->size)); VH_CHECK(q->ptr[q->size]==0,"terminator","replace: not terminated"); VH_CHECK(ds.size==dn&&rs.size==rn&&!memcmp(ds.ptr,d,dn)&&!memcmp(rs.ptr,r,rn),"arg-modified","pattern or replacement changed");
	stringptr_free(q); vh_seen(vh_hash(r,rn,vh_hash(d,dn,vh_hash(t,n,7)))); vh_gfree(b); vh_gfree(ds.ptr); vh_gfree(rs.ptr); xfree(t); bs_free(&m); if(lg) xfree(d); if(r!=r0) xfree(r);
}
static int cmpsp(const void*a,const void*b) { const stringptr*x=a,*y=b; size_t n=x->size<y->size?x->size:y->size; int r=memcmp(x->ptr,y->ptr,n); return r?r:x->size<y->size?-1:x->size>y->size; }
static void list(u64 idx) {
	size_t n=vh_chance(1,5)?0:vh_size(vh_chance(1,6)?300:12),i,max=vh_chance(1,8)?3000:6; bs*m=xcalloc(n+1,sizeof*m); bs u={0},w={0}; stringptrlist*l=stringptrlist_new(1+vh_below(20)); char**g=xcalloc(n+1,sizeof*g); u64 sig=n;
	for(i=0;i<n;i++) { size_t k=n<6?vh_xsize(max):vh_size(max); u8*t=xmalloc(k+1); gen(t,k); bs_put(m+i,t,k); xfree(t); g[i]=vh_rdup(m[i].d,k); if(vh_chance(1,2)) VH_CHECK(stringptrlist_add(l,g[i],k),"add","add"); else { VH_CHECK(stringptrlist_add(l,"tmp",3),"add","add"); VH_CHECK(stringptrlist_set(l,i,g[i],k),"set","set"); } bs_put(&u,m[i].d,k); bs_puts(&u,"\n"); bs_put(&w,m[i].d,k); bs_puts(&w,"\r\n"); sig=vh_hash(m[i].d,k,sig); }
	stringptr*r=stringptrlist_tostring(l); VH_CHECK(r&&r->size==u.n&&!memcmp(r->ptr,u.d?u.d:(u8*)"",u.n)&&r->ptr[r->size]==0,"join","tostring of %zu entries",n); stringptr_free(r); VH_COUNT("join",1); if(!n) VH_COUNT("empty list join",1);
	r=stringptrlist_tostring_dos(l); VH_CHECK(r&&r->size==w.n&&!memcmp(r->ptr,w.d?w.d:(u8*)"",w.n)&&r->ptr[r->size]==0,"join-dos","tostring_dos of %zu entries",n); stringptr_free(r); VH_COUNT("dos join",1);
	for(int q=0;q<4;q++) { u8 t[64]; size_t k=vh_below(7); gen(t,k); u8*src=t; if(n&&vh_chance(1,2)) { i=vh_below(n); src=m[i].d; k=m[i].n; } stringptr what={vh_rdup(src,k),k}; ssize_t e=-1; int c=0; for(i=0;i<n;i++) if(m[i].n==k&&!memcmp(m[i].d,src,k)) { if(e<0) e=i; c++; } ssize_t f=stringptrlist_find(l,&what); VH_CHECK(f==e,"find","find '%s' gives %zd, expected %zd",vh_esc(src,k),f,e); VH_CHECK(!!stringptrlist_contains(l,&what)==(e>=0),"contains","contains"); if(e<0) VH_COUNT("find miss",1); else VH_COUNT("find hit",1); if(c>1) VH_COUNT("find duplicate",1); vh_gfree(what.ptr); }
	VH_CHECK(stringptrlist_find(l,0)==-1&&stringptrlist_find(0,SPL("x"))==-1,"null","find with NULL");
	for(i=0;i<n;i++) { stringptr*s=stringptrlist_get(l,i); VH_CHECK(s->ptr==g[i]&&s->size==m[i].n&&!memcmp(g[i],m[i].d,m[i].n),"arg-modified","entry %zu changed",i); }
	VH_CHECK(stringptrlist_getsize(l)==n&&!stringptrlist_empty(l)==!!n,"size","list size changed");
	if(vh_chance(1,3)) { stringptrlist*o=stringptrlist_new(3); for(i=0;i<n;i++) { size_t at=stringptrlist_insert_sorted(o,g[i],m[i].n,cmpsp); VH_CHECK(at<=i,"sorted","insert_sorted returned %zu",at); } for(i=1;i<n;i++) VH_CHECK(cmpsp(stringptrlist_get(o,i-1),stringptrlist_get(o,i))<=0,"sorted","not sorted at %zu",i); VH_CHECK(stringptrlist_getsize(o)==n,"sorted","lost entries"); if(n) VH_COUNT("insert sorted",1); stringptrlist_free(o); }
	if(vh_chance(1,3)) { stringptrlist*o=stringptrlist_new(3); for(i=0;i<n;i++) { VH_CHECK(stringptrlist_add_strdup(o,stringptrlist_get(l,i)),"strdup","add_strdup failed"); } for(i=0;i<n;i++) { stringptr*s=stringptrlist_get(o,i); VH_CHECK(s->size==m[i].n&&s->ptr!=g[i]&&!memcmp(s->ptr,m[i].d,m[i].n)&&s->ptr[s->size]==0,"strdup","entry %zu",i); } stringptrlist_freeall(o); }
	stringptrlist_free(l); for(i=0;i<n;i++) { vh_gfree(g[i]); bs_free(m+i); } xfree(m); xfree(g); bs_free(&u); bs_free(&w); vh_seen(sig);
}
static void nulls(u64 idx) { stringptr s={"x",1}; VH_CHECK(!stringptr_replace(0,&s,&s)&&!stringptr_replace(&s,0,&s)&&!stringptr_replace(&s,&s,0),"null","replace with NULL"); }
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(64<<20)+vh_below(4000); char*p=hugetext(n,'a'); stringptr s={p,n}; stringptrlist*l; size_t c[4]={7,(1ull<<31)+5,(1ull<<32)+9,n-2},i,b=0;
	if(idx==0) { for(i=0;i<4;i++) p[c[i]]=','; l=stringptr_splitc(&s,','); VH_CHECK(l&&stringptrlist_getsize(l)==5,"huge","%zu pieces",l?stringptrlist_getsize(l):0); for(i=0;i<5;i++) { size_t e=i<4?c[i]:n; stringptr*q=stringptrlist_get(l,i); VH_CHECK(q->ptr==p+b&&q->size==e-b&&!p[e],"huge","splitc: piece %zu at %td has %zu bytes, expected %zu at %zu",i,q->ptr-p,q->size,e-b,b); b=e+1; } stringptrlist_free(l); }
	else if(idx==1) { for(i=0;i<4;i++) memcpy(p+c[i],"::",i==3?2:2); l=stringptr_splits(&s,SPL("::")); VH_CHECK(l&&stringptrlist_getsize(l)==5,"huge","%zu pieces",l?stringptrlist_getsize(l):0); for(i=0;i<5;i++) { size_t e=i<4?c[i]:n; stringptr*q=stringptrlist_get(l,i); VH_CHECK(q->ptr==p+b&&q->size==e-b&&!p[e],"huge","splits: piece %zu at %td has %zu bytes, expected %zu at %zu",i,q->ptr-p,q->size,e-b,b); b=e+2; } stringptrlist_free(l); }
	else { l=stringptrlist_new(4); stringptr w={p,n-(1ull<<32)}; for(i=0;i<3;i++) stringptrlist_add(l,p,n-i); VH_CHECK(stringptrlist_find(l,&w)==-1,"huge","find of a shorter text"); w.size=n-2; VH_CHECK(stringptrlist_find(l,&w)==2,"huge","find"); VH_CHECK(stringptrlist_get(l,2)->size==n-2,"huge","stored size"); stringptrlist_free(l);
		/* joining: 2 entries of 2.1 GiB */
		l=stringptrlist_new(4); size_t h=n/2; stringptrlist_add(l,p,h); stringptrlist_add(l,p,h); stringptr*r=idx==3?stringptrlist_tostring(l):stringptrlist_tostring_dos(l); size_t k=idx==3?1:2; VH_CHECK(r&&r->size==2*h+2*k,"huge","join of 2 x %zu bytes has %zu bytes",h,r?r->size:0); VH_CHECK(r->ptr[h+k-1]=='\n'&&r->ptr[2*h+2*k-1]=='\n'&&!r->ptr[2*h+2*k]&&r->ptr[h-1]=='a'&&r->ptr[2*h+k-1]=='a'&&!memcmp(r->ptr,p,h)&&!memcmp(r->ptr+h+k,p,h),"huge","join: wrong bytes"); stringptr_free(r); stringptrlist_free(l); }
	VH_COUNT("huge texts",1); vh_seen(idx+1); hugefree(p,n);
}
const vh_mode vh_modes[]={{"huge",huge,3,4},{0}};
#else
const vh_mode vh_modes[]={{"split",split,80000,3000000},{"replace",replace,60000,2000000},{"list",list,20000,600000},{"nulls",nulls,10,10},{0}};
#endif
