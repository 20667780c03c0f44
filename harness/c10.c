/* C10: string slices vs. a byte-sequence model, slices flush against poisoned memory */
#include "vh.h"
#include "stringptr.h"
const char *const vh_rule="random slice contents (all bytes, NULs, empty, up to 70000 bytes) and operations compared with a byte-sequence model; slices are exact-size buffers; distinct = hash of operation, contents and result";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge slices",0};
#else
const char *const vh_required[]={"new","copy","strdup","concat","concat of 3+","null slice inside concat","eq true","eq false same size","different slices with one hash","contains true","contains false","here true","here false","here far position","hash","shift ok","shift refused","chomp removed","chomp nothing","rchr found","rchr none","fromchar","NUL inside","empty slice","literals","NULL arguments","sizes beyond 16 bits","slices beyond the stack",0};
#endif
typedef struct { stringptr s; u8 *m; size_t n; } sl;
static void fill(u8*p,size_t n) { switch(vh_below(4)) { case 0: vh_bytes(p,n); break; case 1: vh_text((char*)p,n,"ab",2); break; case 2: vh_text((char*)p,n,"a\0\n\r",4); break; default: vh_text((char*)p,n,"abcdefgh \n\r\xff",12); } }
static sl mk(size_t n) { sl r; r.n=n; r.m=xmalloc(n+1); fill(r.m,n); r.s.ptr=vh_rdup(r.m,n); r.s.size=n; if(n&&memchr(r.m,0,n)) VH_COUNT("NUL inside",1); if(!n) VH_COUNT("empty slice",1); return r; }
static sl mkterm(size_t n) { sl r; r.n=n; r.m=xmalloc(n+1); fill(r.m,n); r.m[n]=vh_rnd(); r.s.ptr=vh_gdup(r.m,n+1); r.s.size=n; return r; }
static void same(sl*x,const char*op) { VH_CHECK(x->s.size==x->n&&!memcmp(x->s.ptr,x->m,x->n),"arg-modified","%s modified its argument",op); }
static void done(sl*x) { vh_gfree(x->s.ptr); xfree(x->m); }
static void chk(stringptr*r,const void*m,size_t n,const char*op) {
	VH_CHECK(r,"null","%s returned NULL",op); VH_CHECK(r->size==n,"size","%s: size %zu, expected %zu",op,r->size,n); VH_CHECK(r->ptr,"null","%s: no buffer",op);
	VH_CHECK(!memcmp(r->ptr,m,n),"content","%s: wrong bytes: '%s' expected '%s'",op,vh_esc(r->ptr,n),vh_esc(m,n)); VH_CHECK(r->ptr[n]==0,"terminator","%s: no terminator",op);
}
static u32 elf(const u8*p,size_t n) { u32 h=0,g; while(n--) { h=(h<<4)+*p++; g=h&0xf0000000u; if(g) h^=g>>24; h&=~g; } return h; }
static void nullify(u64 idx) { stringptr*n=0; int a=0; VH_CHECK(stringptr_eq(0,0)==1,"null","eq(NULL,NULL)"); sl x=mk(vh_size(50)); VH_CHECK(!stringptr_eq(0,&x.s)&&!stringptr_eq(&x.s,0),"null","eq with NULL"); VH_CHECK(!stringptr_shiftleft(0,1)&&!stringptr_shiftright(0,1)&&!stringptr_chomp(0)&&!stringptr_rchr(0,'a')&&!stringptr_copy(0)&&!stringptr_strdup(0),"null","NULL argument"); stringptr o={(char*)1,77}; VH_CHECK(stringptr_fromchar(0,&o)==&o&&o.ptr==0&&o.size==0,"null","fromchar(NULL)");
	VH_CHECK(stringptr_getsize_s(n)==0&&stringptr_get_s(n)==0&&stringptr_empty_s(n),"null","_s macros"); VH_CHECK(stringptr_getsize_s(&x.s)==x.n&&stringptr_get_s(&x.s)==x.s.ptr&&!stringptr_empty_s(&x.s)==!!x.n&&!stringptr_empty(&x.s)==!!x.n,"macro","accessor macros"); VH_COUNT("NULL arguments",1);
	{ static stringptr si=SPINITIALIZER("a static one\0."),s0=SPINITIALIZER(""); char arr[]="array"; stringptr sx=SP_INIT(x.s.ptr,x.n),*l=SPLITERAL("lit\0eral"),*e=SPLITERAL(""),*k=SPL("k"),*ar=SPLITERAL(arr),*mk_=SPMAKE(x.s.ptr,x.n>0?x.n-1:0); VH_CHECK(si.size==14&&!memcmp(si.ptr,"a static one\0.",15)&&s0.size==0&&s0.ptr&&sx.ptr==x.s.ptr&&sx.size==x.n&&l->size==8&&!memcmp(l->ptr,"lit\0eral",9)&&e->size==0&&e->ptr&&k->size==1&&*k->ptr=='k'&&ar->ptr==arr&&ar->size==5&&mk_->ptr==x.s.ptr&&mk_->size==(x.n?x.n-1:0)&&SPNIL==0,"macro","literal macros"); VH_CHECK(stringptr_getsize(l)==8&&stringptr_get(l)==l->ptr&&stringptr_getsize(&x.s)==x.n&&stringptr_getsize_s(x.n?&x.s:0)==x.n&&stringptr_get_s(idx&1?l:0)==(idx&1?l->ptr:0)&&stringptr_empty_s(idx&1?l:n)==!(idx&1)&&stringptr_empty(e)&&!stringptr_empty(idx&1?l:k),"macro","accessor macros with expressions");
	  stringptr*c=SDUP(l); chk(c,"lit\0eral",8,"SDUP"); VH_CHECK(EQ(c,l)&&!EQ(c,k)&&!EQ(idx&1?k:e,l),"macro","EQ"); stringptr_free(c); VH_CHECK(!c,"free","stringptr_free"); stringptr*hold[2]={SDUP(k),SDUP(l)}; int hi=0; stringptr_free(hold[hi]); VH_CHECK(!hold[0]&&hold[1]&&hold[1]->size==8,"free","stringptr_free of an array element"); stringptr_free(hold[1]); char cb[6]="ab\r\n"; stringptr cs={cb,4}; VH_CHECK(CHOMP(&cs)==2&&cs.size==2,"macro","CHOMP"); VH_COUNT("literals",1); }
	same(&x,"accessors"); done(&x); (void)a; }
static void make(u64 idx) {
	sl x=mk(vh_size(70000)); stringptr*r; u64 sig=vh_hash(x.m,x.n,idx%3);
	r=stringptr_copy(&x.s); chk(r,x.m,x.n,"copy"); same(&x,"copy"); VH_CHECK(r->ptr!=x.s.ptr,"alias","copy shares its buffer"); memset(r->ptr,'!',r->size); same(&x,"writing to the copy"); stringptr_free(r); VH_CHECK(!r,"free","stringptr_free"); VH_COUNT("copy",1);
	char*d=stringptr_strdup(&x.s); VH_CHECK(d,"null","strdup"); VH_CHECK(!memcmp(d,x.m,x.n)&&d[x.n]==0,"content","strdup: wrong bytes"); same(&x,"strdup"); memset(d,'!',x.n+1); same(&x,"writing to the dup"); free(d); VH_COUNT("strdup",1);
	r=stringptr_new(x.n); VH_CHECK(r&&r->size==x.n&&r->ptr[x.n]==0,"new","stringptr_new(%zu)",x.n); memset(r->ptr,0x55,x.n+1); stringptr_free(r); VH_COUNT("new",1);
	VH_CHECK(stringptr_hash(&x.s)==elf(x.m,x.n),"hash","hash of '%s' is %x, expected %x",vh_esc(x.m,x.n),stringptr_hash(&x.s),elf(x.m,x.n)); same(&x,"hash"); VH_COUNT("hash",1);
	{ char*c=xmalloc(x.n+1); size_t i,k=x.n; for(i=0;i<k;i++) c[i]=x.m[i]?x.m[i]:'z'; c[k]=0; char*g=vh_rdup(c,k+1); stringptr o; VH_CHECK(stringptr_fromchar(g,&o)==&o&&o.ptr==g&&o.size==k,"fromchar","fromchar: size %zu expected %zu",o.size,k); VH_CHECK(!memcmp(g,c,k+1),"arg-modified","fromchar modified its argument"); if(vh_chance(1,3)) { SPDECLAREC(q,g); VH_CHECK(q->ptr==g&&q->size==k,"fromchar","SPDECLAREC"); } vh_gfree(g); xfree(c); VH_COUNT("fromchar",1); }
	vh_sample("copy/strdup/hash of %zu bytes '%.60s'",x.n,vh_esc(x.m,x.n)); vh_seen(sig); done(&x);
}
static void concat(u64 idx) {
	sl a[6]; int n=1+vh_below(6),i; bs m={0}; size_t max=vh_chance(1,6)?20000:60; for(i=0;i<6;i++) { a[i]=mk(i<n?vh_xsize(max):3); } int dupl=vh_chance(1,4); if(dupl&&n>1) { done(&a[n-1]); a[n-1]=mk(0); }
	stringptr*p[6]; for(i=0;i<6;i++) p[i]=&a[i].s; if(dupl&&n>2) p[1]=p[0]; stringptr nul={0,0}; for(i=0;i<n;i++) if(vh_chance(1,12)) { p[i]=&nul; if(i<n-1) VH_COUNT("null slice inside concat",1); } for(i=0;i<n;i++) if(p[i]->size) bs_put(&m,p[i]->ptr,p[i]->size); bs_put(&m,"",0);
	stringptr*r=0; switch(n) { case 1: r=stringptr_concat(p[0],(stringptr*)0); break; case 2: r=stringptr_concat(p[0],p[1],(stringptr*)0); break; case 3: r=stringptr_concat(p[0],p[1],p[2],(stringptr*)0); break; case 4: r=stringptr_concat(p[0],p[1],p[2],p[3],(stringptr*)0); break; case 5: r=stringptr_concat(p[0],p[1],p[2],p[3],p[4],(stringptr*)0); break; default: r=stringptr_concat(p[0],p[1],p[2],p[3],p[4],p[5],(stringptr*)0); }
	chk(r,m.d,m.n,"concat"); VH_COUNT("concat",1); if(n>2) VH_COUNT("concat of 3+",1); stringptr_free(r); vh_seen(vh_hash(m.d,m.n,n)); for(i=0;i<6;i++) { same(&a[i],"concat"); done(&a[i]); } bs_free(&m);
}
static void compare(u64 idx) {
	sl x=mk(vh_xsize(vh_chance(1,10)?9000:200)),y; int k=vh_below(6); size_t i;
	if(k==0) y=mk(vh_size(100)); else { size_t n=x.n; if(k==3&&n) n--; if(k==4) n++; y.n=n; y.m=xmalloc(n+1); fill(y.m,n); memcpy(y.m,x.m,n<x.n?n:x.n); if(k==2&&n) y.m[vh_chance(1,3)?n-1:vh_chance(1,2)?0:vh_below(n)]^=1u<<vh_below(8); if(k==5) { /* same size, same hash, different somewhere */ for(int t=0;t<30&&n>1;t++) { i=vh_below(n-1); if(vh_chance(1,3)) i=n/2-1+(n/2==0); if(i+1<n&&y.m[i]>0&&y.m[i+1]<240) { y.m[i]--; y.m[i+1]+=16; if(elf(y.m,n)==elf(x.m,n)) { VH_COUNT("different slices with one hash",1); break; } y.m[i]++; y.m[i+1]-=16; } } } y.s.ptr=vh_rdup(y.m,n); y.s.size=n; }
	int e=x.n==y.n&&!memcmp(x.m,y.m,x.n); int r=stringptr_eq(&x.s,&y.s),r2=EQ(&y.s,&x.s); VH_CHECK(!!r==e&&!!r2==e,"eq","eq('%s','%s')=%d,%d",vh_esc(x.m,x.n),vh_esc(y.m,y.n),r,r2); VH_CHECK(stringptr_eq(&x.s,&x.s),"eq","not equal to itself");
	if(e) { VH_COUNT("eq true",1); VH_CHECK(stringptr_hash(&x.s)==stringptr_hash(&y.s),"hash","equal slices hash differently"); } else if(x.n==y.n) VH_COUNT("eq false same size",1);
	same(&x,"eq"); same(&y,"eq"); vh_seen(vh_hash(y.m,y.n,vh_hash(x.m,x.n,1))); done(&x); done(&y); (void)i;
}
static void search(u64 idx) {
	sl h=mk(vh_xsize(vh_chance(1,8)?5000:80)),nd; size_t i,n; int e=0;
	if(vh_chance(1,2)&&h.n) { size_t at=vh_chance(1,3)?h.n:vh_below(h.n+1); n=vh_below(at+1); if(vh_chance(1,3)) n=vh_below(n+1); nd.n=n; nd.m=xmalloc(n+1); memcpy(nd.m,h.m+at-n,n); if(n&&vh_chance(1,3)) nd.m[n-1]^=1; nd.s.ptr=vh_rdup(nd.m,n); nd.s.size=n; } else nd=mk(vh_xsize(vh_chance(1,4)?100:5));
	for(i=0;i+nd.n<=h.n&&!e;i++) e=!memcmp(h.m+i,nd.m,nd.n);
	int r=stringptr_contains(&h.s,&nd.s); VH_CHECK(!!r==e,"contains","contains('%s','%s')=%d",vh_esc(h.m,h.n),vh_esc(nd.m,nd.n),r); if(e) VH_COUNT("contains true",1); else VH_COUNT("contains false",1);
	for(i=0;i<8;i++) { size_t pos=vh_chance(1,2)?vh_below(h.n+2):vh_chance(1,2)?h.n-nd.n+vh_below(3)-1:vh_chance(1,2)?vh_size(6000):vh_chance(1,3)?h.n-nd.n+(1ull<<(16+16*vh_below(3))):0-vh_below(nd.n+3)-vh_below(2); int w=pos<=h.n&&nd.n<=h.n-pos&&!memcmp(h.m+pos,nd.m,nd.n); if(pos>h.n&&nd.n) VH_COUNT("here far position",1); r=stringptr_here(&h.s,pos,&nd.s); VH_CHECK(!!r==w,"here","here('%s',%zu,'%s')=%d",vh_esc(h.m,h.n),pos,vh_esc(nd.m,nd.n),r); if(w) VH_COUNT("here true",1); else VH_COUNT("here false",1); }
	int c=vh_chance(1,2)&&h.n?h.m[vh_below(h.n)]:vh_below(128); c&=127; char*p=stringptr_rchr(&h.s,c),*w=0; for(i=h.n;i-->0;) if(h.m[i]==c) { w=h.s.ptr+i; break; } VH_CHECK(p==w,"rchr","rchr('%s',%d)",vh_esc(h.m,h.n),c); if(w) VH_COUNT("rchr found",1); else VH_COUNT("rchr none",1);
	same(&h,"search"); same(&nd,"search"); vh_seen(vh_hash(nd.m,nd.n,vh_hash(h.m,h.n,2))); vh_sample("'%.50s' in '%.60s' -> %d",vh_esc(nd.m,nd.n),vh_esc(h.m,h.n),e); done(&h); done(&nd);
}
static void large(u64 idx) { /* slices bigger than a stack */
	size_t n=(9u<<20)+vh_below(1u<<20),k=n-vh_below(5),at=n-k,i; char*h=xmalloc(n+1); memset(h,'q',n); for(i=0;i<64;i++) h[vh_below(n)]=vh_rnd(); h[0]='A'; h[n]=0; char*g=xmalloc(k+1); memcpy(g,h+at,k); g[k]=0; if(idx&1) g[k-1-vh_below(9)]^=1;
	stringptr a={h,n},b={g,k}; int e=!memcmp(h+at,g,k); VH_CHECK(!!stringptr_contains(&a,&b)==e,"contains","%zu bytes in %zu bytes",k,n); VH_CHECK(!!stringptr_here(&a,at,&b)==e,"here","%zu bytes at %zu of %zu",k,at,n); VH_CHECK(!!stringptr_eq(&a,&b)==(e&&k==n),"eq","slices of %zu and %zu bytes",n,k); VH_CHECK(stringptr_hash(&a)==elf((u8*)h,n),"hash","hash of %zu bytes",n);
	stringptr*c=stringptr_concat(&a,&b,&a,(stringptr*)0); VH_CHECK(c&&c->size==2*n+k&&!memcmp(c->ptr,h,n)&&!memcmp(c->ptr+n,g,k)&&!memcmp(c->ptr+n+k,h,n)&&!c->ptr[2*n+k],"content","concat of %zu, %zu and %zu bytes",n,k,n); stringptr_free(c); c=stringptr_copy(&b); VH_CHECK(c&&c->size==k&&!memcmp(c->ptr,g,k)&&!c->ptr[k],"content","copy of %zu bytes",k); stringptr_free(c); char*d=stringptr_strdup(&a); VH_CHECK(d&&!memcmp(d,h,n)&&!d[n],"content","strdup of %zu bytes",n); free(d);
	stringptr s2={h,n}; VH_CHECK(stringptr_rchr(&s2,'A')>=h&&stringptr_shiftright(&s2,5)&&s2.ptr==h+5&&s2.size==n-5,"shift","%zu bytes",n); memset(g,'\n',k); size_t got=stringptr_chomp(&b); VH_CHECK(got==k&&b.size==0,"chomp","%zu line ends: %zu removed, %zu left",k,got,b.size);
	VH_COUNT("slices beyond the stack",1); vh_seen(vh_hashu(n,k)); xfree(h); xfree(g); }
static void shift(u64 idx) {
	sl x=mkterm(vh_xsize(vh_chance(1,9)?9000:60)); size_t off=0,n=x.n; int i; u64 sig=vh_hash(x.m,x.n,5); char*base=x.s.ptr;
	if(vh_chance(1,2)) { size_t t=vh_below(n+1); for(size_t k=0;k<t&&k<12;k++) ((u8*)base)[n-1-k]=x.m[n-1-k]="\n\r"[vh_below(2)]; }
	for(i=0;i<6;i++) {
		int op=vh_below(3); size_t c=vh_chance(1,2)?vh_below(n+1):vh_chance(1,4)?n:n+1+(vh_chance(1,3)?-vh_below(9)-n-2:vh_below(9)); int ok=c<=n; sig=vh_hashu(op*1000+c,sig);
		if(op==0) { int r=stringptr_shiftright(&x.s,c); VH_CHECK(!!r==ok,"shift","shiftright(%zu) of %zu returned %d",c,n,r); if(ok) { off+=c; n-=c; } }
		else if(op==1) { int r=stringptr_shiftleft(&x.s,c); VH_CHECK(!!r==ok,"shift","shiftleft(%zu) of %zu returned %d",c,n,r); if(ok) { n-=c; x.m[off+n]=0; VH_CHECK(base[off+n]==0,"terminator","shiftleft: not terminated"); } }
		else { size_t k=0; while(n&&(x.m[off+n-1]=='\n'||x.m[off+n-1]=='\r')) { n--; k++; } if(k) x.m[off+n]=0; size_t r=CHOMP(&x.s); VH_CHECK(r==k,"chomp","chomp removed %zu, expected %zu",r,k); if(k) { VH_COUNT("chomp removed",1); VH_CHECK(base[off+n]==0,"terminator","chomp: not terminated"); } else VH_COUNT("chomp nothing",1); ok=1; }
		if(op<2) { if(ok) VH_COUNT("shift ok",1); else VH_COUNT("shift refused",1); }
		VH_CHECK(x.s.ptr==base+off&&x.s.size==n,"shift","slice is [%td,+%zu), expected [%zu,+%zu)",x.s.ptr-base,x.s.size,off,n);
		VH_CHECK(!memcmp(base,x.m,off+n),"content","bytes of the slice or in front of it changed"); { size_t q; for(q=off+n;q<=x.n;q++) VH_CHECK((u8)base[q]==x.m[q]||base[q]==0,"content","byte %zu behind the slice changed",q); }
	}
	vh_seen(sig); vh_gfree(base); xfree(x.m);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(64<<20)+vh_below(4000); char*p=hugetext(n,'a'); stringptr s={p,n},q,r; size_t at; u64 sig=idx;
	switch(idx) {
	case 0: VH_CHECK(stringptr_fromchar(p,&q)==&q&&q.ptr==p&&q.size==n,"huge","fromchar: size %zu, expected %zu",q.size,n); 
		VH_CHECK(stringptr_shiftright(&s,3)&&s.ptr==p+3&&s.size==n-3,"huge","shiftright"); VH_CHECK(!stringptr_shiftright(&s,n-2),"huge","shiftright beyond the end"); at=(1ull<<32)+77; VH_CHECK(stringptr_shiftright(&s,at)&&s.ptr==p+3+at&&s.size==n-3-at,"huge","shiftright by %zu",at); s.ptr=p; s.size=n;
		VH_CHECK(!stringptr_shiftleft(&s,n+1)&&s.size==n,"huge","shiftleft beyond"); p[n-1]='\n'; p[n-2]='\r'; p[n-3]='\n'; VH_CHECK(stringptr_chomp(&s)==3&&s.size==n-3&&!p[n-3],"huge","chomp: %zu bytes left",s.size); VH_CHECK(stringptr_shiftleft(&s,(1ull<<32)+5)&&s.size==n-3-(1ull<<32)-5&&!p[s.size],"huge","shiftleft by more than 2^32"); break;
	case 1: p[n-1000]='x'; VH_CHECK(stringptr_rchr(&s,'x')==p+n-1000,"huge","rchr near the end"); p[(1u<<31)+9]='y'; VH_CHECK(stringptr_rchr(&s,'y')==p+(1u<<31)+9,"huge","rchr in the middle"); VH_CHECK(!stringptr_rchr(&s,'z'),"huge","rchr of an absent character"); break;
	case 2: q.ptr=p; q.size=n-(1ull<<32); VH_CHECK(!stringptr_eq(&s,&q),"huge","slices of %zu and %zu bytes equal",s.size,q.size); q.ptr=hugetext(n,'a'); q.size=n; VH_CHECK(stringptr_eq(&s,&q)==1,"huge","equal slices not equal"); q.ptr[n-1]='b'; VH_CHECK(!stringptr_eq(&s,&q),"huge","last byte not compared"); hugefree(q.ptr,n); break;
	case 3: p[n-9]='n'; p[n-8]='e'; r=*SPL("ne"); VH_CHECK(stringptr_here(&s,n-9,&r)&&!stringptr_here(&s,n-9-(1ull<<32),&r),"huge","here"); VH_CHECK(!stringptr_here(&s,n-1,&r)&&!stringptr_here(&s,(1ull<<32)+n-9,&r),"huge","here at the end"); VH_CHECK(stringptr_contains(&s,&r)==1,"huge","contains: needle near the end not found"); p[n-8]='a'; VH_CHECK(!stringptr_contains(&s,&r),"huge","contains: absent needle found"); break;
	default: VH_CHECK(stringptr_hash(&s)==elf((u8*)p,n),"huge","hash of %zu bytes",n); }
	VH_COUNT("huge slices",1); vh_seen(sig); hugefree(p,n);
}
const vh_mode vh_modes[]={{"huge",huge,5,5},{0}};
#else
const vh_mode vh_modes[]={{"null",nullify,400,4000},{"make",make,30000,900000},{"concat",concat,30000,900000},{"compare",compare,60000,2000000},{"search",search,60000,2000000},{"shift",shift,60000,2000000},{"large",large,16,150},{0}};
#endif
