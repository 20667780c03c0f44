/* C18: path normalisation vs. a component-stack model */
#include "vh.h"
#include "filelib.h"
#include <limits.h>
const char *const vh_rule="random paths from components (empty, '.', '..', '...', dot-prefixed and dot-suffixed names, long names), relative and absolute, up to PATH_MAX; compared with a component-stack model; idempotence, agreement of both normalisers, path differences of related and unrelated paths, file name and extension helpers; exact-size buffers; distinct = hash of path";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge paths",0};
#else
const char *const vh_required[]={"normalised","refused above root","refused relative","empty path","trailing slash","dot components","dotdot components","near PATH_MAX","longer than PATH_MAX","root result","difference found","difference refused","shared prefix but not inside","difference from root","equal paths","file name","file name absent","extension","extension absent","names starting with dots","sizes beyond 16 bits","path inside a longer text",0};
#endif
static int model(const char*p,size_t n,bs*o) { static size_t st[200000]; size_t k=0,i=0; o->n=0; bs_put(o,"",0); if(!n||p[0]!='/') return 0; while(i<n) { while(i<n&&p[i]=='/') i++; size_t b=i; while(i<n&&p[i]!='/') i++; size_t l=i-b; if(!l) break; if(l==1&&p[b]=='.') { VH_COUNT("dot components",1); continue; } if(l==2&&p[b]=='.'&&p[b+1]=='.') { VH_COUNT("dotdot components",1); if(!k) return 0; o->n=st[--k]; continue; } st[k++]=o->n; bs_putc(o,'/'); bs_put(o,p+b,l); } if(!o->n) bs_putc(o,'/'); o->d[o->n]=0; return 1; }
static void gen(bs*b,int kind) {
	static const char*c[]={"a","b","ab",".","..","...",".a","..a","a.","a..","",".","..","x y","*","....","a.b","\xff",". ","..\n"}; b->n=0; bs_put(b,"",0); if(kind==0) { size_t n=vh_below(14); char t[20]; vh_text(t,n,"/.a",3); bs_put(b,t,n); if(vh_chance(3,4)&&n) b->d[0]='/'; return; }
	size_t n=vh_below(vh_chance(1,4)?25:6),i; if(!vh_chance(1,10)) bs_putc(b,'/'); int noup=vh_chance(1,2); for(i=0;i<n;i++) { const char*s=c[vh_below(20)]; if(noup&&!strcmp(s,"..")) s="a"; bs_puts(b,s); if(i+1<n||vh_chance(1,4)) bs_putc(b,'/'); if(vh_chance(1,9)) bs_puts(b,"//"); }
	if(kind==2) { size_t want=PATH_MAX-12+vh_below(24); if(vh_chance(1,3)) want=vh_size(9000); if(vh_chance(1,25)) { want=65500+vh_below(70000); VH_COUNT("sizes beyond 16 bits",1); } while(b->n<want) { size_t l=1+vh_below(want-b->n<255?want-b->n:255); if(b->n&&b->d[b->n-1]!='/') { bs_putc(b,'/'); l--; } while(l--) bs_putc(b,vh_chance(1,20)?'.':vh_chance(1,20)?'/':'n'); } }
}
static void norm(u64 idx) {
	static bs b,o,q; gen(&b,vh_chance(1,16)?2:vh_below(2)); size_t n=b.n; int ok=model((char*)b.d,n,&o); char*g=vh_gdup(b.d,n+1); stringptr s={g,n}; int big=n>=PATH_MAX;
	if(!n) VH_COUNT("empty path",1); else if(b.d[0]!='/') VH_COUNT("refused relative",1); else if(!ok) VH_COUNT("refused above root",1); if(n&&ok&&b.d[n-1]=='/') VH_COUNT("trailing slash",1); if(n>PATH_MAX-20&&!big) VH_COUNT("near PATH_MAX",1); if(big) VH_COUNT("longer than PATH_MAX",1); if(strstr((char*)b.d,"/.a")||strstr((char*)b.d,"/...")) VH_COUNT("names starting with dots",1);
	int r=normalizepath(&s); VH_CHECK(s.ptr==g,"ptr","normalizepath moved the pointer");
	if(!big) VH_CHECK(!!r==ok,"verdict","normalizepath('%s')=%d, expected %d",vh_esc(b.d,n),r,ok);
	if(r) { VH_CHECK(ok,"verdict","normalizepath('%s') succeeded",vh_esc(b.d,n)); VH_CHECK(s.size==o.n&&!memcmp(g,o.d,o.n+1),"normal-form","normalizepath('%s')='%s', expected '%s'",vh_esc(b.d,n),vh_esc(g,s.size),vh_esc(o.d,o.n)); VH_COUNT("normalised",1); if(o.n==1) VH_COUNT("root result",1); int r2=normalizepath(&s); VH_CHECK(r2&&s.size==o.n&&!memcmp(g,o.d,o.n+1),"idempotent","normalising '%s' again gives '%s'",vh_esc(o.d,o.n),vh_esc(g,s.size)); }
	else VH_CHECK(s.size==n&&!memcmp(g,b.d,n+1),"failed-modified","failed normalizepath changed '%s'",vh_esc(b.d,n));
	char*in=vh_rdup(b.d,n+1),*out=vh_gbuf(n+1); char*c=normalizepath_cstr(in,out); VH_CHECK(!memcmp(in,b.d,n+1),"failed-modified","normalizepath_cstr changed its input"); VH_CHECK(c==(ok?out:0),"verdict-cstr","normalizepath_cstr('%s') %s",vh_esc(b.d,n),c?"succeeded":"failed"); if(ok) { VH_CHECK(!strcmp(out,(char*)o.d),"normal-form-cstr","normalizepath_cstr('%s')='%s', expected '%s'",vh_esc(b.d,n),vh_esc(out,strnlen(out,n+1)),vh_esc(o.d,o.n)); char*o2=vh_gbuf(o.n+1),*i2=vh_rdup(o.d,o.n+1); VH_CHECK(normalizepath_cstr(i2,o2)==o2&&!strcmp(o2,(char*)o.d),"idempotent","cstr normalising '%s' again",vh_esc(o.d,o.n)); vh_gfree(o2); vh_gfree(i2); }
	/* the same path as a part of a longer text: what follows must not matter, and nothing behind the terminator's position may change */
	{ size_t k=vh_below(6),j; char tail[8]; vh_text(tail,6,"/..a",4); char*h=vh_gbuf(n+k); memcpy(h,b.d,n); memcpy(h+n,tail,k); if(k) { stringptr t={h,n}; int r3=normalizepath(&t); if(!big) VH_CHECK(!!r3==ok,"verdict","normalizepath('%s')=%d with '%s' behind the path, expected %d",vh_esc(b.d,n),r3,vh_esc(tail,k),ok); if(r3) VH_CHECK(t.size==o.n&&!memcmp(h,o.d,o.n+(o.n<n)),"normal-form","normalizepath('%s') with '%s' behind it gives '%s', expected '%s'",vh_esc(b.d,n),vh_esc(tail,k),vh_esc(h,t.size),vh_esc(o.d,o.n)); else VH_CHECK(t.size==n&&!memcmp(h,b.d,n)&&!memcmp(h+n,tail,k),"failed-modified","failed normalizepath changed '%s'",vh_esc(b.d,n)); for(j=0;j<k;j++) VH_CHECK(h[n+j]==tail[j]||(j==0&&r3&&o.n==n&&!h[n]),"behind","byte %zu behind the path changed",j); VH_COUNT("path inside a longer text",1); } vh_gfree(h); }
	if(n>1) vh_seen(vh_hash(b.d,n,1)); vh_sample("'%.80s' -> %s '%.60s'",vh_esc(b.d,n),ok?"ok":"refused",vh_esc(o.d,o.n)); vh_gfree(g); vh_gfree(in); vh_gfree(out); (void)q;
}
static void diff(u64 idx) {
	static bs a,b,x,y; int k=vh_below(6); gen(&a,vh_below(2)); if(vh_chance(1,20)) gen(&a,2);
	if(vh_chance(1,2)&&a.n&&a.d[0]=='/') { for(size_t i=0;i+1<a.n;i++) if(a.d[i]=='.'&&a.d[i+1]=='.') a.d[i]='u'; }
	if(k==0) gen(&b,1); else if(k==1) { b.n=0; bs_put(&b,a.d,a.n); bs_puts(&b,"/"); static bs t; gen(&t,1); bs_put(&b,t.d,t.n); } else if(k==2) { b.n=0; bs_put(&b,a.d,a.n); bs_puts(&b,vh_chance(1,2)?"x":"/x"); } else if(k==3) { b.n=0; bs_put(&b,a.d,a.n); if(vh_chance(1,2)) bs_puts(&b,"/."); } else if(k==4) { a.n=0; bs_puts(&a,vh_chance(1,2)?"/":"/a/.."); gen(&b,1); } else { b.n=0; bs_put(&b,a.d,a.n); if(b.n>1) { b.n=1+vh_below(b.n-1); b.d[b.n]=0; } }
	if(a.n>=PATH_MAX||b.n>=PATH_MAX) return;
	int oa=model((char*)a.d,a.n,&x),ob=model((char*)b.d,b.n,&y); ssize_t e=-1; const char*rest=""; size_t pl=x.n==1?0:x.n; if(oa&&ob&&y.n>=pl&&!memcmp(x.d,y.d,pl)&&(y.n==pl||y.d[pl]=='/')) { e=y.n-pl; rest=(char*)y.d+pl; }
	char*ga=vh_gdup(a.d,a.n+1),*gb=vh_gdup(b.d,b.n+1),*w=vh_gbuf(b.n+1); stringptr sa={ga,a.n},sb={gb,b.n}; ssize_t r=getpathdiff(&sa,&sb,w); int equal=oa&&ob&&x.n==y.n&&!memcmp(x.d,y.d,x.n);
	if(equal) { VH_CHECK(r==-1||(r==0&&!w[0])||(x.n==1&&r==1&&!strcmp(w,"/")),"diff-equal","difference of equal paths '%s': %zd",vh_esc(x.d,x.n),r); VH_COUNT("equal paths",1); }
	else { VH_CHECK(r==e,"diff","getpathdiff('%s','%s')=%zd, expected %zd",vh_esc(a.d,a.n),vh_esc(b.d,b.n),r,e); if(e>=0) { VH_CHECK(w[0]=='/'&&!memcmp(w,rest,e+1),"diff-text","getpathdiff('%s','%s')='%s', expected '%s'",vh_esc(a.d,a.n),vh_esc(b.d,b.n),vh_esc(w,e),rest); VH_COUNT("difference found",1); if(x.n==1) VH_COUNT("difference from root",1); } else { VH_COUNT("difference refused",1); if(oa&&ob&&y.n>x.n&&!memcmp(x.d,y.d,x.n)) VH_COUNT("shared prefix but not inside",1); } }
	if(oa&&ob) VH_CHECK(sa.ptr==ga&&sa.size==x.n&&!memcmp(ga,x.d,x.n)&&sb.ptr==gb&&sb.size==y.n&&!memcmp(gb,y.d,y.n),"diff-args","paths after getpathdiff are '%s' and '%s'",vh_esc(sa.ptr,sa.size),vh_esc(sb.ptr,sb.size));
	{ /* both inside longer texts */ char tail[4]; vh_text(tail,4,"/..a",4); char*ha=vh_gbuf(a.n+4),*hb=vh_gbuf(b.n+4); memcpy(ha,a.d,a.n); memcpy(ha+a.n,tail,4); memcpy(hb,b.d,b.n); memcpy(hb+b.n,tail,4); stringptr ta={ha,a.n},tb={hb,b.n}; char*w2=vh_gbuf(b.n+1); ssize_t r2=getpathdiff(&ta,&tb,w2); VH_CHECK(r2==r&&(r<0||!memcmp(w,w2,r+1)),"diff","getpathdiff('%s','%s') inside longer texts gives %zd instead of %zd",vh_esc(a.d,a.n),vh_esc(b.d,b.n),r2,r); VH_CHECK(!memcmp(ha+a.n+1,tail+1,3)&&!memcmp(hb+b.n+1,tail+1,3),"behind","text behind the paths changed"); vh_gfree(ha); vh_gfree(hb); vh_gfree(w2); }
	vh_seen(vh_hash(b.d,b.n,vh_hash(a.d,a.n,2))); vh_sample("'%.60s' vs '%.60s' -> %zd",vh_esc(a.d,a.n),vh_esc(b.d,b.n),r); vh_gfree(ga); vh_gfree(gb); vh_gfree(w);
}
static void helpers(u64 idx) {
	static bs b; gen(&b,vh_below(2)); if(vh_chance(1,5)) { b.n=0; size_t n=vh_xsize(600); while(n--) bs_putc(&b,"./aaaaaa"[vh_below(8)]); bs_put(&b,"",0); } size_t n=b.n,i; char*g=vh_rdup(b.d,n); stringptr s={g,n}; char*e=0; for(i=n;i-->0;) if(b.d[i]=='/') { e=g+i+1; break; } char*r=getfilename(&s); VH_CHECK(r==e,"filename","getfilename('%s')",vh_esc(b.d,n)); if(e) VH_COUNT("file name",1); else VH_COUNT("file name absent",1);
	e=0; for(i=n;i-->0;) if(b.d[i]=='.') { e=g+i+1; break; } r=getFileExt(g,n); VH_CHECK(r==e,"ext","getFileExt('%s') gives offset %td, expected %td",vh_esc(b.d,n),r?r-g:-1,e?e-g:-1); if(e) VH_COUNT("extension",1); else VH_COUNT("extension absent",1); VH_CHECK(!memcmp(g,b.d,n),"modified","helper modified the name"); vh_seen(vh_hash(b.d,n,3)); vh_gfree(g);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(1<<20)+vh_below(4000); char*t=hugetext(n,'a'); t[0]='/';
	if(idx==0) { VH_CHECK(!getFileExt(t,n),"huge","extension of a name without a dot"); t[10]='.'; VH_CHECK(getFileExt(t,n)==t+11,"huge","extension from offset 11 of %zu",n); t[n-9]='.'; VH_CHECK(getFileExt(t,n)==t+n-8,"huge","extension at the end of %zu",n); VH_CHECK(getFileExt(t,n-9)==t+11,"huge","extension before the slice's end");
		stringptr s={t,n}; VH_CHECK(getfilename(&s)==t+1,"huge","name after the only slash"); t[n-20]='/'; VH_CHECK(getfilename(&s)==t+n-19,"huge","name after the last slash"); s.size=(1ull<<32)+6; VH_CHECK(!normalizepath(&s),"huge","normalises a path of %zu bytes",s.size); }
	else { char*o=malloc(n+1); if(!o) vh_internal("no memory"); memcpy(t+n-14,"/b/./c/../d//e",14); char*r=normalizepath_cstr(t,o); VH_CHECK(r==o&&!strcmp(o+n-14,"/b/d/e"),"huge","path of %zu characters: ends '%.20s'",n,r?o+n-14:"(refused)"); memcpy(t+n-14,"/../x/../..///",14); r=normalizepath_cstr(t,o); VH_CHECK(!r||!strcmp(o,"/"),"huge","path of %zu characters out of the root",n); memcpy(t+n-14,"/../x/../y////",14); r=normalizepath_cstr(t,o); VH_CHECK(r==o&&!strcmp(o,"/y"),"huge","going up over a component of 4 GiB: %.20s",r?r:"(refused)"); free(o); }
	VH_COUNT("huge paths",1); vh_seen(idx+1); hugefree(t,n);
}
const vh_mode vh_modes[]={{"huge",huge,2,2},{0}};
#else
const vh_mode vh_modes[]={{"normalise",norm,250000,9000000},{"difference",diff,120000,4000000},{"helpers",helpers,80000,2000000},{0}};
#endif
