/* C12: text searches and character classes vs. naive models */
#include "vh.h"
#include "strlib.h"
#include "strswitch.h"
const char *const vh_rule="random texts and needles over small alphabets (partial matches that overlap the real one, matches at either end, wildcards, mixed case, all delimiter characters, bytes >= 128) compared with quadratic reference searches; character functions over all 256 bytes; distinct = hash of function, text and needle";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge texts",0};
#else
const char *const vh_required[]={"strstar found","strstar none","strstar with wildcard","overlapping partial match","match at the very end","strstr_uc found","strstr_uc none","findword found","findword none","findword skipped a part of a word","equality","strends true","strends false","containsChar","classes","case conversion","strdup_n","long needle found","needle longer than text","sizes beyond 16 bits","repeated units",0};
#endif
static int up(int c) { return c>='a'&&c<='z'?c-32:c; }
static int lead(int c) { return c&&strchr(" \t\n:,.;-",c); } static int trail(int c) { return c==0||lead(c)||c=='\r'; }
enum { STAR, UC, WORD };
static ssize_t model(int f,const u8*t,size_t n,const u8*d,size_t k) {
	size_t i,j,from=0; int part=0; if(!k) return -1;
	for(i=from;i+k<=n;i++) {
		for(j=0;j<k;j++) { int ok=f==STAR?(d[j]=='*'||d[j]==t[i+j]):(u8)up(t[i+j])==d[j]; if(!ok) break; }
		if(j<k) { if(j) part=1; continue; }
		if(f==WORD&&!((i==0||lead(t[i-1]))&&trail(t[i+k]))) { VH_COUNT("findword skipped a part of a word",1); continue; }
		if(part) VH_COUNT("overlapping partial match",1); if(i+k==n) VH_COUNT("match at the very end",1); return i;
	}
	return -1;
}
static void search(u64 idx) {
	static const struct { const char*a; int n; } al[]={{"ab",2},{"aAbB",4},{"aab*",4},{"ab -.",5},{"aAzZ,;:\r\n\t .-_",15},{"\x80\xe1" "aA\xc1",5},{"@A[`a{",6},{"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ",63}};
	int f=idx%3,q=vh_below(8); size_t n=vh_xsize(vh_chance(1,12)?6000:40),k,i; u8*t=xmalloc(n+1),d0[80],*d=d0; vh_text((char*)t,n,al[q].a,al[q].n); if(vh_chance(1,10)) vh_bytes(t,n); for(i=0;i<n;i++) if(!t[i]) t[i]='b'; t[n]=0;
	k=1+vh_below(vh_chance(1,3)?2:8); if(vh_chance(1,20)) k=n+1+vh_below(3); if(k>70) k=70; int lg=n>260&&vh_chance(1,2); u8*dl=0; if(lg) { size_t q=vh_chance(1,4)?n:260; k=q-vh_below(12); d=dl=xmalloc(k+1); }
	if((lg?vh_chance(5,6):vh_chance(1,2))&&n>=k) { size_t at=vh_chance(1,3)?n-k:vh_below(n-k+1); memcpy(d,t+at,k); if(f==STAR) for(i=0;i<k;i++) { if(vh_chance(1,5)) d[i]='*'; } if(f==WORD&&vh_chance(2,3)) { if(at) t[at-1]=" \t\n:,.;-"[vh_below(8)]; if(at+k<n) t[at+k]=" \t\n:,.;-\r"[vh_below(9)]; } } else { vh_text((char*)d,k,al[q].a,al[q].n); if(f==STAR&&vh_chance(1,2)) d[vh_below(k)]='*'; }
	if(!lg&&n&&vh_chance(1,12)) { /* needle and text repeat one unit, with separators inside */ static const char*const U[]={"A-","A ","AB.","A","AB","A:A-","AAB","A-A ","-"}; const char*u=U[vh_below(9)]; size_t ul=strlen(u),of=vh_below(ul); k=1+vh_below(3*ul+3); for(i=0;i<k;i++) d[i]=u[(i+of)%ul]; for(i=0;i<n;i++) t[i]=u[i%ul]; for(i=vh_below(5);i--;) t[vh_below(n)]="Ax- B"[vh_below(5)]; if(f!=STAR) for(i=0;i<n;i++) if(t[i]>='A'&&t[i]<='Z'&&vh_chance(1,4)) t[i]+=32; VH_COUNT("repeated units",1); }
	if(f!=STAR&&!vh_chance(1,10)) for(i=0;i<k;i++) d[i]=up(d[i]);
	if(k>n) VH_COUNT("needle longer than text",1); if(f==STAR&&memchr(d,'*',k)) VH_COUNT("strstar with wildcard",1);
	char*g=vh_rdup(t,n+1),*gn=vh_rdup(d,k),*r; ssize_t e=model(f,t,n,d,k); if(lg&&e>=0) VH_COUNT("long needle found",1);
	r=f==STAR?strstar(g,gn,k):f==UC?strstr_uc(g,gn,k):findword(g,gn,k);
	static const char*nm[]={"strstar","strstr_uc","findword"};
	VH_CHECK(r==(e<0?0:g+e),nm[f],"%s('%s','%s') gives offset %td, expected %zd",nm[f],vh_esc(t,n),vh_esc(d,k),r?r-g:-1,e);
	VH_CHECK(!memcmp(g,t,n+1)&&!memcmp(gn,d,k),"modified","%s modified its arguments",nm[f]);
	if(e<0) switch(f) { case STAR: VH_COUNT("strstar none",1); break; case UC: VH_COUNT("strstr_uc none",1); break; default: VH_COUNT("findword none",1); } else switch(f) { case STAR: VH_COUNT("strstar found",1); break; case UC: VH_COUNT("strstr_uc found",1); break; default: VH_COUNT("findword found",1); }
	if(e>=0||k>1) vh_seen(vh_hash(d,k,vh_hash(t,n,f))); vh_sample("%s('%.60s','%.30s') -> %zd",nm[f],vh_esc(t,n),vh_esc(d,k),e);
	vh_gfree(g); vh_gfree(gn); xfree(t); if(dl) xfree(dl);
}
static void ends(u64 idx) {
	size_t n=vh_xsize(vh_chance(1,12)?3000:20),k=vh_size(8),i; u8*t=xmalloc(n+1),*d=xmalloc(n+k+2); vh_text((char*)t,n,"ab\xff",3); t[n]=0; vh_text((char*)d,k,"ab\xff",3); if(vh_chance(1,2)) { k=vh_below(n+1); memcpy(d,t+n-k,k); if(k&&vh_chance(1,4)) d[vh_below(k)]^=1; } if(vh_chance(1,8)) { memcpy(d+1,t,n); d[0]='a'; k=n+1; } d[k]=0;
	int e=k<=n&&!memcmp(t+n-k,d,k); char*g=vh_rdup(t,n+1),*gd=vh_rdup(d,k+1); int r=strends(g,gd); VH_CHECK(!!r==e,"strends","strends('%s','%s')=%d",vh_esc(t,n),vh_esc(d,k),r); if(e) VH_COUNT("strends true",1); else VH_COUNT("strends false",1);
	int c=vh_chance(1,2)&&n?t[vh_below(n)]:vh_below(256); if(!c) c=1; r=containsChar(g,c); VH_CHECK(!!r==!!memchr(t,c,n),"containsChar","containsChar('%s',%d)=%d",vh_esc(t,n),c,r); VH_CHECK(!containsChar(0,'a'),"null","containsChar(NULL)"); VH_COUNT("containsChar",1);
	size_t m=vh_below(n+1); char*u=strdup_n(g,m); if(!m) VH_CHECK(!u,"strdup_n","strdup_n of 0"); else { VH_CHECK(u&&!memcmp(u,t,m)&&!u[m],"strdup_n","strdup_n(%zu)",m); free(u); VH_COUNT("strdup_n",1); }
	{ size_t q=n<k?n:k; VH_CHECK(!!mem_equal(g,gd,q)==!memcmp(t,d,q)&&!!str_equal(g,gd)==(n==k&&!memcmp(t,d,n))&&str_equal(g+(n?1:0),(char*)t+(n?1:0))&&mem_equal(k?gd+1:gd,d+(k?1:0),k?k-1:0),"equal","mem_equal/str_equal of '%s' and '%s'",vh_esc(t,n),vh_esc(d,k)); VH_CHECK(strlitlen("")==0&&strlitlen("abc")==3&&strlitlen("a\0b")==3&&2*strlitlen("xy")==4,"literal","strlitlen"); VH_COUNT("equality",1); }
	VH_CHECK(!memcmp(g,t,n+1)&&!memcmp(gd,d,k+1),"modified","arguments modified"); vh_seen(vh_hash(d,k,vh_hash(t,n,9))); vh_gfree(g); vh_gfree(gd); xfree(t); xfree(d);
}
static int s1(int c) { switch(c) { case STRSWITCH_LETTERS_UC: return 1; default: return 0; } } static int s2(int c) { switch(c) { case STRSWITCH_LETTERS_LC: return 1; default: return 0; } } static int s3(int c) { switch(c) { case STRSWITCH_NUMBERS: return 1; default: return 0; } } static int s4(int c) { switch(c) { case STRSWITCH_ALPHA: return 1; default: return 0; } } static int s5(int c) { switch(c) { case STRSWITCH_LETTERS: return 1; default: return 0; } } static int s6(int c) { switch(c) { case STRSWITCH_MATH_OPS: return 1; default: return 0; } }
static void chars(u64 idx) {
	int c=idx%256; int U=c>='A'&&c<='Z',L=c>='a'&&c<='z',N=c>='0'&&c<='9'; char*g=vh_gbuf(1); *g=c;
	#define T(f,e) { int r=f(g); VH_CHECK(!!r==!!(e),#f,#f "(0x%02x)=%d",c,r); VH_CHECK((u8)*g==c,"modified",#f " modified its argument"); }
	T(isUpper,U) T(isLower,L) T(isLetter,U||L) T(isNumber,N) T(isAlpha,U||L||N) VH_COUNT("classes",1);
	makelower(g); VH_CHECK((u8)*g==(U?c+32:c),"makelower","makelower(0x%02x)=0x%02x",c,(u8)*g); *g=c; makeupper(g); VH_CHECK((u8)*g==(L?c-32:c),"makeupper","makeupper(0x%02x)=0x%02x",c,(u8)*g); VH_COUNT("case conversion",1);
	VH_CHECK(s1(c)==U&&s2(c)==L&&s3(c)==N&&s4(c)==(U||L||N)&&s5(c)==(U||L)&&s6(c)==(c&&!!strchr("*/+-%=",c)),"strswitch","switch class of 0x%02x",c); vh_gfree(g); vh_seen(vh_hashu(c,77));
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<32)+(64<<20)+vh_below(4000),at=n-500; char*p=hugetext(n,'-'),*r; memcpy(p+at,"Needle",6); const char*f="?"; char*e=p+at;
	switch(idx) { case 0: r=strstar(p,"N*edle",6); f="strstar"; break; case 1: r=strstr_uc(p,"NEEDLE",6); f="strstr_uc"; break; case 2: r=findword(p,"NEEDLE",6); f="findword"; break;
	default: f="strends"; r=e; p[n-2]='x'; VH_CHECK(strends(p,"-x-")&&!strends(p,"-y-"),"huge","strends of %zu characters",n); VH_CHECK(!strends("x-",p)&&!strends(p+(1ull<<32),p),"huge","strends with a longer end"); VH_CHECK(containsChar(p,'N')&&!containsChar(p,'q'),"huge","containsChar"); }
	VH_CHECK(r==e,"huge","%s in %zu characters gives offset %td, expected %zu",f,n,r?r-p:-1,at); VH_COUNT("huge texts",1); vh_seen(idx+1); hugefree(p,n);
}
const vh_mode vh_modes[]={{"huge",huge,4,4},{0}};
#else
const vh_mode vh_modes[]={{"search",search,240000,9000000},{"ends",ends,60000,2000000},{"chars",chars,256,256},{0}};
#endif
