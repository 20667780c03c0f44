/* C36: the case-label classes of strswitch.h, every byte, in the C library's terms and by passing them through a real shell and compiler */
#include "vh.h"
#include <stdio.h>
#include <ctype.h>
#include <unistd.h>
#include <sys/wait.h>
#include "strswitch.h"
const char *const vh_rule="all 256 byte values through switches over every class, alone and in random texts; the classes of characters that need no escape passed through sh double quotes in random texts and read back; distinct = hash of the text";
const char *const vh_required[]={"bytes classified","texts","shell round trips","C literal checks",0};
#define IN(CLS) static int in_##CLS(int c) { switch(c) { case CLS: return 1; default: return 0; } }
IN(STRSWITCH_LETTERS_UC) IN(STRSWITCH_LETTERS_LC) IN(STRSWITCH_LETTERS) IN(STRSWITCH_NUMBERS) IN(STRSWITCH_ALPHA) IN(STRSWITCH_MATH_OPS) IN(STRSWITCH_NON_ALPHA_C) IN(STRSWITCH_NON_ALPHA_SH) IN(STRSWITCH_NON_ALPHA) IN(STRSWITCH_PRINTABLE) IN(STRSWITCH_C_PRINTABLE) IN(STRSWITCH_SH_PRINTABLE)
/* several classes in one switch: they must not have labels in common */
static int kind(int c) { switch(c) { case STRSWITCH_LETTERS_UC: return 1; case STRSWITCH_LETTERS_LC: return 2; case STRSWITCH_NUMBERS: return 3; case STRSWITCH_NON_ALPHA: return 4; default: return 0; } }
static void one(int c) {
	int asc=c>=0&&c<128; int U=asc&&c>='A'&&c<='Z',L=asc&&c>='a'&&c<='z',D=asc&&c>='0'&&c<='9',P=asc&&isprint(c);
#define EQ(CLS,e) VH_CHECK(in_##CLS(c)==(e),"class",#CLS " %s character %d",(e)?"lacks":"contains",c)
	EQ(STRSWITCH_LETTERS_UC,U); EQ(STRSWITCH_LETTERS_LC,L); EQ(STRSWITCH_LETTERS,U||L); EQ(STRSWITCH_NUMBERS,D); EQ(STRSWITCH_ALPHA,U||L||D); EQ(STRSWITCH_MATH_OPS,asc&&c&&!!strchr("*/+-%=",c));
	/* no alphanumeric among the non-alphas, only printable characters anywhere, and the composites are the unions */
#define PUN(CLS) if(in_##CLS(c)) VH_CHECK(P&&!U&&!L&&!D,"class",#CLS " contains character %d",c)
	PUN(STRSWITCH_NON_ALPHA_C); PUN(STRSWITCH_NON_ALPHA_SH); PUN(STRSWITCH_NON_ALPHA);
	int al=U||L||D; EQ(STRSWITCH_PRINTABLE,al||in_STRSWITCH_NON_ALPHA(c)); EQ(STRSWITCH_C_PRINTABLE,al||in_STRSWITCH_NON_ALPHA_C(c)); EQ(STRSWITCH_SH_PRINTABLE,al||in_STRSWITCH_NON_ALPHA_SH(c));
	if(in_STRSWITCH_MATH_OPS(c)) VH_CHECK(in_STRSWITCH_NON_ALPHA_C(c)&&in_STRSWITCH_NON_ALPHA_SH(c),"class","operator %c is in no literal class",c);
	if(in_STRSWITCH_NON_ALPHA_C(c)||in_STRSWITCH_NON_ALPHA_SH(c)) VH_CHECK(in_STRSWITCH_NON_ALPHA(c),"class","NON_ALPHA lacks %c, which a literal class has",c);
	/* what is common to both languages, and what each has to leave out */
	if(c=='"'||c=='\\'||c=='\''||c=='?') VH_CHECK(in_STRSWITCH_NON_ALPHA(c),"class","NON_ALPHA lacks %c",c);
	if(asc&&c&&strchr(" @,;.:_!&()[]{}<>#~",c)) VH_CHECK(in_STRSWITCH_NON_ALPHA_C(c)&&in_STRSWITCH_NON_ALPHA_SH(c),"class","a literal class lacks %c",c);
	if(c=='"'||c=='\\'||!P) VH_CHECK(!in_STRSWITCH_C_PRINTABLE(c),"c-literal","character %d needs an escape in a C string literal",c);
	if(c=='?') VH_CHECK(!in_STRSWITCH_C_PRINTABLE(c),"c-literal","? may begin a trigraph in a C string literal");
	if(c=='"'||c=='\\'||c=='$'||c=='`'||!P) VH_CHECK(!in_STRSWITCH_SH_PRINTABLE(c),"sh-literal","character %d needs an escape in a shell string",c);
	VH_CHECK(kind(c)==(U?1:L?2:D?3:in_STRSWITCH_NON_ALPHA(c)?4:0),"class","character %d lands in the wrong case",c); VH_COUNT("C literal checks",1);
}
static void bytes(u64 idx) { int c=(int)(idx%512)-128; one(c); VH_COUNT("bytes classified",1); vh_seen(vh_hashu(c,3)); }
/* texts of shell-safe characters survive double quotes */
static void shell(u64 idx) {
	char t[3000],cmd[3200],got[3300]; size_t n=1+vh_below(2000),i; for(i=0;i<n;) { int c=vh_chance(1,2)?32+vh_below(95):vh_below(256); if(in_STRSWITCH_SH_PRINTABLE(c)) t[i++]=c; } t[n]=0; snprintf(cmd,sizeof cmd,"printf %%s \"%s\"",t); VH_TRACE("%s",cmd);
	int p[2]; if(pipe(p)) vh_internal("pipe"); pid_t k=fork(); if(k<0) vh_internal("fork"); if(!k) { dup2(p[1],1); close(p[0]); close(p[1]); execl("/bin/sh","sh","-c",cmd,(char*)0); _exit(127); }
	close(p[1]); size_t g=0; ssize_t r; while((r=read(p[0],got+g,sizeof got-g))>0) g+=r; close(p[0]); int st; waitpid(k,&st,0); VH_CHECK(st==0&&g==n&&!memcmp(got,t,n),"sh-literal","a text of shell-safe characters changes inside double quotes: '%s' came back as '%s'",vh_esc(t,n),vh_esc(got,g)); VH_COUNT("shell round trips",1); VH_COUNT("texts",1); vh_seen(vh_hash(t,n,4)); vh_sample("%.60s",t);
}
const vh_mode vh_modes[]={{"bytes",bytes,512,512},{"shell",shell,400,20000},{0}};
