/* C22: INI lookups vs. a line model, texts in exact buffers */
#include "vh.h"
#include "iniparser.h"
#include <stdio.h>
const char *const vh_rule="random INI texts of 0..40 lines built from prefix-sharing, repeated, empty and odd section names and keys (headers with trailing blanks or text, unterminated headers, keys without value, lines of any bytes), every line in an exact-size buffer; all sections, all their successors and all keys looked up and compared with a line model; distinct = hash of the text";
const char *const vh_required[]={"sections found","sections not found","repeated sections","values found","values not found","empty value","empty section","value of later section not used","sections counted","text without sections","empty key","lookup from a later line","duplicate key","split text","beyond 16 bits","long names found","long names not found",0};
static const char *const N[]={"a","ab","abc","","main","main ","m","a]","x=y","abcd"," a","sect"}; static const char *const K[]={"key","ke","keyx","","k","key ","[a]","a=b","main","x"};
#define NN (sizeof N/sizeof*N)
#define NK (sizeof K/sizeof*K)
static stringptr L[64]; static size_t n;
typedef struct { size_t s,c; int f; } sec;
static sec msec(const char*nm,size_t nl,size_t from) { sec r={0,0,0}; for(size_t i=from;i<n;i++) if(L[i].size>=nl+2&&L[i].ptr[0]=='['&&!memcmp(L[i].ptr+1,nm,nl)&&L[i].ptr[nl+1]==']') { r.f=1; r.s=i+1; size_t j=i+1; while(j<n&&!(L[j].size&&L[j].ptr[0]=='[')) j++; r.c=j-r.s; return r; } return r; }
static ssize_t mval(sec*s,const char*k,size_t kl,size_t from) { for(size_t i=from;i<s->s+s->c;i++) if(L[i].size>kl&&!memcmp(L[i].ptr,k,kl)&&L[i].ptr[kl]=='=') return i; return -1; }
static void keys(stringptrlist*l,sec*m,ini_section*is) {
	for(size_t k=0;k<NK+1;k++) { char rk[8]; const char*kk; size_t kl; if(k<NK) { kk=K[k]; kl=strlen(kk); } else { kl=vh_below(8); vh_text(rk,kl,"key=x",5); kk=rk; } char*g=vh_rdup(kk,kl); stringptr ks={g,kl},r={(char*)1,77}; if(!kl) VH_COUNT("empty key",1);
		ssize_t w=mval(m,kk,kl,m->s); iniparser_getvalue(l,is,&ks,&r); VH_TRACE("key %s in %zu+%zu: %zd",vh_esc(kk,kl),m->s,m->c,w);
		if(w<0) { VH_CHECK(r.size==0&&!r.ptr,"value-none","key %s is not in the section, result has %zu bytes%s",vh_esc(kk,kl),r.size,r.ptr?" and a pointer":""); VH_COUNT("values not found",1); sec all={0,n,1}; if(m->c<n&&mval(&all,kk,kl,0)>=0) VH_COUNT("value of later section not used",1); } else { size_t vl=L[w].size-kl-1; VH_CHECK(r.size==vl&&r.ptr==L[w].ptr+kl+1,"value","value of %s is %s, expected that of line %zd",vh_esc(kk,kl),r.ptr?vh_esc(r.ptr,r.size>80?80:r.size):"NULL",w); VH_COUNT("values found",1); if(!vl) VH_COUNT("empty value",1); if(mval(m,kk,kl,w+1)>=0) VH_COUNT("duplicate key",1); }
		size_t from=m->s+vh_below(m->c+2); r.size=77; r.ptr=(char*)1; ssize_t wf=mval(m,kk,kl,from); ssize_t a=iniparser_getvalue_at(l,is,&ks,&r,from); VH_CHECK(a==wf,"value-at","key %s from line %zu is at line %zd, expected %zd",vh_esc(kk,kl),from,a,wf); if(wf>=0) { VH_CHECK(r.ptr==L[wf].ptr+kl+1&&r.size==L[wf].size-kl-1,"value-at","wrong value"); } else VH_CHECK(r.size==0&&!r.ptr,"value-at","not found, but %zu bytes",r.size); VH_COUNT("lookup from a later line",1); vh_gfree(g); }
}
static size_t rline(char*b) { size_t o=0,i; switch(vh_below(14)) { case 0: case 1: case 2: case 3: { const char*s=N[vh_below(vh_chance(1,2)?4:NN)]; o=sprintf(b,"[%s]",s); switch(vh_below(9)) { case 0: o+=sprintf(b+o,"%s",(const char*[]){" ","\t","  \t ","\r"," x",";c]","]"}[vh_below(7)]); break; case 1: o--; break; case 2: if(vh_chance(1,2)) o=1; } break; } case 4: o=0; break; case 5: o=vh_below(6); vh_text(b,o,"[]=ak ",6); break; case 6: o=vh_below(30); vh_bytes(b,o); break; default: { const char*k=K[vh_below(vh_chance(2,3)?3:NK)]; o=sprintf(b,"%s%s",k,vh_chance(9,10)?"=":vh_chance(1,2)?" =":""); size_t v=vh_chance(1,4)?0:vh_below(vh_chance(1,10)?300:12); for(i=0;i<v;i++) b[o++]="v=[]x;k "[vh_below(8)]; } } return o; }
static void ini(u64 idx) {
	size_t i; char b[700]; n=vh_chance(1,20)?0:vh_below(vh_chance(1,4)?40:10); int split=vh_chance(1,3); bs txt={0}; bs_put(&txt,"",0); u64 sig=n; size_t cnt=0; int nul=0;
	for(i=0;i<n;i++) { size_t z=rline(b); L[i].size=z; if(memchr(b,'\n',z)) { for(size_t j=0;j<z;j++) if(b[j]=='\n') b[j]='.'; } if(memchr(b,0,z)) nul=1; L[i].ptr=vh_rdup(b,z); sig=vh_hash(b,z,vh_hashu(z,sig)); if(i) bs_putc(&txt,'\n'); bs_put(&txt,b,z); size_t e=z; while(e&&(b[e-1]==' '||b[e-1]=='\t')) e--; if(z>=3&&b[0]=='['&&e&&b[e-1]==']') cnt++; VH_TRACE("%zu: %s",i,vh_esc(b,z)); }
	stringptrlist*l; char*tg=0; stringptrlist*own=0; (void)nul;
	if(split&&n) { tg=vh_gbuf(txt.n+1); memcpy(tg,txt.d,txt.n); tg[txt.n]=0; stringptr t={tg,txt.n}; own=l=stringptr_linesplit(&t); VH_CHECK(l,"linesplit","the text could not be split"); size_t m=stringptrlist_getsize(l); for(i=0;i<n;i++) vh_gfree(L[i].ptr); VH_CHECK(m<=n,"linesplit","%zu lines of %zu",m,n); n=m; cnt=0; for(i=0;i<n;i++) { L[i]=*stringptrlist_get(l,i); char*q=L[i].ptr; size_t z=L[i].size,e=z; while(e&&(q[e-1]==' '||q[e-1]=='\t')) e--; if(z>=3&&q[0]=='['&&e&&q[e-1]==']') cnt++; } VH_COUNT("split text",1); }
	else { split=0; l=stringptrlist_new(n+1); for(i=0;i<n;i++) stringptrlist_add(l,L[i].ptr,L[i].size); }
	int any=0;
	for(size_t k=0;k<NN+1;k++) { char rn[8]; const char*nm; size_t nl; if(k<NN) { nm=N[k]; nl=strlen(nm); } else { nl=vh_below(8); vh_text(rn,nl,"ab]c[",5); nm=rn; } char*g=vh_rdup(nm,nl); stringptr ns={g,nl}; sec m=msec(nm,nl,0); ini_section is=iniparser_get_section(l,&ns); int rep=0;
		for(;;) { VH_TRACE("section %s: %zu+%zu expected %d %zu+%zu",vh_esc(nm,nl),is.startline,is.linecount,m.f,m.s,m.c);
			if(!m.f) { VH_CHECK(is.linecount==0&&is.startline==0,"section-none",rep?"no further section %s, but lines %zu+%zu":"no section %s, but lines %zu+%zu",vh_esc(nm,nl),is.startline,is.linecount); VH_COUNT("sections not found",1); break; }
			any=1; VH_CHECK(is.startline==m.s&&is.linecount==m.c,"section","section %s no. %d is at lines %zu+%zu, expected %zu+%zu",vh_esc(nm,nl),rep,is.startline,is.linecount,m.s,m.c); VH_COUNT("sections found",1); if(!m.c) VH_COUNT("empty section",1); if(rep) VH_COUNT("repeated sections",1);
			keys(l,&m,&is); rep++; sec m2=msec(nm,nl,m.s+m.c); ini_section p=is; is=iniparser_get_next_section(l,&ns,&p); m=m2; if(rep>100) vh_fail("endless","more successors than lines"); }
		vh_gfree(g); }
	ini_section f=iniparser_file_as_section(l); VH_CHECK(f.startline==0&&f.linecount==n,"file","whole file is %zu+%zu of %zu",f.startline,f.linecount,n); sec all={0,n,1}; keys(l,&all,&f);
	size_t c=iniparser_count_sections(l); VH_CHECK(c==cnt,"count","%zu sections counted, expected %zu",c,cnt); VH_COUNT("sections counted",1); if(!any) VH_COUNT("text without sections",1);
	VH_CHECK(stringptrlist_getsize(l)==n,"modified","list changed"); for(i=0;i<n;i++) { stringptr*q=stringptrlist_get(l,i); VH_CHECK(q->ptr==L[i].ptr&&q->size==L[i].size,"modified","line changed"); }
	vh_seen(sig); vh_sample("%zu lines, %zu headers",n,cnt); stringptrlist_free(l); if(!split) for(i=0;i<n;i++) vh_gfree(L[i].ptr); else vh_gfree(tg); bs_free(&txt);
}
/* values, line counts and line numbers beyond 16 bits */
static void wide(u64 idx) {
	size_t pre=vh_chance(1,2)?vh_below(5):65530+vh_below(20),len=65530+vh_below(20)+(vh_chance(1,3)?65536:0),vl=vh_chance(1,2)?3:65530+vh_below(20)+(vh_chance(1,3)?70000:0),post=1+vh_below(3),i; stringptrlist*l=stringptrlist_new(200000); char*v=vh_gbuf(vl+4); memset(v,'v',vl+4); memcpy(v,"key=",4); static char a[]="[aa]",b[]="[b]",f[]="ke=filler",k2[]="key=second",em[]="";
	for(i=0;i<pre;i++) stringptrlist_add(l,i&1?a:f,i&1?4:9); size_t start=pre+1; stringptrlist_add(l,b,3); size_t at=vh_chance(1,2)?len-1-vh_below(3):65530+vh_below(12); if(at>=len) at=len-1; for(i=0;i<len;i++) if(i==at) stringptrlist_add(l,v,vl+4); else stringptrlist_add(l,i&1?f:em,i&1?9:0); for(i=0;i<post;i++) { stringptrlist_add(l,a,4); stringptrlist_add(l,k2,10); } stringptrlist_add(l,b,3); stringptrlist_add(l,k2,10);
	size_t n2=stringptrlist_getsize(l); stringptr B={"b",1},A={"aa",2},K={"key",3},r={0,0}; ini_section s=iniparser_get_section(l,&B); VH_CHECK(s.startline==start&&s.linecount==len,"section","section at %zu+%zu, expected %zu+%zu",s.startline,s.linecount,start,len);
	iniparser_getvalue(l,&s,&K,&r); VH_CHECK(r.ptr==v+4&&r.size==vl,"value","value of %zu bytes at line %zu: %zu bytes",vl,start+at,r.size); ssize_t w=iniparser_getvalue_at(l,&s,&K,&r,start+(at>2?at-2:0)); VH_CHECK(w==(ssize_t)(start+at),"value-at","line %zd, expected %zu",w,start+at); w=iniparser_getvalue_at(l,&s,&K,&r,start+at+1); VH_CHECK(w==-1&&r.size==0,"value-at","found at %zd behind the only one",w);
	ini_section t=iniparser_get_next_section(l,&B,&s); VH_CHECK(t.startline==n2-1&&t.linecount==1,"section","next section at %zu+%zu, expected %zu+1",t.startline,t.linecount,n2-1); iniparser_getvalue(l,&t,&K,&r); VH_CHECK(r.ptr==k2+4&&r.size==6,"value","value of the second section");
	if(pre<2) { t=iniparser_get_section(l,&A); VH_CHECK(t.startline==start+len+1&&t.linecount==1,"section","section behind at %zu+%zu, expected %zu+1",t.startline,t.linecount,start+len+1); }
	t=iniparser_file_as_section(l); VH_CHECK(t.startline==0&&t.linecount==n2,"file","whole file %zu of %zu lines",t.linecount,n2); size_t c=iniparser_count_sections(l),e=pre/2+post+2; VH_CHECK(c==e,"count","%zu sections, expected %zu",c,e);
	/* many sections */
	if(idx%4==0) { stringptrlist*m=stringptrlist_new(70000); size_t q=65530+vh_below(20); for(i=0;i<q;i++) stringptrlist_add(m,i==q-1?b:a,i==q-1?3:4); VH_CHECK(iniparser_count_sections(m)==q,"count","%zu of %zu sections",iniparser_count_sections(m),q); t=iniparser_get_section(m,&B); VH_CHECK(t.startline==q&&t.linecount==0,"section","last of %zu sections at %zu",q,t.startline); stringptrlist_free(m); }
	/* long section name */
	{ size_t z=65530+vh_below(20); char*h=vh_gbuf(z+2); memset(h,'s',z+2); h[0]='['; h[z+1]=']'; stringptrlist*m=stringptrlist_new(4); stringptrlist_add(m,b,3); stringptrlist_add(m,h,z+2); stringptrlist_add(m,k2,10); stringptr S={h+1,z}; t=iniparser_get_section(m,&S); VH_CHECK(t.startline==2&&t.linecount==1,"section","section with a name of %zu bytes at %zu+%zu",z,t.startline,t.linecount); S.size--; t=iniparser_get_section(m,&S); VH_CHECK(t.linecount==0&&t.startline==0,"section","prefix of a long name found"); stringptrlist_free(m); vh_gfree(h); }
	VH_COUNT("beyond 16 bits",1); vh_seen(vh_hashu(pre,vh_hashu(len,vh_hashu(vl,at)))); stringptrlist_free(l); vh_gfree(v);
}
/* names of all lengths against short, equal and nearly equal lines in exact buffers */
static void names(u64 idx) {
	size_t N0[]={6,100,254,255,256,65533,65534,65535,65536},z=N0[vh_below(9)]+vh_below(4),o[]={z,z>1?z-1:0,z+1,z&255,z&65535,0},i; n=0; stringptrlist*l=stringptrlist_new(4); char*nm=vh_gbuf(z); memset(nm,'n',z); if(z>3) nm[z-2]='m'; if(vh_chance(1,3)) nm[z/2]=0; int hdr=vh_below(2);
	int kk=6+vh_below(8); for(int q=0;q<kk;q++) { size_t c=o[vh_below(6)]; if(vh_chance(1,12)) { L[n].ptr=0; L[n].size=0; L[n].ptr=vh_gbuf(0); n++; continue; } int h=q==0?hdr:vh_chance(1,2); size_t e=h?c+2:c+1+vh_below(4),j; char*p=vh_gbuf(e); for(j=0;j<c;j++) p[j+h]=j<z?nm[j]:'n'; if(h) { p[0]='['; p[c+1]=vh_chance(1,12)?'x':']'; } else { p[c]=vh_chance(1,12)?'x':'='; for(j=c+1;j<e;j++) p[j]='v'; } if(c&&vh_chance(1,4)) p[h+(vh_chance(1,2)?c/2:vh_chance(1,2)?c-1:0)]='?'; L[n].ptr=p; L[n].size=e; n++; }
	for(i=0;i<n;i++) stringptrlist_add(l,L[i].ptr,L[i].size);
	stringptr ns={nm,z}; sec m=msec(nm,z,0); ini_section s=iniparser_get_section(l,&ns); int rep=0; VH_TRACE("name of %zu bytes, %zu lines: section %zu+%zu, expected %zu+%zu",z,n,s.startline,s.linecount,m.s,m.c);
	for(;;) { VH_CHECK(s.startline==m.s&&s.linecount==m.c,"section","section with a name of %zu bytes at %zu+%zu, expected %zu+%zu",z,s.startline,s.linecount,m.s,m.c); stringptr r={(char*)1,7}; ssize_t w=m.f?mval(&m,nm,z,m.s):-1; if(m.f) { iniparser_getvalue(l,&s,&ns,&r); if(w<0) VH_CHECK(!r.ptr&&!r.size,"value-none","a key of %zu bytes found",z); else { VH_CHECK(r.ptr==L[w].ptr+z+1&&r.size==L[w].size-z-1,"value","value of a key of %zu bytes",z); VH_COUNT("long names found",1); } } else break; if(rep++>40) vh_fail("endless","successors"); sec m2=msec(nm,z,m.s+m.c); ini_section p=s; s=iniparser_get_next_section(l,&ns,&p); m=m2; }
	sec all={0,n,1}; ini_section f=iniparser_file_as_section(l); stringptr r={(char*)1,7}; for(i=0;i<3;i++) { size_t kz=i==0?z:i==1?(z&255):(z&65535); char*kg=vh_rdup(nm,kz); stringptr ks={kg,kz}; ssize_t w=mval(&all,nm,kz,0),a=iniparser_getvalue_at(l,&f,&ks,&r,0); VH_CHECK(a==w&&(w<0?!r.ptr&&!r.size:r.ptr==L[w].ptr+kz+1&&r.size==L[w].size-kz-1),"value-at","key of %zu bytes at line %zd, expected %zd",kz,a,w); if(w>=0&&kz>255) VH_COUNT("long names found",1); if(w<0) VH_COUNT("long names not found",1); vh_gfree(kg); }
	u64 sig=z; for(i=0;i<n;i++) { sig=vh_hashu(L[i].size,sig); if(L[i].size) sig=vh_hashu(L[i].ptr[0]*256+(u8)L[i].ptr[L[i].size/2],sig); vh_gfree(L[i].ptr); } vh_seen(sig); vh_gfree(nm); stringptrlist_free(l);
}
const vh_mode vh_modes[]={{"names",names,3000,60000},{"wide",wide,60,800},{"ini",ini,60000,2000000},{0}};
