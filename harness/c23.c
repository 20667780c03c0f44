/* C23: op_get/op_hasflag vs. a model, arguments in exact read-only-checked buffers */
#include "vh.h"
#include "optparser.h"
#include <stdio.h>
const char *const vh_rule="random argument vectors (0..9 arguments from prefix-sharing names with zero to three dashes, '=' forms, empty values, bare dashes, arbitrary bytes) and option names; flags and values vs. a model, returned pointers must lie in the vector; distinct = hash of vector and name";
const char *const vh_required[]={"flag found","flag absent","value by =","value by next argument","no value","empty value","option last in the vector","prefix-sharing argument","one-character name","empty name","first of several","beyond 8 and 16 bits",0};
static const char *const W[]={"a","ab","abc","abcd","v","ver","verbose","verb","","x","xy","f","file","files"};
#define NW (sizeof W/sizeof*W)
static void op(u64 idx) {
	int argc=vh_chance(1,30)?0:1+vh_below(9),i; char*v[12],*c[12]; char b[80]; u64 sig=argc; op_state p;
	for(i=0;i<argc;i++) { int o=0; const char*w=W[vh_below(NW)]; switch(vh_below(10)) { case 0: o=vh_below(6); vh_text(b,o,"-=abv",5); b[o]=0; break; case 1: o=vh_below(20); vh_bytes(b,o); b[o]=0; o=strlen(b); break; case 2: case 3: case 4: o=sprintf(b,"%s%s=%s",(const char*[]){"-","--","-","","---"}[vh_below(5)],w,(const char*[]){"","v","a=b","-x","--ab","long value"}[vh_below(6)]); break; case 5: o=sprintf(b,"%s",w); break; default: o=sprintf(b,"%s%s",(const char*[]){"-","--","-","--","---"}[vh_below(5)],w); } v[i]=vh_rdup(b,o+1); c[i]=xmalloc(o+1); memcpy(c[i],b,o+1); sig=vh_hash(b,o+1,sig); VH_TRACE("argv[%d]=%s",i,vh_esc(b,o)); }
	char**av=vh_gbuf((argc+1)*sizeof*av); memcpy(av,v,argc*sizeof*av); av[argc]=0; op_init(&p,argc,av);
	for(size_t k=0;k<NW+1;k++) { char nb[8]; const char*nm=k<NW?W[k]:nb; if(k==NW) { size_t q=1+vh_below(6); vh_text(nb,q,"abver",5); nb[q]=0; } size_t nl=strlen(nm); char*g=vh_chance(1,2)?vh_rstr(nm):vh_rdup(nm,nl); stringptr s={g,nl};
		int wf=0,wi=-1; char*want=0; int cnt=0,pref=0; for(i=1;i<argc;i++) { if(c[i][0]!='-') continue; const char*a=c[i]+1; if(nl>1&&*a=='-') a++; if(!strcmp(a,nm)) wf=1; int hit=0; if(!strncmp(a,nm,nl)&&a[nl]=='='&&!memchr(a,'=',nl)) { hit=1; if(wi<0) { wi=i; want=v[i]+(a-c[i])+nl+1; VH_COUNT("value by =",1); if(!*want) VH_COUNT("empty value",1); } } else if(!strcmp(a,nm)) { if(i+1<argc) { hit=1; if(wi<0) { wi=i; want=v[i+1]; VH_COUNT("value by next argument",1); } } else if(wi<0) VH_COUNT("option last in the vector",1); } else if(nl&&(!strncmp(a,nm,nl)||!strncmp(a,nm,strlen(a)))) pref=1; cnt+=hit; }
		if(cnt>1) VH_COUNT("first of several",1); if(pref&&!wf&&!want) VH_COUNT("prefix-sharing argument",1); if(nl==1) VH_COUNT("one-character name",1); if(!nl) VH_COUNT("empty name",1);
		int f=op_hasflag(&p,&s); VH_CHECK(!f==!wf,"flag","flag %s: %d, expected %d",nm,f,wf); if(wf) VH_COUNT("flag found",1); else VH_COUNT("flag absent",1);
		char*r=op_get(&p,&s); VH_TRACE("%s: flag %d value %s",nm,f,r?r:"NULL"); if(!want) { VH_CHECK(!r,"value-none","%s has no value, but op_get gives %s",nm,vh_esc(r,strlen(r))); VH_COUNT("no value",1); } else { VH_CHECK(r,"value-missed","%s given in argument %d, but op_get gives NULL",nm,wi); VH_CHECK(r==want,"value","%s is %s, expected %s",nm,vh_esc(r,strlen(r)),vh_esc(want,strlen(want))); }
		VH_CHECK(!memcmp(g,nm,nl),"modified","name modified"); vh_gfree(g); sig=vh_hashu(wi*2+wf,sig); }
	VH_CHECK(!memcmp(av,v,argc*sizeof*av)&&!av[argc]&&p.argv==av,"modified","vector modified"); for(i=0;i<argc;i++) { VH_CHECK(!memcmp(v[i],c[i],strlen(c[i])+1),"modified","argument modified"); vh_gfree(v[i]); xfree(c[i]); } vh_gfree(av); vh_seen(sig); vh_sample("%d arguments",argc);
}
/* names, values and positions beyond 8 and 16 bits */
static void wide(u64 idx) {
	size_t nl=vh_chance(1,2)?1+vh_below(5):vh_chance(1,2)?250+vh_below(20):65530+vh_below(20),vl=vh_chance(1,2)?vh_below(5):65530+vh_below(20); int argc=vh_chance(1,2)?2+vh_below(3):vh_chance(1,2)?250+vh_below(20):65530+vh_below(20),at=argc-1-vh_below(2),i,eq=vh_below(2); if(!eq) at=argc-2; if(at<1) at=argc-1,eq=1;
	char**av=xmalloc((argc+1)*sizeof*av),*nm=vh_gbuf(nl+1),*o=vh_gbuf(nl+vl+4),*val=vh_gbuf(vl+1),*pre=vh_gbuf(nl+4); static char fill[]="--other=x"; memset(nm,'n',nl); nm[nl]=0; memset(val,'v',vl); val[vl]=0; memcpy(o,"--",2); memcpy(o+2,nm,nl+1); memcpy(pre,"--",2); memcpy(pre+2,nm,nl); pre[nl+2]='x'; pre[nl+3]=0; if(eq) { o[nl+2]='='; memcpy(o+nl+3,val,vl+1); }
	for(i=0;i<argc;i++) av[i]=fill; av[argc]=0; if(at>1) av[at-1]=pre; av[at]=o; if(!eq) av[at+1]=val; op_state p; op_init(&p,argc,av); stringptr s={nm,nl}; if(nl==1) { /* one character: single dash */ memmove(o,o+1,nl+1+(eq?vl+1:0)+1); memmove(pre,pre+1,nl+3); }
	char*r=op_get(&p,&s); VH_CHECK(r==(eq?(nl==1?o+1:o+2)+nl+1:val),"value","option of %zu characters in argument %d of %d with a value of %zu bytes: %s",nl,at,argc,vl,r?"wrong value":"not found"); VH_CHECK(!op_hasflag(&p,&s)==!!eq,"flag","flag in argument %d of %d",at,argc); s.size--; if(s.size) VH_CHECK(!op_get(&p,&s)&&!op_hasflag(&p,&s),"prefix","prefix of %zu characters found",s.size);
	VH_COUNT("beyond 8 and 16 bits",1); vh_seen(vh_hashu(nl,vh_hashu(vl,argc*4+eq))); xfree(av); vh_gfree(nm); vh_gfree(o); vh_gfree(val); vh_gfree(pre);
}
const vh_mode vh_modes[]={{"wide",wide,400,6000},{"op",op,100000,3000000},{0}};
