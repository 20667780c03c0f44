/* C30: every conversion/encoding/normalising/formatting call on exact-size buffers, sanitizer and guard pages on both sides */
#include "vh.h"
#include "strlib.h"
#include "format.h"
#include "filelib.h"
#include "timelib.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
#include "fileparser.h"
#include <stdio.h>
#include <limits.h>
#include <fcntl.h>
const char *const vh_rule="random, extreme and empty inputs of exactly the stated length, outputs of exactly the documented size, each buffer flush against inaccessible memory (sanitizer redzones, or guard pages on alternating sides plus canaries) and filled with non-zero bytes before; distinct = hash of call and input";
const char *const vh_required[]={"hex encode","hex decode","integer to text","number to text","number cut to width","base64 encode","base64 decode","base64 decode into small buffer","base64 text encode","base64 text cut off","rc4","ipv4 to text","ipv4 from text","normalized paths","paths normalized in place","path difference","formatted","formatted into tiny buffer","timestamps","md5 text","digests","crc","text to integer","copies","searches in exact strings","word searches","string operations","splits","file extensions","lines into user buffer","extremes","empty inputs",0};
static void*in(const void*p,size_t n) { if(!n) VH_COUNT("empty inputs",1); return vh_rdup(p,n); }
static void *out(size_t n) { void*p=vh_gbuf(n); memset(p,0xA5,n); return p; }
static void term(const char*p,size_t n,const char*what) { VH_CHECK(memchr(p,0,n),"not-terminated","%s: result is not zero-terminated inside its buffer of %zu bytes",what,n); }
static size_t isz(void) { return vh_chance(1,8)?0:vh_chance(1,8)?vh_size(20000):vh_size(300); }
static const char *const EX[]={"0","-1","2147483647","-2147483648","9223372036854775807","-9223372036854775808","4294967295","255.255.255.255","0.0.0.0","1.2.3.4","-","","256.1.1.1","1.2.3","1.2.3.4.5","999.999.999.999","/","//","/..","/../..","/.","/./","/a/../../b","////a//b//..//","."};
static void op(u64 idx) {
	size_t n=isz(),i; u8*raw=xmalloc(n+64); vh_bytes(raw,n); u64 v=vh_u64val(),sig; int k=vh_below(24); char*o,*o2; void*g; size_t z; sig=vh_hash(raw,n,vh_hashu(k,1)); VH_TRACE("op %d size %zu value %llx",k,n,(unsigned long long)v); if(v==0||v==~0ull||v==1ull<<63||(int)v==INT_MIN||(int)v==INT_MAX) VH_COUNT("extremes",1);
	switch(k) {
	case 0: g=in(raw,n); o=out(2*n+1); raw2hex(o,g,n); term(o,2*n+1,"raw2hex"); vh_gfree(g); g=o; { size_t h=strlen(o); u8*d=out((h+1)/2); size_t r=hex2raw(o,d); VH_CHECK(r<=(h+1)/2,"hex2raw","reports %zu bytes in a buffer of %zu",r,(h+1)/2); vh_gfree(d); VH_COUNT("hex decode",1); } vh_gfree(g); VH_COUNT("hex encode",1); break;
	case 1: { vh_text((char*)raw,n,"0123456789abcdefABCDEFxz",24); raw[n]=0; g=vh_rstr((char*)raw); u8*d=out((n+1)/2); size_t r=hex2raw(g,d); VH_CHECK(r<=(n+1)/2,"hex2raw","reports %zu bytes in a buffer of %zu",r,(n+1)/2); vh_gfree(d); vh_gfree(g); VH_COUNT("hex decode",1); break; }
	case 2: { struct { int s; } T[]={{12},{11},{12},{11},{21},{21}}; for(i=0;i<6;i++) { o=out(T[i].s); char*r=i==0?itoa((int)v,o):i==1?utoa((unsigned)v,o):i==2?intToString((int)v,o):i==3?uintToString((unsigned)v,o):i==4?int64ToString((int64_t)v,o):uint64ToString(v,o); VH_CHECK(r>=o&&r<o+T[i].s,"range","result of conversion %zu lies outside its buffer",i); term(r,o+T[i].s-r,"integer conversion"); vh_gfree(o); } VH_COUNT("integer to text",1); break; }
	case 3: { unsigned base=2+2*vh_below(31); int fl=vh_below(8); size_t ml=vh_chance(1,3)?0:1+vh_below(vh_chance(1,4)?100:24); u64 m=(fl&NTS_SIGNED_TYPE)&&v>>63?0-v:v; size_t dg=0; do { dg++; m/=base; } while(m); z=(ml?ml:dg)+!!(fl&NTS_SIGNED_TYPE)+1; if(ml&&ml<dg) VH_COUNT("number cut to width",1); o=out(z); char*r=numberToString(v,base,o,ml,fl); VH_CHECK(r>=o&&r<o+z,"range","numberToString points outside its buffer (base %u maxlen %zu flags %d)",base,ml,fl); term(r,o+z-r,"numberToString"); vh_gfree(o); VH_COUNT("number to text",1); sig=vh_hashu(v,sig); break; }
	case 4: z=BASE64ENC_BUFSIZE(n); g=in(raw,n); o=out(z); base64enc(o,g,n); term(o,z,"base64enc"); { size_t l=strlen(o); u8*d; size_t want=BASE64DEC_BUFSIZE(l); d=out(want); o2=vh_rstr(o); size_t r=base64dec(d,o2,want); VH_CHECK(r==n,"base64dec","decodes %zu of %zu bytes into a buffer of the documented size",r,n); VH_CHECK(!n||d[r]==0,"not-terminated","base64dec does not terminate"); vh_gfree(d); VH_COUNT("base64 decode",1); size_t sm=vh_below(want+1); d=out(sm); r=base64dec(d,o2,sm); VH_CHECK(r<=sm,"base64dec","reports %zu bytes in a buffer of %zu",r,sm); vh_gfree(d); vh_gfree(o2); VH_COUNT("base64 decode into small buffer",1); } vh_gfree(o); vh_gfree(g); VH_COUNT("base64 encode",1); break;
	case 5: { vh_text((char*)raw,n,"ABCDxyz019+/==-_ \n\x80\xff",20); raw[n]=0; o2=vh_gstr((char*)raw); n=strlen(o2); size_t want=vh_chance(1,2)?BASE64DEC_BUFSIZE(n):vh_below(BASE64DEC_BUFSIZE(n)+2); u8*d=out(want); size_t r=base64dec(d,o2,want); VH_CHECK(r<=want,"base64dec","reports %zu bytes in a buffer of %zu",r,want); vh_gfree(d); vh_gfree(o2); VH_COUNT("base64 decode",1); break; }
	case 6: for(i=0;i<n;i++) if(!raw[i]) raw[i]=1; raw[n]=0; g=vh_rstr((char*)raw); z=vh_chance(1,2)?BASE64ENC_BUFSIZE(n):vh_below(BASE64ENC_BUFSIZE(n)+3); o=out(z); { int r6=base64enc_str(o,g,z); if(z) term(o,z,"base64enc_str"); if(!r6&&z>=BASE64ENC_BUFSIZE(n)) vh_fail("refused","base64enc_str refuses a sufficient buffer"); if(!r6) VH_COUNT("base64 text cut off",1); } vh_gfree(o); vh_gfree(g); VH_COUNT("base64 text encode",1); break;
	case 7: { size_t kl=1+vh_below(300); u8*key=out(kl); vh_bytes(key,kl); g=vh_gdup(raw,n); o=out(n); rc4((u8*)o,g,n,key,kl); if(vh_chance(1,3)) rc4(g,g,n,key,kl); vh_gfree(o); vh_gfree(g); vh_gfree(key); VH_COUNT("rc4",1); break; }
	case 8: { u32 v4=(u32)v; if(vh_chance(1,8)) v4=~0u; u8*ip=vh_rdup(&v4,4); o=out(16); stringfromipv4(ip,o); term(o,16,"stringfromipv4"); vh_gfree(ip); vh_gfree(o); VH_COUNT("ipv4 to text",1); break; }
	case 9: { const char*s; if(vh_chance(1,3)) s=EX[vh_below(25)]; else if(vh_chance(1,2)) { sprintf((char*)raw,"%u.%u.%u.%u",(u8)v,(u8)(v>>8),(u8)(v>>16),(u8)(v>>24)); if(vh_chance(1,3)) raw[vh_below(strlen((char*)raw))]=".9a "[vh_below(4)]; s=(char*)raw; } else { n=vh_below(24); vh_text((char*)raw,n,"0129.. ",7); raw[n]=0; s=(char*)raw; } g=vh_rstr(s); o=out(4); (void)isnumericipv4(g); if(isnumericipv4(g)) ipv4fromstring(g,(u8*)o); vh_gfree(g); vh_gfree(o); VH_COUNT("ipv4 from text",1); sig=vh_hash(s,strlen(s),k); break; }
	case 10: case 11: { const char*s; if(vh_chance(1,5)) s=EX[vh_below(25)]; else { if(n>3000) n=3000+vh_below(2000); raw=xrealloc(raw,n+64); if(vh_chance(1,4)) memset(raw,"a/."[vh_below(3)],n); else vh_text((char*)raw,n,"/../ab.",7); if(n) raw[0]='/'; raw[n]=0; s=(char*)raw; } z=strlen(s); g=vh_gstr(s); o=out(z+1); char*r=normalizepath_cstr(g,o); if(r) { VH_CHECK(r==o,"result","normalizepath_cstr"); term(o,z+1,"normalizepath_cstr"); } VH_COUNT("normalized paths",1); stringptr sp={g,z}; int q=normalizepath(&sp); if(q) { VH_CHECK(sp.ptr==g&&sp.size<=z&&sp.ptr[sp.size]==0,"not-terminated","normalizepath: size %zu of %zu",sp.size,z); } VH_COUNT("paths normalized in place",1); vh_gfree(g); vh_gfree(o);
		/* difference: work buffer as big as the second path */ g=vh_gstr(s); size_t cut=vh_below(z+1); char*f=vh_gbuf(cut+1); memcpy(f,s,cut); f[cut]=0; stringptr a={f,cut},b={g,z}; o=out(z+1); ssize_t d=getpathdiff(&a,&b,o); if(d>=0) { VH_CHECK((size_t)d<=z&&o[d]==0,"not-terminated","getpathdiff: %zd",d); } VH_COUNT("path difference",1); vh_gfree(f); vh_gfree(g); vh_gfree(o); sig=vh_hash(s,z,k); break; }
	case 12: case 13: { z=vh_chance(1,3)?vh_below(6):vh_below(400); raw[n<200?n:200]=0; for(i=0;i<(n<200?n:200);i++) if(!raw[i]) raw[i]='x'; g=vh_rstr((char*)raw); o=out(z); ssize_t r; switch(vh_below(5)) { case 0: { char*fg=vh_rstr("%s|%d|%.10u"); r=ulz_snprintf(o,z,fg,(char*)g,(int)v,(unsigned)v); vh_gfree(fg); break; } case 1: r=ulz_snprintf(o,z,"%lld %llu %zu %c%%",(long long)v,(unsigned long long)v,(size_t)v,(int)(v%128)); break; case 2: r=ulz_snprintf(o,z,"%x%X%p",(unsigned)v,(unsigned)(v>>32),(void*)(uintptr_t)v); break; case 3: { char ff[40]; sprintf(ff,"%%.%ud%%.%ullu",(unsigned)vh_below(300),(unsigned)vh_below(120)); r=ulz_snprintf(o,z,ff,(int)v,(unsigned long long)v); break; } default: { char*bad=vh_rstr((const char*[]){"%","%.","%q","%l","%ll","%.5","a%.","%z"}[vh_below(8)]); r=ulz_snprintf(o,z,bad,1,2,3); vh_gfree(bad); } } if(r>=0&&z) { term(o,z,"ulz_snprintf"); VH_CHECK((size_t)r<z,"count","returns %zd for a buffer of %zu",r,z); } if(z<6) VH_COUNT("formatted into tiny buffer",1); vh_gfree(o); vh_gfree(g); VH_COUNT("formatted",1); sig=vh_hashu(v,sig+z); break; }
	case 14: z=vh_chance(1,2)?20:vh_below(40); o=out(z); timestamp(o,z); if(z) term(o,z,"timestamp"); vh_gfree(o); VH_COUNT("timestamps",1); break;
	case 15: g=in(raw,n); o=out(33); md5str(o,g,n); term(o,33,"md5str"); vh_gfree(o); vh_gfree(g); VH_COUNT("md5 text",1); break;
	case 16: { g=in(raw,n); md5_ctx*m=vh_gbuf(sizeof*m); md5_init(m); size_t a=vh_below(n+1); md5_update(m,g,a); md5_update(m,(u8*)g+a,n-a); o=out(16); md5_end(m,o); vh_gfree(o); vh_gfree(m); sha512_ctx*s=vh_gbuf(sizeof*s); sha512_init(s); sha512_update(s,g,n); volatile u8 last=sha512_end(s)[63]; (void)last; vh_gfree(s); vh_gfree(g); VH_COUNT("digests",1); break; }
	case 17: g=in(raw,n); { CRC32_CTX*c=vh_gbuf(sizeof*c); CRC32_Init(c); CRC32_Update(c,g,n); o=out(4); CRC32_Final((u8*)o,c); CRC32C_CTX*c2=vh_gbuf(sizeof*c2); CRC32C_Init(c2); CRC32C_Update(c2,g,n); CRC32C_Final((u8*)o,c2); vh_gfree(c); vh_gfree(c2); vh_gfree(o); } vh_gfree(g); VH_COUNT("crc",1); break;
	case 18: { const char*s=EX[vh_below(25)]; z=strlen(s); if(vh_chance(1,2)) { z=vh_below(19); vh_text((char*)raw,z,"0123456789-",11); s=(char*)raw; } g=in(s,z); if(z<10||!vh_chance(1,2)) { if(z<10) (void)strtoint(g,z); if(z<19) (void)strtoint64(g,z); } vh_gfree(g); size_t dz=vh_below(n+1); for(i=0;i<n;i++) if(!raw[i]) raw[i]='n'; g=in(raw,n); char*d=strdup_n(g,dz); if(d) { VH_CHECK(d[dz]==0&&!memcmp(d,raw,dz),"strdup_n","copy differs"); free(d); } vh_gfree(g); VH_COUNT("text to integer",1); VH_COUNT("copies",1); break; }
	case 19: { vh_text((char*)raw,n,"aAbB ",5); raw[n]=0; size_t nl=1+vh_below(5); char nd[8]; vh_text(nd,nl,"AB ",3); g=vh_rstr((char*)raw); char*ng=vh_rdup(nd,nl); char*r=strstr_uc(g,ng,nl); VH_CHECK(!r||(r>=(char*)g&&r+nl<=(char*)g+n),"range","strstr_uc points outside"); r=strstar(g,ng,nl); VH_CHECK(!r||(r>=(char*)g&&r+nl<=(char*)g+n),"range","strstar points outside"); r=findword(g,ng,nl); VH_CHECK(!r||(r>=(char*)g&&r+nl<=(char*)g+n),"range","findword points outside"); char*ns=vh_gbuf(nl+1); memcpy(ns,nd,nl); ns[nl]=0; (void)strends(g,ns); (void)containsChar(g,*nd); vh_gfree(ns); vh_gfree(ng); vh_gfree(g); VH_COUNT("searches in exact strings",1); VH_COUNT("word searches",1); break; }
	case 20: { vh_text((char*)raw,n,"ab\r\n/",5); g=vh_gdup(raw,n); size_t m=vh_below(6); char*h=vh_gbuf(m); vh_text(h,m,"ab/",3); stringptr a={g,n},b={h,m}; (void)stringptr_eq(&a,&b); (void)stringptr_contains(&a,&b); (void)stringptr_here(&a,vh_below(n+4),&b); (void)stringptr_rchr(&a,'/'); stringptr*c=stringptr_copy(&a); VH_CHECK(c&&c->ptr[c->size]==0,"not-terminated","stringptr_copy"); stringptr_free(c); char*d=stringptr_strdup(&a); VH_CHECK(d&&d[n]==0,"not-terminated","stringptr_strdup"); free(d); c=stringptr_concat(&a,&b,&a,(stringptr*)0); VH_CHECK(c&&c->size==2*n+m&&c->ptr[c->size]==0,"not-terminated","stringptr_concat"); stringptr_free(c); (void)getFileExt(g,0); vh_gfree(h); vh_gfree(g); char*q=vh_gbuf(n+1); memcpy(q,raw,n); q[n]=0; stringptr e={q,n}; (void)stringptr_hash(&e); stringptr_chomp(&e); stringptr_shiftright(&e,vh_below(n+3)); stringptr_shiftleft(&e,vh_below(n+3)); VH_CHECK(e.ptr>=q&&e.ptr+e.size<=q+n,"range","shifted outside"); vh_gfree(q); VH_COUNT("string operations",1); break; }
	case 21: { vh_text((char*)raw,n,"ab,;",4); char*q=vh_gbuf(n+1); memcpy(q,raw,n); q[n]=0; stringptr e={q,n}; stringptrlist*l=vh_chance(1,2)?stringptr_splitc(&e,','):stringptr_splits(&e,SPL(",;")); if(l) { for(i=0;i<stringptrlist_getsize(l);i++) { stringptr*s=stringptrlist_get(l,i); VH_CHECK(s->ptr>=q&&s->ptr+s->size<=q+n,"range","piece outside the string"); } stringptrlist_free(l); } stringptr*r=stringptr_replace(&e,SPL(","),SPL("<comma>")); if(r) { VH_CHECK(r->ptr[r->size]==0,"not-terminated","stringptr_replace"); stringptr_free(r); } vh_gfree(q); VH_COUNT("splits",1); break; }
	case 22: { vh_text((char*)raw,n,"ab./",4); raw[n]=0; g=vh_rstr((char*)raw); char*r=getFileExt(g,n); VH_CHECK(!r||(r>=(char*)g&&r<=(char*)g+n),"range","getFileExt points outside"); stringptr a={g,n}; r=getfilename(&a); VH_CHECK(!r||(r>=(char*)g&&r<=(char*)g+n),"range","getfilename points outside"); vh_gfree(g); VH_COUNT("file extensions",1); break; }
	default: { static char fn[600]; if(!*fn) snprintf(fn,600,"%s/l",vh_scratch()); vh_text((char*)raw,n,"abcdefgh\n",9); FILE*fp=fopen(fn,"w"); fwrite(raw,1,n,fp); fclose(fp); fileparser*p=vh_gbuf(sizeof*p); VH_CHECK(!fileparser_open(p,fn),"open","fileparser_open failed"); size_t bz=1+vh_below(40); for(i=0;i<n+2;i++) { o=out(bz); int r=fileparser_readline_userbuf(p,o,bz); if(r==0) { term(o,bz,"fileparser_readline_userbuf"); stringptr ln={o,0}; (void)ln; } vh_gfree(o); if(r) break; } fileparser_close(p); vh_gfree(p); VH_COUNT("lines into user buffer",1); } }
	vh_seen(vh_hashu(v,sig)); if(idx<40) vh_sample("op %d, %zu bytes, value %llx",k,n,(unsigned long long)v); xfree(raw);
}
void vh_setup(void) { CRC32_InitTables(); CRC32C_InitTables(); }
const vh_mode vh_modes[]={{"op",op,150000,4000000},{0}};
