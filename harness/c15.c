/* C15: base64, hex, ipv4 codecs */
#include "vh.h"
#include "strlib.h"
#include <stdio.h>
const char *const vh_rule="random byte strings of every length, valid and mutated base64 texts with every buffer size around the limit, hex texts of both parities and cases, dotted quads and near-misses; compared with independent coders; distinct = hash of input";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge texts",0};
#else
const char *const vh_required[]={"base64 encoded","base64 decoded","padding 0","padding 1","padding 2","malformed rejected","buffer too small","exact buffer","enc_str fits","enc_str too small","hex","hex odd","hex upper","ipv4 round trip","ipv4 short rejected","numeric accepted","numeric rejected","empty input","size expressions","sizes beyond 16 bits",0};
#endif
static const char T[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t enc(const u8*s,size_t n,char*o) { size_t i,k=0; u32 acc; for(i=0;i<n;i+=3) { acc=s[i]<<16|(i+1<n?s[i+1]:0)<<8|(i+2<n?s[i+2]:0); o[k++]=T[acc>>18]; o[k++]=T[acc>>12&63]; o[k++]=i+1<n?T[acc>>6&63]:'='; o[k++]=i+2<n?T[acc&63]:'='; } o[k]=0; return k; }
/* 1 = well-formed with canonical rest bits, 2 = well-formed with non-zero rest bits, 0 = malformed */
static int dec(const char*s,size_t n,u8*o,size_t*on) { size_t i,pad=0,k=0; if(!n||n%4) return 0; if(s[n-1]=='=') pad=s[n-2]=='='?2:1; u32 acc=0; int bits=0; for(i=0;i<n-pad;i++) { const char*p=s[i]?strchr(T,s[i]):0; if(!p) return 0; acc=acc<<6|(p-T); bits+=6; if(bits>=8) { bits-=8; o[k++]=acc>>bits; acc&=(1u<<bits)-1; } } *on=k; return acc?2:1; }
static size_t len(void) { return vh_xsize(vh_chance(1,15)?3000:70); }
static void b64(u64 idx) {
	size_t n=len(),m,bn; u8*s=xmalloc(n+1),*o=xmalloc(n+8); vh_bytes(s,n); char*w=xmalloc(2*n+10); m=enc(s,n,w); if(!n) VH_COUNT("empty input",1);
	u8*gs=vh_rdup(s,n); bn=BASE64ENC_BUFSIZE(n); VH_CHECK(bn==m+1&&BASE64ENC_BYTES(n)==m,"macro","BASE64ENC_BUFSIZE(%zu)=%zu",n,bn); { size_t a=vh_below(n+1),b=n-a; VH_CHECK(BASE64ENC_BYTES(a|0)==(a+2)/3*4&&BASE64ENC_BYTES(a+b)==m&&BASE64ENC_BYTES(n^0)==m&&BASE64ENC_BUFSIZE(b&~(size_t)0)==(b+2)/3*4+1&&BASE64DEC_BYTES(m+4-4)==m/4*3&&BASE64DEC_BYTES(m)==m/4*3&&BASE64DEC_BUFSIZE(m+0)==m/4*3+1&&BASE64DEC_BYTES(n?m:0)==m/4*3,"macro","size macro with an expression for %zu",n); VH_COUNT("size expressions",1); } char*g=vh_gbuf(bn); base64enc(g,gs,n); VH_CHECK(!memcmp(g,w,m+1),"enc","base64enc of %zu bytes gives '%s', expected '%s'",n,vh_esc(g,bn),w); VH_CHECK(!memcmp(gs,s,n),"modified","source changed"); VH_COUNT("base64 encoded",1);
	if(n) { size_t dl=BASE64DEC_BUFSIZE(m); int ex=vh_below(4); size_t give=ex==0?dl:ex==1?dl+vh_below(9):ex==2?vh_below(dl):dl-1; u8*d=vh_gbuf(give); memset(d,0xEE,give); size_t r=base64dec(d,g,give);
		if(give>=dl) { VH_CHECK(r==n&&!memcmp(d,s,n)&&d[n]==0,"dec","decoding '%s' gives %zu bytes",w,r); VH_COUNT("base64 decoded",1); if(give==dl) VH_COUNT("exact buffer",1); switch(3-(n%3?n%3:3)) { case 0: VH_COUNT("padding 0",1); break; case 1: VH_COUNT("padding 1",1); break; default: VH_COUNT("padding 2",1); } }
		else { VH_CHECK(r==0||(give>=n+1&&r==n&&!memcmp(d,s,n)&&d[n]==0),"dec-small","%zu-byte buffer for %zu bytes: returned %zu",give,n,r); VH_COUNT("buffer too small",1); }
		vh_gfree(d); }
	else { u8*d=vh_gbuf(4); VH_CHECK(base64dec(d,g,4)==0,"dec","decoding nothing"); vh_gfree(d); }
	VH_CHECK(!memcmp(g,w,m+1),"modified","encoded text changed"); vh_seen(vh_hash(s,n,1)); vh_sample("%zu bytes -> %.60s",n,w); vh_gfree(g); vh_gfree(gs); xfree(s); xfree(o); xfree(w);
}
static void bad(u64 idx) {
	size_t n=vh_below(vh_chance(1,6)?200:9),m,k,on=0; u8 s[256],o[400]; char w[400]; vh_bytes(s,n); m=enc(s,n,w);
	int muts=vh_below(4); while(muts--) { size_t at=vh_below(m+1); switch(vh_below(6)) { case 0: if(m) w[vh_below(m)]="=-_ \n\x80.="[vh_below(8)]; break; case 1: memmove(w+at+1,w+at,m-at+1); w[at]="=A/"[vh_below(3)]; m++; break; case 2: if(m) { at=vh_below(m); memmove(w+at,w+at+1,m-at); m--; } break; case 3: if(m) w[vh_below(m)]=vh_rnd(); break; case 4: w[m++]='='; w[m]=0; break; default: if(m) w[m-1-vh_below(m<3?m:3)]='='; } w[m]=0; m=strlen(w); }
	if(vh_chance(1,6)) { m=vh_below(9); vh_text(w,m,"AB=",3); w[m]=0; }
	int ok=dec(w,m,o,&on); size_t dl=BASE64DEC_BUFSIZE(m)+(vh_chance(1,3)?vh_below(8):0); u8*d=vh_gbuf(dl); char*g=vh_rdup(w,m+1); size_t r=base64dec(d,g,dl);
	if(!ok) { VH_CHECK(r==0,"malformed","'%s' decoded to %zu bytes",vh_esc(w,m),r); VH_COUNT("malformed rejected",1); }
	else VH_CHECK((ok==2&&r==0)||(r==on&&!memcmp(d,o,on)&&(ok==2||d[on]==0)),"dec","'%s' gives %zu bytes, expected %zu",vh_esc(w,m),r,on);
	vh_seen(vh_hash(w,m,2)); vh_sample("'%.60s' -> %zu",vh_esc(w,m),r); vh_gfree(d); vh_gfree(g); (void)k;
}
static void encstr(u64 idx) {
	size_t n=len(),m,i,dl; u8*s=xmalloc(n+1); vh_bytes(s,n); for(i=0;i<n;i++) if(!s[i]) s[i]=255; s[n]=0; char*w=xmalloc(2*n+10); m=enc(s,n,w); switch(vh_below(4)) { case 0: dl=m+1; break; case 1: dl=m; break; case 2: dl=vh_below(m+9); break; default: dl=m+1-vh_below(5<m+1?5:m+1); }
	u8*gs=vh_rdup(s,n+1); char*d=vh_gbuf(dl); int r=base64enc_str(d,gs,dl); if(dl>=m+1) { VH_CHECK(r&&!memcmp(d,w,m+1),"enc_str","base64enc_str of %zu bytes into %zu: %d",n,dl,r); VH_COUNT("enc_str fits",1); } else { VH_CHECK(!r,"enc_str-small","base64enc_str of %zu bytes into %zu reported success",n,dl); VH_COUNT("enc_str too small",1); }
	vh_seen(vh_hashu(dl,vh_hash(s,n,3))); vh_gfree(d); vh_gfree(gs); xfree(s); xfree(w);
}
static void hex(u64 idx) {
	size_t n=len(),i; u8*s=xmalloc(n+1); vh_bytes(s,n); char*w=xmalloc(2*n+2); for(i=0;i<n;i++) { w[2*i]="0123456789abcdef"[s[i]>>4]; w[2*i+1]="0123456789abcdef"[s[i]&15]; } w[2*n]=0; u8*gs=vh_rdup(s,n); char*d=vh_gbuf(2*n+1); raw2hex(d,gs,n); VH_CHECK(!memcmp(d,w,2*n+1),"raw2hex","raw2hex of %zu bytes: '%s'",n,vh_esc(d,2*n)); VH_CHECK(!memcmp(gs,s,n),"modified","source changed"); VH_COUNT("hex",1);
	size_t m=2*n,skip=0; if(n&&vh_chance(1,2)) { skip=1; s[0]&=15; VH_COUNT("hex odd",1); } if(vh_chance(1,2)) { for(i=0;i<m;i++) if(w[i]>='a'&&vh_chance(1,2)) w[i]-=32; VH_COUNT("hex upper",1); }
	char*g=vh_rdup(w+skip,m-skip+1); size_t on=(m-skip+1)/2; u8*o=vh_gbuf(on); size_t r=hex2raw(g,o); VH_CHECK(r==n&&!memcmp(o,s,n),"hex2raw","hex2raw('%s') gives %zu bytes",w+skip,r); VH_CHECK(!strcmp(g,w+skip),"modified","hex text changed"); vh_seen(vh_hash(s,n,4+skip)); vh_gfree(g); vh_gfree(o); vh_gfree(d); vh_gfree(gs); xfree(s); xfree(w);
}
static int numeric(const char*s) { int g=0,dig=0; for(;;s++) { if(*s>='0'&&*s<='9') dig++; else if(*s=='.'||!*s) { if(!dig) return 0; g++; dig=0; if(!*s) return g==4; } else return 0; } }
static void ip(u64 idx) {
	u8 q[4],r4[4]; int i; u32 v=idx<2000?(u32)(idx%256)*0x01010101u>>(idx/256):vh_rnd(); if(vh_chance(1,3)) for(i=0;i<4;i++) { static const u8 e[]={0,1,9,10,11,19,20,90,99,100,101,109,110,199,200,201,209,210,249,250,255}; v=v<<8|e[vh_below(21)]; } for(i=0;i<4;i++) q[i]=v>>8*i;
	char w[40]; sprintf(w,"%d.%d.%d.%d",q[0],q[1],q[2],q[3]); u8*gq=vh_rdup(q,4); char*o=vh_gbuf(16); stringfromipv4(gq,o); VH_CHECK(!strcmp(o,w),"stringfromipv4","%s became '%s'",w,vh_esc(o,16)); VH_CHECK(!memcmp(gq,q,4),"modified","address changed");
	char*g=vh_rstr(w); u8*b=vh_gbuf(4); memset(b,0xEE,4); VH_CHECK(ipv4fromstring(g,b)&&!memcmp(b,q,4),"ipv4fromstring","%s parsed as %d.%d.%d.%d",w,b[0],b[1],b[2],b[3]); VH_CHECK(isnumericipv4(g)==1||isnumericipv4(g),"numeric","%s is not seen as numeric",w); VH_COUNT("ipv4 round trip",1); VH_COUNT("numeric accepted",1); vh_gfree(g);
	/* fewer parts */
	int parts=vh_below(4); char t[40]=""; for(i=0;i<parts;i++) sprintf(t+strlen(t),"%s%d",i?".":"",q[i]); if(parts&&parts<4&&vh_chance(1,3)&&parts<3) strcat(t,"."); g=vh_rstr(t); VH_CHECK(!ipv4fromstring(g,b),"ipv4-short","'%s' accepted",t); VH_COUNT("ipv4 short rejected",1); vh_gfree(g);
	/* near misses of the numeric test */
	size_t n=strlen(w); strcpy(t,w); int m=1+vh_below(3); while(m--) { n=strlen(t); size_t at=vh_below(n+1); switch(vh_below(4)) { case 0: memmove(t+at+1,t+at,n-at+1); t[at]="..0a -:"[vh_below(7)]; break; case 1: if(n) { at=vh_below(n); memmove(t+at,t+at+1,n-at); } break; case 2: if(n) t[vh_below(n)]=".0/:xX+"[vh_below(7)]; break; default: strcat(t,"."); } if(strlen(t)>30) break; }
	if(vh_chance(1,6)) { n=vh_below(12); vh_text(t,n,"1.2",3); t[n]=0; }
	g=vh_rstr(t); i=isnumericipv4(g); int e=numeric(t); VH_CHECK(!i||e,"numeric","isnumericipv4('%s')=%d",vh_esc(t,strlen(t)),i); if(!i) VH_COUNT("numeric rejected",1); vh_gfree(g);
	vh_seen(vh_hashu(v,5)); vh_gfree(b); vh_gfree(o); vh_gfree(gq);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n,i,r; char*t,*w; if(idx==0) { n=(1ull<<32)+(1<<20)+vh_below(4000); t=hugetext(n,'a'); size_t o=(n+2)/3*4; w=hugewin(o+1); base64enc(w,(u8*)t,n); VH_CHECK(w[o]==0,"huge","terminator of the text for %zu bytes",n); const char*e=n%3==0?"YWFhYWFh":n%3==1?"YWFhYQ==":"YWFhYWE="; VH_CHECK(!memcmp(w+o-8,e,8),"huge","text for %zu bytes ends in %.8s",n,w+o-8); hugefree(w,o+1); }
	else if(idx==1) { n=((1ull<<32)/3+(1<<20)+vh_below(1000))*4; t=hugetext(n,'A'); size_t o=n/4*3; t[n-1]='='; t[n-2]='8'; w=hugewin(o+1); r=base64dec((u8*)w,t,o+1); VH_CHECK(r==o-1,"huge","decoding %zu characters gives %zu bytes, expected %zu",n,r,o-1); VH_CHECK(w[o-5]==0&&!memcmp(w+o-3,"\0\x0f",2),"huge","decoded bytes beyond 4 GiB"); hugefree(w,o+1); }
	else if(idx==2) { n=(1ull<<32)+5+vh_below(4000); t=hugetext(n,0xa7); t[n-1]=0x3c; w=hugewin(2*n+1); raw2hex(w,(u8*)t,n); VH_CHECK(!memcmp(w+2*n-6,"a7a73c",7),"huge","hex text of %zu bytes ends in %.6s",n,w+2*n-6); hugefree(w,2*n+1); }
	else { n=(1ull<<33)+50+vh_below(4000); t=hugetext(n,'b'); t[n-1]='4'; w=hugewin((n+1)/2); r=hex2raw(t,(u8*)w); size_t o=(n+1)/2; VH_CHECK(r==o,"huge","%zu hex digits give %zu bytes",n,r); VH_CHECK((u8)w[o-1]==0xb4&&(u8)w[o-2]==0xbb,"huge","last bytes of %zu",o); hugefree(w,o); }
	VH_COUNT("huge texts",1); vh_seen(idx+1); hugefree(t,n); (void)i;
}
static void huge_str(u64 idx) {
	size_t n=(1ull<<32)+7+vh_below(4000),o=(n+2)/3*4; char*t=hugetext(n,'a'),*w=hugewin(o+1); if(idx==0) { int r=base64enc_str(w,(u8*)t,o+1); VH_CHECK(r==1&&w[o]==0,"huge","encoding %zu characters into the stated %zu bytes: %d",n,o+1,r); } else { size_t z=(1ull<<32)+50; int r=base64enc_str(w,(u8*)t,z); VH_CHECK(r==0,"huge","encoding %zu characters into %zu bytes: %d",n,z,r); }
	VH_COUNT("huge texts",1); vh_seen(idx+9); hugefree(t,n); hugefree(w,o+1);
}
const vh_mode vh_modes[]={{"huge",huge,4,4},{"huge_str",huge_str,2,2},{0}};
#else
const vh_mode vh_modes[]={{"base64",b64,80000,3000000},{"malformed",bad,200000,8000000},{"enc_str",encstr,60000,2000000},{"hex",hex,60000,2000000},{"ipv4",ip,120000,5000000},{0}};
#endif
