/* C13: integers <-> text */
#include "vh.h"
#include "strlib.h"
#include <stdio.h>
const char *const vh_rule="boundary-biased and random 64-bit values in every even base, width, padding, sign and case combination, and consecutive 32-bit ranges, compared with an independent digit expansion; buffers have exactly the documented size; parse-back of every decimal text; distinct = hash of value and options";
const char *const vh_required[]={"numberToString","negative","zero","padded","width without padding","lower-case","base above 36","INT64_MIN","refused base","itoa","utoa","INT_MIN","strtoint","strtoint64","parse extremes","leading zeros","hexval","32-bit values swept",0};
static size_t digits(u64 v,unsigned base,int lower,char*out) { char t[70]; size_t n=0,i; do { unsigned d=v%base; t[n++]=d<10?'0'+d:d<36?(lower&&base<=36?'a':'A')+d-10:'a'+d-36; v/=base; } while(v); for(i=0;i<n;i++) out[i]=t[n-1-i]; out[n]=0; return n; }
static void conv(u64 idx) {
	u64 v=vh_u64val(); if(idx<8) v=(u64[]){0,1,0x8000000000000000ull,0x7fffffffffffffffull,~0ull,0xffffffff80000000ull,9,10}[idx]; unsigned base=vh_chance(1,3)?(unsigned[]){2,8,10,16,36,62}[vh_below(6)]:2+2*vh_below(31); int pad=vh_below(2),sg=vh_below(2),lc=vh_below(2),fl=(pad?NTS_PAD:0)|(sg?NTS_SIGNED_TYPE:0)|(lc?NTS_LOWERCASE_CHARS:0),neg=sg&&(v>>63); u64 mag=neg?0-v:v; char d[70],want[300]; size_t n=digits(mag,base,lc,d),maxlen=0,i,w=0;
	if(vh_chance(1,2)) { maxlen=n+(vh_chance(1,2)?0:vh_below(vh_chance(1,4)?120:8)); }
	if(neg) want[w++]='-'; if(maxlen&&pad) for(i=n;i<maxlen;i++) want[w++]='0'; strcpy(want+w,d);
	size_t bs_=(maxlen?maxlen:n)+sg+1; char*b=vh_gbuf(bs_); memset(b,'#',bs_);
	char*r=numberToString(v,base,b,maxlen,fl); VH_COUNT("numberToString",1); if(neg) VH_COUNT("negative",1); if(!v) VH_COUNT("zero",1); if(maxlen&&pad&&maxlen>n) VH_COUNT("padded",1); if(maxlen>n&&!pad) VH_COUNT("width without padding",1); if(lc&&base>10&&base<=36) VH_COUNT("lower-case",1); if(base>36) VH_COUNT("base above 36",1); if(neg&&v==1ull<<63) VH_COUNT("INT64_MIN",1);
	VH_CHECK(r,"null","numberToString(%llu,%u,maxlen %zu,flags %d) is NULL",(unsigned long long)v,base,maxlen,fl); VH_CHECK(r>=b&&r<b+bs_,"range","result points outside the buffer");
	VH_CHECK(!strcmp(r,want),"text","numberToString(0x%llx,base %u,maxlen %zu,flags %d)='%s', expected '%s'",(unsigned long long)v,base,maxlen,fl,vh_esc(r,strnlen(r,b+bs_-r)),want);
	vh_sample("0x%llx base %u maxlen %zu flags %d -> %s",(unsigned long long)v,base,maxlen,fl,r); vh_seen(vh_hashu(v,vh_hashu(base*64+fl*8,maxlen))); vh_gfree(b);
	if(vh_chance(1,10)) { unsigned bb=vh_chance(1,3)?0:vh_chance(1,2)?1+2*vh_below(40):64+vh_below(1000); char*q=vh_gbuf(1); VH_CHECK(!numberToString(v,bb,q,0,fl),"bad-base","base %u accepted",bb); VH_COUNT("refused base",1); vh_gfree(q); }
}
static void fixed(u64 idx) {
	u64 v=vh_u64val(); if(idx<10) v=(u64[]){0x80000000u,0x7fffffff,0xffffffff,0,10,-10,0x8000000000000000ull,0x7fffffffffffffffull,~0ull,1}[idx]; char w[40]; int i32=(int)v; unsigned u32_=v; char*b,*r; static const int sz=24;
	#define C(call,size,fmt,val,nm) { snprintf(w,40,fmt,val); b=vh_gbuf(size); r=call; VH_CHECK(r&&r>=b&&r<b+size&&!strcmp(r,w),nm,nm "(%s)='%s'",w,r?vh_esc(r,strnlen(r,b+size-r)):"NULL"); vh_gfree(b); }
	C(itoa(i32,b),12,"%d",i32,"itoa") VH_COUNT("itoa",1); if(i32==-2147483647-1) VH_COUNT("INT_MIN",1);
	C(utoa(u32_,b),11,"%u",u32_,"utoa") VH_COUNT("utoa",1);
	C(intToString(i32,b),12,"%d",i32,"intToString") C(uintToString(u32_,b),11,"%u",u32_,"uintToString") C(int64ToString((int64_t)v,b),21,"%lld",(long long)v,"int64ToString") C(uint64ToString(v,b),21,"%llu",(unsigned long long)v,"uint64ToString")
	VH_CHECK(!intToString(1,0)&&!uintToString(1,0)&&!int64ToString(1,0)&&!uint64ToString(1,0),"null","NULL buffer");
	int z=vh_chance(1,3)?vh_below(12):0; char t[64]; if(z) VH_COUNT("leading zeros",1);
	#define P(f,T,val) { T x=val; char neg=x<0; char dg[40]; snprintf(dg,40,"%lld",(long long)x); size_t n=0; if(neg) t[n++]='-'; for(int q=0;q<z;q++) t[n++]='0'; strcpy(t+n,dg+neg); n+=strlen(dg+neg); char*g=vh_rdup(t,n); T y=f(g,n); VH_CHECK(x==y,#f,#f "('%s')=%lld",t,(long long)y); VH_CHECK(!memcmp(g,t,n),"modified",#f " modified its input"); vh_gfree(g); }
	P(strtoint,int,i32) VH_COUNT("strtoint",1); P(strtoint64,int64_t,(int64_t)v) VH_COUNT("strtoint64",1); if((int64_t)v==INT64_MIN||(int64_t)v==INT64_MAX||i32==INT32_MIN||i32==INT32_MAX) VH_COUNT("parse extremes",1);
	VH_CHECK(strtoint(0,3)==0&&strtoint64(0,3)==0,"null","NULL text"); { char*g=vh_gbuf(0); VH_CHECK(strtoint(g,0)==0&&strtoint64(g,0)==0,"empty","empty text"); vh_gfree(g); }
	int c=idx%256; { char*g=vh_gbuf(1); *g=c; int e=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:0; int h=hexval(g); VH_CHECK(h==e,"hexval","hexval(0x%02x)=%d",c,h); vh_gfree(g); VH_COUNT("hexval",1); }
	vh_seen(vh_hashu(v,3));
}
static void inc(char*s,size_t*n) { size_t i=*n; while(i&&s[i-1]=='9') s[--i]='0'; if(i) s[i-1]++; else { memmove(s+1,s,*n+1); s[0]='1'; (*n)++; } }
static void sweep(u64 idx) {
	u64 chunk=vh_thorough?idx:idx<4?(u64[]){0,32767,32768,65535}[idx]:vh_below(65536); u32 v=chunk<<16; char w[16],b[16],m[16]; int i; size_t n=sprintf(w,"%u",v); int32_t s0=(int32_t)v; size_t mn=0; 
	for(i=0;i<65536;i++,v++) {
		char*r=utoa(v,b); if(memcmp(r,w,n+1)) vh_fail("utoa","utoa(%u)='%.12s'",v,r);
		int32_t s=(int32_t)v; if(s>=0) { r=itoa(s,b); if(memcmp(r,w,n+1)) vh_fail("itoa","itoa(%d)='%.12s'",s,r); if(strtoint(w,n)!=s) vh_fail("strtoint","strtoint(%s)",w); }
		else { u32 mag=0u-v; if(!i) mn=sprintf(m,"-%u",mag); r=itoa(s,b); if(memcmp(r,m,mn+1)) vh_fail("itoa","itoa(%d)='%.12s' expected %s",s,r,m); if(strtoint(m,mn)!=s) vh_fail("strtoint","strtoint(%s)=%d",m,strtoint(m,mn)); if(i<65535) { size_t k=mn; while(m[k-1]=='0') m[--k]='9'; m[k-1]--; if(m[1]=='0'&&mn>2) { memmove(m+1,m+2,mn-1); mn--; } } }
		if((i&7)==(chunk&7)) { if(strcmp(intToString(s,b),s<0?m:w)&&!(s<0)) vh_fail("intToString","intToString(%d)",s); if(strcmp(uintToString(v,b),w)) vh_fail("uintToString","uintToString(%u)",v); if(strtoint64(w,n)!=(int64_t)v) vh_fail("strtoint64","strtoint64(%s)",w); }
		if(v!=~0u) inc(w,&n);
	}
	(void)s0; VH_COUNT("32-bit values swept",65536); vh_seen(vh_hashu(chunk,11));
}
static void swept(u64 idx) {
#ifdef SWEEP
	sweep(idx);
#endif
}
#ifdef SWEEP
const vh_mode vh_modes[]={{"sweep",swept,1200,65536},{0}};
#else
const vh_mode vh_modes[]={{"conv",conv,300000,9000000},{"fixed",fixed,150000,4000000},{0}};
#endif
