/* C17: RC4 vs. an independent implementation; two aliasing modes */
#include "vh.h"
#include "strlib.h"
const char *const vh_rule="random keys (1..300 bytes, all shapes) and messages (0..70000 bytes): output equals message xor independent RC4 keystream, twice gives the message, in place equals out of place; exact-size buffers; distinct = hash of key and message";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge messages",0};
#else
const char *const vh_required[]={"encrypted","decrypted","in place","empty message","message over 256","message over 65536","key over 256","key over 65536","one-byte key","published vector","key buffer used again",0};
#endif
static void ks(const u8*k,size_t kn,u8*o,size_t n) { u8 S[256],t; int i,j=0; for(i=0;i<256;i++) S[i]=i; for(i=0;i<256;i++) { j=(j+S[i]+k[i%kn])&255; t=S[i]; S[i]=S[j]; S[j]=t; } int a=0,b=0; for(size_t x=0;x<n;x++) { a=(a+1)&255; b=(b+S[a])&255; t=S[a]; S[a]=S[b]; S[b]=t; o[x]=S[(S[a]+S[b])&255]; } }
static void run(u64 idx) {
	size_t n=vh_size(vh_chance(1,25)?70000:vh_chance(1,4)?2000:300),kn=vh_chance(1,6)?1+vh_below(300):vh_chance(1,4)?(size_t[]){1,2,255,256,257,5,16}[vh_below(7)]:1+vh_below(40),i; if(vh_chance(1,100)) { kn=65500+vh_below(5000); VH_COUNT("key over 65536",kn>65536); } u8*m=xmalloc(n+1),*s=xmalloc(n+1),*k=xmalloc(kn); vh_bytes(m,n); vh_bytes(k,kn); ks(k,kn,s,n); for(i=0;i<n;i++) s[i]^=m[i];
	u8*gm=vh_gdup(m,n),*gk=vh_rdup(k,kn),*d=vh_gbuf(n); rc4(d,gm,n,gk,kn); VH_CHECK(!memcmp(d,s,n),"cipher","%zu-byte message, %zu-byte key: wrong cipher text",n,kn); VH_CHECK(!memcmp(gm,m,n)&&!memcmp(gk,k,kn),"modified","key or source modified"); VH_COUNT("encrypted",1); if(!n) VH_COUNT("empty message",1); if(n>256) VH_COUNT("message over 256",1); if(n>65536) VH_COUNT("message over 65536",1); if(kn>256) VH_COUNT("key over 256",1); if(kn==1) VH_COUNT("one-byte key",1);
	if(vh_chance(1,4)) { u8*rm=vh_rdup(m,n); memset(d,0,n); rc4(d,rm,n,gk,kn); VH_CHECK(!memcmp(d,s,n),"cipher","%zu-byte message, %zu-byte key: wrong cipher text the second time",n,kn); vh_gfree(rm); }
	if(kn>1&&vh_chance(1,4)) { /* another key in the same place, with the same bytes in another order */ u8*k2=vh_gdup(k,kn),*s3=xmalloc(n+1); rc4(d,gm,n,k2,kn); VH_CHECK(!memcmp(d,s,n),"cipher","a copy of the key gives another text"); for(i=0;i<3;i++) { size_t a=vh_below(kn),b=vh_below(kn); u8 x=k2[a]; k2[a]=k2[b]; k2[b]=x; } ks(k2,kn,s3,n); for(i=0;i<n;i++) s3[i]^=m[i]; rc4(d,gm,n,k2,kn); VH_CHECK(!memcmp(d,s3,n),"cipher","another key in the same buffer: wrong cipher text"); rc4(d,gm,n,gk,kn); vh_gfree(k2); xfree(s3); VH_COUNT("key buffer used again",1); }
	rc4(gm,gm,n,gk,kn); VH_CHECK(!memcmp(gm,s,n),"in-place","in place differs, %zu bytes",n); VH_COUNT("in place",1); rc4(gm,d,n,gk,kn); VH_CHECK(!memcmp(gm,m,n),"inverse","twice does not restore the message"); VH_CHECK(!memcmp(d,s,n),"modified","source modified"); VH_COUNT("decrypted",1);
	vh_seen(vh_hash(k,kn,vh_hash(m,n,1))); vh_sample("%zu bytes, %zu-byte key",n,kn); vh_gfree(gm); vh_gfree(gk); vh_gfree(d); xfree(m); xfree(s); xfree(k);
}
static void vec(u64 idx) { static const struct { const char*k,*p,*c; int n; } V[]={{"Key","Plaintext","\xBB\xF3\x16\xE8\xD9\x40\xAF\x0A\xD3",9},{"Wiki","pedia","\x10\x21\xBF\x04\x20",5},{"Secret","Attack at dawn","\x45\xA0\x1F\x64\x5F\xC3\x5B\x38\x35\x52\x54\x4B\x9B\xF5",14}}; u8 o[20]; int i=idx%3; rc4(o,(u8*)V[i].p,V[i].n,(u8*)V[i].k,strlen(V[i].k)); VH_CHECK(!memcmp(o,V[i].c,V[i].n),"vector","published vector %d",i); VH_COUNT("published vector",1); }
#ifdef HUGE
static void huge(u64 idx) {
	static const u8 k[]="huge key"; size_t n=(1ull<<32)+1000+vh_below(4000),i; char*t=hugetext(n,0),*w=hugewin(n); rc4((u8*)w,(u8*)t,n,k,8); vh_tick();
	u8 S[256],x; int a,b=0; for(a=0;a<256;a++) S[a]=a; for(a=0;a<256;a++) { b=(b+S[a]+k[a%8])&255; x=S[a]; S[a]=S[b]; S[b]=x; } a=b=0; for(i=0;i<n;i++) { a=(a+1)&255; b=(b+S[a])&255; x=S[a]; S[a]=S[b]; S[b]=x; if(i+400>=n) VH_CHECK((u8)w[i]==S[(u8)(S[a]+S[b])],"huge","byte %zu of a %zu-byte message",i,n); if(!(i&0xfffffff)) vh_tick(); }
	VH_COUNT("huge messages",1); vh_seen(idx+1); hugefree(t,n); hugefree(w,n);
}
const vh_mode vh_modes[]={{"huge",huge,1,1},{0}};
#else
const vh_mode vh_modes[]={{"vector",vec,3,3},{"random",run,40000,1500000},{0}};
#endif
