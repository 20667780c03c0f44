/* C16: digests. Messages and results are logged and judged offline (hashlib, zlib, bitwise CRC-32C); chunking and interleaving judged here. */
#include "vh.h"
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
#include "strlib.h"
#include <sys/mman.h>
#include <stdio.h>
const char *const vh_rule="every message length 0..600 and random larger ones, random cuts into updates (zero-length ones included), interleaved computations; one-shot digests logged and compared offline with hashlib/zlib/bitwise CRC-32C; messages beyond 2^29 and 2^32 bytes against precomputed digests; distinct = hash of message";
const char *const vh_required[]={"messages logged","md5 pieces","sha512 pieces","crc pieces","interleaved","named sizes","md5str","ends at block boundary",
#ifdef HUGE
"beyond 2^29 bytes","beyond 2^32 bytes",
#endif
0};
void vh_setup(void) { CRC32_InitTables(); CRC32C_InitTables(); }
typedef struct { u8 md5[16],sha[64],c[4],cc[4]; } dg;
/* buffers of the size the headers name */
static void named(const u8*m,size_t n,dg*d) { u8*a=vh_gbuf(MD5_HASH_SIZE); md5_ctx c; sha512_ctx s; VH_CHECK(MD5_HASH_SIZE==16&&SHA512_HASH_SIZE==64,"hash-size","MD5_HASH_SIZE %d, SHA512_HASH_SIZE %d",MD5_HASH_SIZE,SHA512_HASH_SIZE); md5_init(&c); md5_update(&c,m,n); md5_end(&c,a); VH_CHECK(!memcmp(a,d->md5,MD5_HASH_SIZE),"md5-repeat","second digest of the same message differs"); sha512_init(&s); sha512_update(&s,m,n); VH_CHECK(!memcmp(sha512_end(&s),d->sha,SHA512_HASH_SIZE),"sha512-repeat","second digest of the same message differs"); vh_gfree(a); VH_COUNT("named sizes",1); }
static void one(const u8*m,size_t n,dg*d) { md5_ctx a; sha512_ctx s; CRC32_CTX c; CRC32C_CTX cc; md5_init(&a); md5_update(&a,m,n); md5_end(&a,d->md5); sha512_init(&s); sha512_update(&s,m,n); memcpy(d->sha,sha512_end(&s),64); CRC32_Init(&c); CRC32_Update(&c,m,n); CRC32_Final(d->c,&c); CRC32C_Init(&cc); CRC32C_Update(&cc,m,n); CRC32C_Final(d->cc,&cc); }
static void rec(const u8*m,size_t n,dg*d) { if(!vh_logging()) return; u8*b=xmalloc(4+n+sizeof*d); u32 k=n; memcpy(b,&k,4); memcpy(b+4,m,n); memcpy(b+4+n,d,sizeof*d); vh_log(b,4+n+sizeof*d); xfree(b); VH_COUNT("messages logged",1); }
static size_t len(u64 idx) { if(idx<600) return idx; return vh_size(vh_chance(1,30)?70000:vh_chance(1,4)?4000:400); }
static void msg(u64 idx) {
	size_t n=len(idx),i; u8*t=xmalloc(n+1); vh_bytes(t,n); u8*m=vh_rdup(t,n); dg d,e; one(m,n,&d); rec(t,n,&d); if(n%64==0||n%128==0) VH_COUNT("ends at block boundary",1);
	VH_CHECK(!memcmp(m,t,n),"modified","message modified");
	char*o=vh_gbuf(33),w[33]; md5str(o,m,n); for(i=0;i<16;i++) sprintf(w+2*i,"%02x",d.md5[i]); VH_CHECK(!memcmp(o,w,33),"md5str","md5str '%s' expected '%s'",vh_esc(o,33),w); VH_COUNT("md5str",1); vh_gfree(o);
	named(m,n,&d);
	/* pieces */
	md5_ctx a,a2; CRC32_CTX c; CRC32C_CTX cc; sha512_ctx s,s2; md5_init(&a); CRC32_Init(&c); CRC32C_Init(&cc); sha512_init(&s); size_t maxp=vh_chance(1,3)?3:vh_chance(1,2)?70:300; dg junk; int peeked=0;
	for(i=0;i<n||vh_chance(1,4);) { size_t k=vh_below(maxp+1); if(vh_chance(1,6)) k=64-(i&63); if(k>n-i) k=n-i; u8*p=vh_rdup(t+i,k); md5_update(&a,p,k); CRC32_Update(&c,p,k); CRC32C_Update(&cc,p,k); vh_gfree(p); i+=k; if(vh_chance(1,20)) { one((u8*)"interleaved",11,&junk); VH_COUNT("interleaved",1); } if(vh_chance(1,30)) { u8 x[16],y[16]; md5_end(&a,x); peeked=1; md5_init(&a2); md5_update(&a2,m,i); md5_end(&a2,y); VH_CHECK(!memcmp(x,y,16),"md5-prefix","digest of the first %zu bytes depends on the cut",i); } if(n>20000) vh_tick(); }
	md5_end(&a,e.md5); CRC32_Final(e.c,&c); CRC32C_Final(e.cc,&cc); VH_CHECK(!memcmp(e.md5,d.md5,16),"md5-pieces","md5 of %zu bytes depends on the cut (%s)",n,peeked?"with an intermediate end":"plain"); VH_CHECK(!memcmp(e.c,d.c,4),"crc32-pieces","crc32 of %zu bytes depends on the cut",n); VH_CHECK(!memcmp(e.cc,d.cc,4),"crc32c-pieces","crc32c of %zu bytes depends on the cut",n); VH_COUNT("md5 pieces",1); VH_COUNT("crc pieces",1);
	sha512_init(&s2); for(i=0;;) { size_t k=128*vh_below(4); if(i+k>n||vh_chance(1,8)||(i+k==n&&vh_chance(1,2))) { k=n-i; u8*p=vh_rdup(t+i,k); sha512_update(&s,p,k); vh_gfree(p); break; } u8*p=vh_rdup(t+i,k); sha512_update(&s,p,k); if(vh_chance(1,5)) sha512_update(&s2,(u8*)p,0); vh_gfree(p); i+=k; }
	VH_CHECK(!memcmp(sha512_end(&s),d.sha,64),"sha512-pieces","sha512 of %zu bytes depends on the cut",n); VH_COUNT("sha512 pieces",1);
	one(m,n,&e); VH_CHECK(!memcmp(&e,&d,sizeof d),"repeat","second computation over the same message differs"); vh_seen(vh_hash(t,n,1)); vh_sample("%zu bytes, md5 %s",n,w); vh_gfree(m); xfree(t);
}
static void inter(u64 idx) {
	enum { K=4 }; size_t n[K],at[K]={0}; u8*t[K]; dg d[K],e; md5_ctx a[K]; sha512_ctx s[K]; CRC32_CTX c[K]; CRC32C_CTX cc[K]; int i,left=K;
	for(i=0;i<K;i++) { n[i]=vh_size(1500); t[i]=xmalloc(n[i]+1); vh_bytes(t[i],n[i]); one(t[i],n[i],d+i); rec(t[i],n[i],d+i); memset(a+i,0xAA,sizeof*a); memset(s+i,0xAA,sizeof*s); memset(c+i,0xAA,sizeof*c); md5_init(a+i); sha512_init(s+i); CRC32_Init(c+i); CRC32C_Init(cc+i); }
	int done[K]={0}; while(left) { i=vh_below(K); if(done[i]) continue; size_t k=128*(1+vh_below(3)); if(at[i]+k>=n[i]) { k=n[i]-at[i]; done[i]=1; left--; } md5_update(a+i,t[i]+at[i],k); sha512_update(s+i,t[i]+at[i],k); CRC32_Update(c+i,t[i]+at[i],k); CRC32C_Update(cc+i,t[i]+at[i],k); at[i]+=k; if(done[i]) { md5_end(a+i,e.md5); memcpy(e.sha,sha512_end(s+i),64); CRC32_Final(e.c,c+i); CRC32C_Final(e.cc,cc+i); VH_CHECK(!memcmp(&e,d+i,sizeof e),"interleaved","computation %d of %d in progress together gives another result (%zu bytes)",i,K,n[i]); if(vh_chance(1,3)) { /* reuse */ md5_init(a+i); sha512_init(s+i); CRC32_Init(c+i); CRC32C_Init(cc+i); md5_update(a+i,"x",1); } } }
	VH_COUNT("interleaved",K); vh_seen(vh_hash(t[0],n[0],2)); for(i=0;i<K;i++) xfree(t[i]);
}
static void huge(u64 idx) {
	static const struct { size_t n; const char*md5,*sha; u32 c; } H[]={
	{536870989u,"8b4a2365d46e1741670d69af8aeab34a","97aa58b5d2998b16fda01aabc4d9f62ecb98204aa4574094ae9188e369899f900a2648221178e8764edee2b1777fdf49861ef6fcb07afde0162aa1c524e46e8d",0x40207d46},
	{4294967469ull,"c61bb8da515c0a7fc6669e0ce5b71ff9","28825eb2dac84a74c8b5edad20b74ff239ca1cca3ad512831a963ceb0415ec7a89b6a801b59b7ce27210f145ce13debe038df977fc5fd5c1e4684abeaf05966c",0xf20d83c9},
	}; int big=idx&1,which=idx/2%3; size_t n=H[big].n; u8*z=mmap(0,n+4096,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(z==MAP_FAILED) vh_internal("mmap"); char w[130]; int i; madvise(z,n+4096,MADV_HUGEPAGE);
	size_t step=big&&idx<6?n:1<<27,at;
	if(which==0) { md5_ctx a; u8 o[16]; md5_init(&a); for(at=0;at<n;at+=step) { md5_update(&a,z+at,n-at<step?n-at:step); vh_tick(); } md5_end(&a,o); for(i=0;i<16;i++) sprintf(w+2*i,"%02x",o[i]); VH_CHECK(!strcmp(w,H[big].md5),"md5-huge","md5 of %zu zero bytes is %s",n,w); }
	else if(which==1) { sha512_ctx s; sha512_init(&s); for(at=0;at<n;at+=step) { sha512_update(&s,z+at,n-at<step?n-at:step); vh_tick(); } u8*o=sha512_end(&s); for(i=0;i<64;i++) sprintf(w+2*i,"%02x",o[i]); VH_CHECK(!strcmp(w,H[big].sha),"sha512-huge","sha512 of %zu zero bytes is %s",n,w); }
	else { CRC32_CTX c; u8 o[4]; CRC32_Init(&c); CRC32_Update(&c,z,n); CRC32_Final(o,&c); u32 v=o[0]|o[1]<<8|o[2]<<16|(u32)o[3]<<24; VH_CHECK(v==H[big].c,"crc32-huge","crc32 of %zu zero bytes is %08x",n,v); }
	if(big) VH_COUNT("beyond 2^32 bytes",1); else VH_COUNT("beyond 2^29 bytes",1); munmap(z,n+4096); vh_seen(vh_hashu(idx,99));
}
#ifdef HUGE
const vh_mode vh_modes[]={{"huge",huge,6,12},{0}};
#else
const vh_mode vh_modes[]={{"message",msg,12000,300000},{"interleaved",inter,3000,60000},{0}};
#endif
