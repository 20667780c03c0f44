/* C33: bit array macros and byte swaps vs. a plain bool array / byte reversal */
#include "vh.h"
#include "bitarray.h"
#include "endianness.h"
#include <stdio.h>
const char *const vh_rule="random set/clear/conditional-set histories on bit arrays of 1..5000 bits in exact-size buffers, all bytes compared after every operation; all 65536 16-bit values, random and single-bit 32/64-bit values; distinct = hash of array size and history or value";
#ifdef HUGE
#include "huge.h"
const char *const vh_required[]={"huge arrays",0};
#else
const char *const vh_required[]={"bits set","bits cleared","conditional sets","swapped reads","size not a multiple of 8","16-bit values","32-bit values","64-bit values","arrays beyond 2^16","bytes from bits","signed and wider arguments","sizes near the end of a type",0};
#endif
static void bits(u64 idx) {
	size_t n=1+vh_size(vh_chance(1,5)?5000:200),i,k,ops=10+vh_below(80); size_t nb=BA_SIZE_REQUIRED(n); VH_CHECK(nb==(n+7)/8,"required","%zu bytes stated as required for %zu bits",nb,n); unsigned char*a=vh_gbuf(nb); u8*m=xcalloc(nb*8,1),*full=xmalloc(nb); int fill=vh_below(3); if(fill==2) vh_bytes(a,nb); else memset(a,fill?255:0,nb); for(i=0;i<nb*8;i++) m[i]=a[i/8]>>(i%8)&1; u64 sig=n; if(n%8) VH_COUNT("size not a multiple of 8",1);
	/* learn the bit layout from the array itself: index -> reads */
	for(i=0;i<n;i++) m[i]=BA_GET(a,i)?1:0;
	for(k=0;k<ops;k++) { size_t j=vh_chance(1,6)?n-1:vh_below(n); int op=vh_below(4),v=0; memcpy(full,a,nb); switch(op) { case 0: BA_SET_TRUE(a,j); v=1; VH_COUNT("bits set",1); break; case 1: BA_SET_FALSE(a,j); v=0; VH_COUNT("bits cleared",1); break; default: v=vh_below(2); { int c=v?(int)(1u<<vh_below(32)):0; BA_SET(a,j,c); } VH_COUNT("conditional sets",1); } VH_TRACE("op %d bit %zu of %zu",op,j,n); m[j]=v; sig=vh_hashu(j*4+op,sig);
		int changed=0; for(i=0;i<nb;i++) changed+=__builtin_popcount((unsigned)(a[i]^full[i])); VH_CHECK(changed<=1,"neighbours","operation on bit %zu changes %d bits",j,changed); for(i=0;i<n;i++) VH_CHECK(BA_GET(a,i)==m[i],"get","bit %zu reads %d, expected %d (after an operation on bit %zu)",i,BA_GET(a,i),m[i],j);
		for(i=0;i+8<=n;i+=8) { for(int q=0;q<8;q++) VH_CHECK(BA_GET_SWAPPED(a,i+q)==m[i+7-q],"swapped","swapped read of bit %zu",i+q); } VH_COUNT("swapped reads",n/8); if(j/8*8+8>n) { /* last partial byte: still within the buffer */ size_t b=j/8*8; for(int q=0;q<8;q++) { int x=BA_GET_SWAPPED(a,b+q); if(b+7-q<n) VH_CHECK(x==m[b+7-q],"swapped","swapped read of bit %zu",b+q); } } }
	{ int b[8],z; unsigned want=0; for(i=0;i<8;i++) want|=(unsigned)(b[i]=vh_below(2))<<i; z=vh_below(2); VH_CHECK(BYTEL(b[0],b[1],b[2],b[3],b[4],b[5],b[6],b[7])==want&&BYTEM(b[7],b[6],b[5],b[4],b[3],b[2],b[1],b[0])==want,"byte","BYTEL/BYTEM of %02x",want); VH_CHECK(BYTEL(b[0]==1,b[1]!=0,b[2]|0,b[3]^0,b[4]?1:0,b[5]&1,b[6]==1,b[7]&&1)==want&&BYTEM(b[7]==1,b[6]?1:0,b[5]!=0,b[4]&1,b[3]|0,b[2]||0,b[1]^0,b[0]>0)==want,"byte","BYTEL/BYTEM of expressions for %02x",want); a[vh_below(nb)]=BYTEL(z,0,z,0,1,0,0,z); VH_COUNT("bytes from bits",1); }
	/* expression arguments */
	size_t x=vh_below(n),y=x?x-1:0; BA_SET_TRUE(a+0,y+(x-y)); VH_CHECK(BA_GET(a+0,y+(x-y))==1,"args","expression arguments"); if(vh_chance(1,2)) BA_SET_FALSE(a+0,y+(x-y)); else BA_SET_TRUE(a+0,y+(x-y)); if(nb>1) { unsigned char*c=a; size_t z=vh_below((nb-1)*8); BA_SET_TRUE(c+1,z); VH_CHECK(BA_GET(a,z+8)==1,"args","pointer expression"); }
	vh_seen(sig); vh_sample("%zu bits, %zu operations",n,ops); vh_gfree(a); xfree(m); xfree(full);
}
/* arrays beyond 2^16 bits and 2^16 bytes */
static void wide(u64 idx) {
	size_t n=65530+vh_below(20)+(idx%3==1?65536*vh_below(4):idx%3==2?65536*8:0),nb=BA_SIZE_REQUIRED(n),k,i; VH_CHECK(nb==(n+7)/8,"required","%zu bytes stated as required for %zu bits",nb,n); unsigned char*a=vh_gbuf(nb),*m=xmalloc(nb); memset(a,idx&1?255:0,nb); memcpy(m,a,nb); u64 sig=n; int v;
	for(k=0;k<60;k++) { size_t j=vh_chance(1,3)?n-1-vh_below(9):vh_chance(1,2)?65530+vh_below(12):vh_below(n); if(j>=n) j=n-1; int b0=BA_GET(a,j); switch(k%3) { case 0: BA_SET_TRUE(a,j); v=1; break; case 1: BA_SET_FALSE(a,j); v=0; break; default: v=vh_below(2); BA_SET(a,j,v); } VH_CHECK(BA_GET(a,j)==v,"get","bit %zu of %zu reads %d, expected %d",j,n,BA_GET(a,j),v); size_t ch=0,w=0; for(i=0;i<nb;i++) if(a[i]!=m[i]) { ch+=__builtin_popcount((unsigned)(a[i]^m[i])); w=i; m[i]=a[i]; } VH_CHECK(ch==(size_t)(b0!=v)&&(!ch||w==j/8),"neighbours","operation on bit %zu changes %zu bits, in byte %zu",j,ch,w); VH_CHECK(BA_GET_SWAPPED(a,j/8*8+7-j%8)==v,"swapped","swapped read of bit %zu",j); sig=vh_hashu(j,sig); }
	VH_COUNT("arrays beyond 2^16",1); vh_seen(sig); vh_gfree(a); xfree(m);
}
/* the size needed for every number of bits of every type */
#define REQ(T,X) { T q=(T)(X); unsigned long long w=(unsigned long long)q/8+!!((unsigned long long)q%8),g=BA_SIZE_REQUIRED(q); VH_CHECK(g==w,"required","%llu bytes stated as required for %llu bits in a " #T ", expected %llu",g,(unsigned long long)q,w); }
static void sizes(u64 idx) {
	for(int k=0;k<64;k++) { u64 d=vh_below(k<32?20:100000),v=vh_u64val(); REQ(unsigned,0xffffffffu-d) REQ(int,0x7fffffff-(int)d) REQ(size_t,(size_t)-1-d) REQ(u64,v) REQ(u64,~d) REQ(long,0x7fffffffffffffffl-(long)d) REQ(unsigned short,65535-d) REQ(short,32767-(d&32767)) REQ(unsigned char,255-d) REQ(signed char,127-(d&127)) REQ(unsigned,d) REQ(unsigned,v) VH_CHECK(BA_SIZE_REQUIRED(d+k-k)==d/8+!!(d%8)&&2*BA_SIZE_REQUIRED(d)==2*(d/8+!!(d%8)),"required","as part of an expression"); }
	VH_COUNT("sizes near the end of a type",64); vh_seen(vh_hashu(idx,3));
}
static u64 rev(u64 v,int n) { u64 r=0; for(int i=0;i<n;i++) r|=(v>>(8*i)&255)<<(8*(n-1-i)); return r; }
static void swaps(u64 idx) {
	if(idx<256) for(u32 i=idx*256;i<idx*256+256;i++) { uint16_t v=i; VH_CHECK((uint16_t)byteswap16(v)==rev(v,2)&&(uint64_t)byteswap16(v)==rev(v,2),"swap16","byteswap16(%04x)=%lx",v,(long)byteswap16(v)); VH_COUNT("16-bit values",1); int a=v>>8,b=v&255; VH_CHECK((uint16_t)byteswap16(a<<8|b)==rev(v,2),"swap16","expression argument"); }
	for(int k=0;k<200;k++) { uint32_t v=k<32?1u<<k:k<40?0xffu<<(8*(k%4)):(u32)vh_u64val(); VH_CHECK((uint32_t)byteswap32(v)==rev(v,4),"swap32","byteswap32(%08x)=%lx",v,(long)byteswap32(v)); VH_CHECK((uint64_t)byteswap32(v)==rev(v,4),"swap32","byteswap32(%08x) does not fit 32 bits",v); VH_CHECK((uint32_t)byteswap32(v^0u)==rev(v,4),"swap32","expression"); VH_COUNT("32-bit values",1); uint64_t w=k<64?1ull<<k:k<80?0xffull<<(8*(k%8)):vh_chance(1,2)?vh_rnd():vh_u64val(); VH_CHECK(byteswap64(w)==rev(w,8),"swap64","byteswap64(%016llx)=%016llx",(unsigned long long)w,(unsigned long long)byteswap64(w)); VH_CHECK(byteswap64(byteswap64(w))==w,"swap64","not its own inverse"); VH_COUNT("64-bit values",1);
		VH_CHECK((uint64_t)byteswap32((int32_t)v)==rev(v,4)&&(uint64_t)byteswap32((int64_t)(w&0xffffffff00000000ull|v))==rev(v,4),"swap32","byteswap32 of %08x in a signed or wider type",v); VH_CHECK((uint64_t)byteswap16((int16_t)v)==rev((uint16_t)v,2)&&(uint64_t)byteswap16((long)w)==rev((uint16_t)w,2),"swap16","byteswap16 of a signed or wider type");  VH_COUNT("signed and wider arguments",1);
		uint32_t one=v; uint8_t*bp=(uint8_t*)&one; uint32_t le=le32(v); memcpy(bp,&le,4); VH_CHECK(bp[0]==(v&255)&&bp[3]==v>>24,"le32","le32(%08x)",v); uint16_t le6=le16((uint16_t)v); uint8_t*cp=(uint8_t*)&le6; VH_CHECK(cp[0]==(v&255)&&cp[1]==(v>>8&255),"le16","le16"); }
	vh_seen(vh_hashu(idx,5)); if(idx<3) vh_sample("block %llu of 256 16-bit values and 200 wider ones",(unsigned long long)idx);
}
#ifdef HUGE
static void huge(u64 idx) {
	size_t n=(1ull<<35)+7,nb=BA_SIZE_REQUIRED(n),k; VH_CHECK(nb==(1ull<<32)+1,"required","%zu bytes stated as required for %zu bits",nb,n); u8*a=mmap(0,nb,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(a==MAP_FAILED) vh_internal("mmap");
	size_t p[]={3,(1ull<<31)-1,1ull<<31,(1ull<<32)-1,1ull<<32,(1ull<<32)+3,(1ull<<34)+5,(1ull<<35)-1,(1ull<<35)+3,n-1}; for(k=0;k<10;k++) VH_CHECK(!BA_GET(a,p[k]),"get","bit %zu is set",p[k]);
	for(k=0;k<10;k++) { VH_CHECK(!BA_GET(a,p[k]),"get","bit %zu is set after lower ones were",p[k]); if(k&1) BA_SET_TRUE(a,p[k]); else BA_SET(a,p[k],1); VH_CHECK(BA_GET(a,p[k])&&!BA_GET(a,p[k]^1),"get","bit %zu",p[k]); VH_CHECK(BA_GET_SWAPPED(a,p[k]^7),"swapped","swapped read of bit %zu",p[k]^7); } for(k=0;k<10;k++) { VH_CHECK(BA_GET(a,p[k]),"get","bit %zu was lost",p[k]); BA_SET_FALSE(a,p[k]); VH_CHECK(!BA_GET(a,p[k]),"get","bit %zu still set",p[k]); }
	VH_COUNT("huge arrays",1); vh_seen(1); munmap(a,nb);
}
const vh_mode vh_modes[]={{"huge",huge,1,1},{0}};
#else
const vh_mode vh_modes[]={{"bits",bits,20000,500000},{"wide",wide,300,5000},{"sizes",sizes,400,20000},{"swaps",swaps,4000,200000},{0}};
#endif
