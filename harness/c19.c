/* C19: line reader vs. the file's bytes; reads may come back short */
#include "vh.h"
#include "fileparser.h"
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
const char *const vh_rule="random files (line lengths around 1024 and around the caller's buffer, empty lines, NUL bytes, with and without final newline) read by random sequences of readline, readline into exact-size buffers, length queries and getline, with reads cut short or failing at random; compared with the file's bytes; distinct = hash of file and operations";
const char *const vh_required[]={"lines delivered","end of file","too long reported","long line read with a bigger buffer","length asked","length asked of a long line","length of a long last line without newline","empty line","no final newline","line of buffer size - 1","line of exactly buffer size","NUL in line","empty file","stdin lines","stdin long line","line beyond 16 bits","several parsers at once","closed twice","failed read reported","failed length query",
#ifdef HUGE
"file beyond 4 GiB",
#endif
0};
#define IOW_READ
#include "iowrap.h"
ssize_t __real_read(int,void*,size_t); static int cut,failp,fired; static u64 cuts;
ssize_t __wrap_read(int fd,void*b,size_t n) { if(failp&&vh_chance(1,failp)) { fired++; errno=(int[]){EIO,EINTR,EAGAIN}[vh_below(3)]; VH_COUNT("reads failed",1); return -1; } if(cut&&n>1&&vh_chance(1,2)) { size_t k=1+vh_below(vh_chance(1,2)?n:n<8?n:8); if(k<n) cuts++; n=k; VH_COUNT("reads cut short",1); } return iow_read(fd,b,n); }
static char fn[600]; void vh_setup(void) { snprintf(fn,600,"%s/f",vh_scratch()); }
static void store(const u8*d,size_t n) { int fd=open(fn,O_WRONLY|O_CREAT|O_TRUNC,0600); if(fd<0||write(fd,d,n)!=(ssize_t)n) vh_internal("store"); close(fd); }
static size_t llen(void) { switch(vh_below(8)) { case 0: return 0; case 1: return 1020+vh_below(9); case 2: return 2040+vh_below(12); case 3: return vh_size(5000); case 4: return 1024*vh_below(5)+vh_below(3)-(vh_below(2)); default: return vh_below(60); } }
static void gen(bs*f,int nul) { f->n=0; bs_put(f,"",0); int wide=vh_chance(1,150); int n=vh_chance(1,12)?0:1+vh_below(vh_chance(1,10)?60:8),i; for(i=0;i<n;i++) { size_t l=llen(); if(l>9000) l=0; if(wide&&vh_chance(1,2)) { l=65520+vh_below(vh_chance(1,2)?30:80000); VH_COUNT("line beyond 16 bits",1); } while(l--) bs_putc(f,vh_chance(1,40)&&nul?0:vh_chance(1,30)?'\r':'a'+vh_below(26)); if(i+1<n||vh_chance(1,2)) bs_putc(f,'\n'); } if(!f->n) VH_COUNT("empty file",1); }
static void file(u64 idx) {
	static bs f; gen(&f,1); store(f.d,f.n); fileparser*p=xmalloc(sizeof*p); memset(p,0xAA,sizeof*p); cut=0; VH_CHECK(fileparser_open(p,fn)==0,"open","open"); cut=vh_chance(1,2); size_t at=0,eofs=0; u64 sig=vh_hash(f.d,f.n,1); int steps=0; int greedy=vh_chance(1,2); int fp=vh_chance(1,3)?2+vh_below(12):0;
	while(eofs<2&&steps++<400) {
		size_t end=at; while(end<f.n&&f.d[end]!='\n') end++; size_t L=end-at; int isend=at>=f.n; int op=greedy?vh_below(3)==0:vh_below(3); sig=vh_hashu(op,sig); int r; stringptr ln;
		fired=0; if(op==2) { failp=fp; ssize_t l=fileparser_getnextlinelength(p); failp=0; if(fired&&l<0) { VH_COUNT("failed length query",1); continue; } if(isend) VH_CHECK(l<0,"length","length at the end of the file is %zd",l); else { VH_CHECK(l==(ssize_t)L,"length","next line's length %zd, expected %zu (at %zu of %zu)",l,L,at,f.n); VH_COUNT("length asked",1); if(L>=1024) { VH_COUNT("length asked of a long line",1); if(end==f.n) VH_COUNT("length of a long last line without newline",1); } } continue; }
		size_t bsz; char*b=0; if(op==0) { bsz=sizeof p->buf; failp=fp; r=fileparser_readline(p); failp=0; b=p->buf; } else { switch(vh_below(5)) { case 0: bsz=L+1; break; case 1: bsz=L?L:1; break; case 2: bsz=1+vh_below(L+40); break; case 3: bsz=1+vh_size(6000); if(L>60000) bsz=65530+vh_below(16)+(vh_chance(1,2)?65536:0); break; default: bsz=L+2; } b=vh_gbuf(bsz); failp=fp; r=fileparser_readline_userbuf(p,b,bsz); failp=0; }
		if(fired&&r!=(isend?-2:L>=bsz?-3:0)) { VH_CHECK(r!=0&&r!=-2&&r!=-3,"read-error","a failing read at %zu of %zu (line of %zu bytes, %zu-byte buffer) is reported as %d",at,f.n,L,bsz,r); VH_COUNT("failed read reported",1); if(op) vh_gfree(b); continue; }
		VH_TRACE("at %zu/%zu line of %zu, buffer %zu -> %d",at,f.n,L,bsz,r);
		if(isend) { VH_CHECK(r==-2,"eof","at the end of the file: %d",r); eofs++; VH_COUNT("end of file",1); }
		else if(L>=bsz) { VH_CHECK(r==-3,"too-long","line of %zu bytes with a %zu-byte buffer: %d",L,bsz,r); VH_COUNT("too long reported",1); if(L==bsz) VH_COUNT("line of exactly buffer size",1); if(op==0&&vh_chance(1,2)) greedy=0; if(op==0) { /* go on with a sufficient buffer */ ssize_t l=vh_chance(1,2)?fileparser_getnextlinelength(p):(ssize_t)L; VH_CHECK(l==(ssize_t)L,"length","length of the too long line %zd, expected %zu",l,L); char*u=vh_gbuf(l+1); r=fileparser_readline_userbuf(p,u,l+1); VH_CHECK(r==0&&!memcmp(u,f.d+at,L)&&u[L]==0&&p->len==L,"long-line","long line of %zu bytes read with a sufficient buffer: %d",L,r); vh_gfree(u); at=end+1; VH_COUNT("long line read with a bigger buffer",1); VH_COUNT("lines delivered",1); } }
		else { VH_CHECK(r==0,"readline","line of %zu bytes at %zu with a %zu-byte buffer: %d",L,at,bsz,r); VH_CHECK(p->len==L,"len","length %zu, expected %zu",p->len,L); VH_CHECK(!memcmp(b,f.d+at,L),"content","line at %zu differs",at); VH_CHECK(b[L]==0,"terminator","line at %zu is not terminated",at); if(op==0) { VH_CHECK(fileparser_getline(p,&ln)==0&&ln.ptr==p->buf&&ln.size==L,"getline","getline"); } if(L==bsz-1) VH_COUNT("line of buffer size - 1",1); if(!L) VH_COUNT("empty line",1); if(memchr(f.d+at,0,L)) VH_COUNT("NUL in line",1); if(end==f.n) VH_COUNT("no final newline",1); at=end+1; VH_COUNT("lines delivered",1); }
		if(op) vh_gfree(b);
	}
	cut=0; int fd=p->file; VH_CHECK(fileparser_close(p)==0,"close","close"); VH_CHECK(fcntl(fd,F_GETFD)==-1,"close","descriptor still open"); xfree(p); vh_seen(sig); vh_sample("%zu-byte file, %d steps",f.n,steps);
}
/* several files read at once, two parsers possibly on the same file; a parser used again for another file; closing a closed one touches nothing */
static void several(u64 idx) {
	enum { K=4 }; static bs f[K]; static char n[K][640]; size_t k=2+vh_below(K-1),i,at[K],left=k,who[K]; fileparser*p=xmalloc(K*sizeof*p); int done[K]={0},again[K]; u64 sig=k; memset(p,0xAA,K*sizeof*p); cut=0;
	for(i=0;i<k;i++) { gen(&f[i],1); if(f[i].n>20000) { f[i].n=20000; } snprintf(n[i],sizeof n[i],"%s/s%zu",vh_scratch(),i); int fd=open(n[i],O_WRONLY|O_CREAT|O_TRUNC,0600); if(fd<0||write(fd,f[i].d,f[i].n)!=(ssize_t)f[i].n) vh_internal("store"); close(fd); sig=vh_hash(f[i].d,f[i].n,sig); }
	for(i=0;i<k;i++) { who[i]=vh_chance(1,4)?vh_below(k):i; at[i]=0; again[i]=vh_below(2); VH_CHECK(fileparser_open(p+i,n[who[i]])==0,"open","open"); } cut=vh_chance(1,2);
	while(left) { i=vh_below(k); if(done[i]) continue; int runs=1+vh_below(vh_chance(1,3)?6:1);
		while(runs--&&!done[i]) { bs*g=&f[who[i]]; size_t end=at[i],L; while(end<g->n&&g->d[end]!='\n') end++; L=end-at[i]; if(at[i]<g->n&&vh_chance(1,4)) { ssize_t l=fileparser_getnextlinelength(p+i); VH_CHECK(l==(ssize_t)L,"length","with %zu parsers: next line's length %zd, expected %zu",k,l,L); }
			if(at[i]>=g->n) { VH_CHECK(fileparser_readline(p+i)==-2,"eof","no end of file with %zu parsers open",k); int fd=p[i].file; VH_CHECK(fileparser_close(p+i)==0&&fcntl(fd,F_GETFD)==-1,"close","descriptor still open"); if(again[i]) { again[i]=0; who[i]=vh_below(k); at[i]=0; cut=0; VH_CHECK(fileparser_open(p+i,n[who[i]])==0,"open","open again"); cut=vh_chance(1,2); } else { int o[3],q; for(q=0;q<3;q++) o[q]=open(n[0],O_RDONLY); VH_CHECK(fileparser_close(p+i)==0,"close","second close"); for(q=0;q<3;q++) { VH_CHECK(fcntl(o[q],F_GETFD)!=-1,"close-twice","closing a closed parser closed somebody else's descriptor"); close(o[q]); } VH_COUNT("closed twice",1); done[i]=1; left--; } continue; }
			char*b; int r; size_t bsz; if(L<1024&&vh_chance(1,2)) { b=p[i].buf; r=fileparser_readline(p+i); } else { bsz=L+1+vh_below(3); b=vh_gbuf(bsz); r=fileparser_readline_userbuf(p+i,b,bsz); }
			VH_CHECK(r==0&&p[i].len==L&&!memcmp(b,g->d+at[i],L)&&!b[L],"content","with %zu parsers open, line of %zu bytes at %zu: %d",k,L,at[i],r); if(b!=p[i].buf) vh_gfree(b); at[i]=end+1; } }
	cut=0; xfree(p); VH_COUNT("several parsers at once",1); vh_seen(sig);
}
static void stdinlines(u64 idx) {
	static bs f; gen(&f,0); store(f.d,f.n); if(!freopen(fn,"r",stdin)) vh_internal("freopen"); size_t at=0,i; size_t bsz=2+vh_below(vh_chance(1,2)?40:3000); if(f.n>60000&&vh_chance(3,4)) bsz=65530+vh_below(vh_chance(1,2)?20:90000); int chomp=vh_below(2),eofs=0; char*b=vh_gbuf(bsz); int steps=0;
	while(eofs<2&&steps++<3000) { stringptr s=read_stdin_line(b,bsz,chomp); if(at>=f.n) { VH_CHECK(!s.ptr&&!s.size,"stdin-eof","at the end: %zu bytes",s.size); eofs++; clearerr(stdin); continue; } for(i=at;i<f.n&&i-at<bsz-1;) { i++; if(f.d[i-1]=='\n') break; } size_t L=i-at; int nl=f.d[i-1]=='\n'; if(nl&&chomp) L--; VH_CHECK(s.ptr==b&&s.size==L&&!memcmp(b,f.d+at,L)&&b[L]==0,"stdin-line","stdin line at %zu: %zu bytes, expected %zu",at,s.size,L); if(!nl&&i<f.n) VH_COUNT("stdin long line",1); at=i; VH_COUNT("stdin lines",1); }
	vh_gfree(b); vh_seen(vh_hashu(bsz*2+chomp,vh_hash(f.d,f.n,2)));
}
static void errs(u64 idx) { fileparser p; char m[700]; snprintf(m,700,"%s/missing",vh_scratch()); VH_CHECK(fileparser_open(&p,m)!=0,"open","opened a missing file"); VH_CHECK(fileparser_open(0,m)!=0&&fileparser_open(&p,0)!=0,"open","NULL"); VH_CHECK(fileparser_close(0)!=0,"close","NULL"); VH_CHECK(fileparser_getline(0,0)!=0,"getline","NULL"); }
static void huge(u64 idx) {
	char n[700]; snprintf(n,700,"%s/huge",vh_scratch()); int fd=open(n,O_RDWR|O_CREAT|O_TRUNC,0600); u64 step=(1<<20)-17,i,cnt=4105; for(i=0;i<cnt;i++) { char t[30]; int k=sprintf(t,"\nL%llu",(unsigned long long)i); if(pwrite(fd,t,k,i*step)!=k) vh_internal("sparse write"); } if(ftruncate(fd,cnt*step)) vh_internal("trunc"); fileparser*p=xmalloc(sizeof*p); VH_CHECK(!fileparser_open(p,n),"open","open"); char*b=xmalloc(1<<20); VH_CHECK(fileparser_readline_userbuf(p,b,1<<20)==0&&p->len==0,"huge","first line");
	for(i=0;i<cnt;i++) { vh_tick(); char t[30]; sprintf(t,"L%llu",(unsigned long long)i); if(i*step>(1ull<<32)) { ssize_t l=fileparser_getnextlinelength(p); VH_CHECK(l==(ssize_t)step-1,"huge-length","length beyond 4 GiB %zd",l); } int r=fileparser_readline_userbuf(p,b,1<<20); VH_CHECK(r==0&&p->len==step-1&&!strcmp(b,t),"huge","line %llu at offset %llu: %d, '%.20s'",(unsigned long long)i,(unsigned long long)(i*step),r,b); }
	VH_CHECK(fileparser_readline_userbuf(p,b,1<<20)==-2,"huge","end"); fileparser_close(p); close(fd); unlink(n); xfree(b); xfree(p); VH_COUNT("file beyond 4 GiB",1); VH_COUNT("lines delivered",cnt); vh_seen(1);
}
#ifdef HUGE
const vh_mode vh_modes[]={{"huge",huge,1,1},{0}};
#else
const vh_mode vh_modes[]={{"file",file,16000,500000},{"several",several,3000,90000},{"stdin",stdinlines,6000,100000},{"errors",errs,8,8},{0}};
#endif
