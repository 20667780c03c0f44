/* C34: a program built against stdio-repl.h, its output streams vs. what the C library would have sent there */
#include "vh.h"
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include "fmtgen.h"
#define IOW_WRITE
#include "iowrap.h"
/* while a call runs, the system may take fewer bytes than offered, or be interrupted */
static int cut,inside;
ssize_t __wrap_write(int f,const void*b,size_t n) { if(!inside) return iow_write(f,b,n); if(cut&&vh_chance(1,4)) { VH_COUNT("interrupted writes",1); errno=EINTR; return -1; } size_t m=n; if(cut&&n>1&&vh_chance(1,2)) { m=vh_chance(1,2)?1+vh_below(n<9?n-1:8):1+vh_below(n-1); VH_COUNT("partial writes",1); } ssize_t r=iow_write(f,b,m); if(cut) errno=(int)vh_below(130); return r; }
const char *const vh_rule="random histories of printf, fprintf on stdout and stderr, dprintf, snprintf, vsnprintf, puts and perror through the replacement header, some while writes are partial or interrupted, with generated and literal formats; everything that arrived on descriptors 1, 2 and a third one compared with what the C library would have written, in order; distinct = hash of the calls";
const char *const vh_required[]={"printf","fprintf stdout","fprintf stderr","dprintf","snprintf","vsnprintf","puts","perror","literal formats","malformed","%c of 0","over 4095 characters","histories","several streams","partial writes","interrupted writes","perror without text","descriptors beyond 255",0};
long r_gen(int how,int fd,char*d,size_t n,const char*f,u64*A); long r_lit(int how,int fd,char*d,size_t n,int k,int i,unsigned u,const char*s,long l); void r_puts(const char*s,int twice); void r_perror(const char*s); int r_putsx(const char*s);
extern void __sanitizer_set_report_fd(void*) __attribute__((weak));
static int fd[3]; static bs X[3]; static int keep2;
void vh_setup(void) { for(int i=0;i<3;i++) if((fd[i]=memfd_create("out",MFD_CLOEXEC))<0) vh_internal("memfd"); if(dup2(fd[0],1)<0||(keep2=dup(2))<0) vh_internal("dup"); if(__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)keep2); }
static const char*const nm[6]={"printf","fprintf stdout","fprintf stderr","dprintf","snprintf","vsnprintf"};
static int ci(int how) { static int id[6]={-1,-1,-1,-1,-1,-1}; if(id[how]<0) id[how]=vh_counter(nm[how]); return id[how]; }
static void add(int how,const char*s,size_t n) { if(n>4095) { n=4095; VH_COUNT("over 4095 characters",1); } bs_put(&X[how<2?0:how-1],s,n); }
static void history(u64 idx) {
	static char ref[3000000]; if(fd[2]>255) { int h=fcntl(fd[2],F_DUPFD_CLOEXEC,3); close(fd[2]); fd[2]=h; } else if(vh_chance(1,10)) { int h=fcntl(fd[2],F_DUPFD_CLOEXEC,vh_chance(1,2)?256+vh_below(4):256+vh_below(700)); if(h>=0) { close(fd[2]); fd[2]=h; VH_COUNT("descriptors beyond 255",1); } } if(fd[2]<0) vh_internal("dup"); int ops=1+vh_below(vh_chance(1,8)?40:8),k,used=0; u64 sig=0; for(k=0;k<3;k++) { X[k].n=0; if(ftruncate(fd[k],0)) vh_internal("truncate"); lseek(fd[k],0,SEEK_SET); }
	/* descriptor 2 is the sanitizer's too: ours only during a call */
	for(k=0;k<ops;k++) { int a=vh_below(20),how=vh_below(6); size_t n=vh_chance(1,3)?vh_below(30):vh_below(3000); char*d=vh_gbuf(n); long r=0; int e0=0;
#define AS2(stmt) do { if(dup2(fd[1],2)<0) vh_internal("dup2"); cut=vh_chance(1,4); inside=1; errno=e0; stmt; inside=0; dup2(keep2,2); } while(0)
		if(a<10) { gen(); int bad=vh_chance(1,12); if(bad) { bs_puts(&F,vh_chance(1,2)?"%":"%q"); VH_COUNT("malformed",1); } char*f=vh_rdup(F.d,F.n+1); int full=snprintf(ref,sizeof ref,(char*)R.d,ARGS); VH_TRACE("%s '%s'",nm[how],vh_esc(F.d,F.n)); AS2(r=r_gen(how,fd[2],d,n,f,A)); if(how<4) { if(!bad) add(how,ref,full); } else { ssize_t e=bad?-1:!n?0:n>(size_t)full?full:(ssize_t)n-1; VH_CHECK(r==e,"return","%s('%s') into %zu bytes returned %ld, expected %zd",nm[how],vh_esc(F.d,F.n),n,r,e); if(e>=0&&n) VH_CHECK(!memcmp(d,ref,e)&&!d[e],"text","%s('%s') gives '%s'",nm[how],vh_esc(F.d,F.n),vh_esc(d,e)); } sig=vh_hash(F.d,F.n,sig+how); for(int i=0;i<nstr;i++) vh_gfree(strs[i]); vh_gfree(f); vh_cnt[ci(how)]++; }
		else if(a<16) { char s[40]; size_t z=vh_below(39); vh_text(s,z,"abc d%\n",7); s[z]=0; int q=vh_below(7),i=(int)vh_u64val(); unsigned u=(unsigned)vh_u64val(); long l=(long)vh_u64val(); if(i==(int)0x80000000) i++; VH_TRACE("literal %d by %s",q,nm[how]); AS2(r=r_lit(how,fd[2],d,n,q,i,u,s,l)); int full=0;
			switch(q) { case 0: full=sprintf(ref,"hello, world\n"); break; case 1: full=sprintf(ref,"%d items\n",i); break; case 2: full=sprintf(ref,"%s=%u\n",s,u); break; case 3: full=sprintf(ref,"[%.8x] %s: %ld%%\n",u,s,l); break; case 4: full=sprintf(ref,"%c%s%c",(i&63)|64,s,'\n'); break; case 5: full=sprintf(ref,i&1?"odd":"even"); break; default: full=sprintf(ref,"%.3d/%.3d",i,-i/2); }
			if(how<4) add(how,ref,full); else { ssize_t e=!n?0:n>(size_t)full?full:(ssize_t)n-1; VH_CHECK(r==e&&(!n||(!memcmp(d,ref,e)&&!d[e])),"text","%s literal %d into %zu bytes: %ld '%s', expected %zd '%s'",nm[how],q,n,r,n?vh_esc(d,strnlen(d,n)):"",e,vh_esc(ref,e)); } sig=vh_hash(ref,full,sig+how); vh_cnt[ci(how)]++; VH_COUNT("literal formats",1); }
		else { size_t z=vh_chance(1,10)?vh_xsize(6000):vh_below(30); char*s=vh_gbuf(z+1); vh_text(s,z,"xy%d\n \x80",7); s[z]=0; int e=vh_chance(1,4)?vh_below(200):1+vh_below(40),w=vh_below(4); char em[100]; snprintf(em,sizeof em,"%s",strerror(e)); sig=vh_hash(s,z,sig+100+w);
			VH_TRACE("%s '%s' errno %d",w?"puts":"perror",vh_esc(s,z),e);
			if(w==0) { e0=e; int none=z==0&&vh_chance(1,2); AS2(r_perror(none?0:s)); if(z) { bs_put(&X[1],s,z); bs_puts(&X[1],": "); } else VH_COUNT("perror without text",1); bs_puts(&X[1],em); bs_puts(&X[1],"\n"); VH_COUNT("perror",1); }
			else if(w==1) { e0=e; AS2(r_puts(s,0)); if(z) { bs_put(&X[1],s,z); bs_puts(&X[1],": "); } bs_puts(&X[1],em); bs_puts(&X[1],"\n"); VH_COUNT("perror",1); }
			else { if(w==2) AS2(r_puts(s,1)); else AS2(VH_CHECK(r_putsx(s)==2,"loop","puts in a loop")); for(int j=0;j<2;j++) { bs_put(&X[0],s,z); bs_puts(&X[0],"\n"); } VH_COUNT("puts",1); } vh_gfree(s); }
		vh_gfree(d); }
	for(k=0;k<3;k++) { off_t n=lseek(fd[k],0,SEEK_END); used+=n>0; char*g=xmalloc(n+1); if(pread(fd[k],g,n,0)!=n) vh_internal("pread"); size_t c=0; while(c<(size_t)n&&c<X[k].n&&g[c]==(char)X[k].d[c]) c++; VH_CHECK((size_t)n==X[k].n&&c==X[k].n,"stream","descriptor %s received %ld bytes, expected %zu; first difference at %zu: '%s', expected '%s'",k==0?"1":k==1?"2":"3",(long)n,X[k].n,c,vh_esc(g+c,(size_t)n-c>40?40:n-c),vh_esc(X[k].d+c,X[k].n-c>40?40:X[k].n-c)); xfree(g); }
	VH_COUNT("histories",1); if(used>1) VH_COUNT("several streams",1); vh_seen(sig); vh_sample("%d calls, %zu+%zu+%zu bytes",ops,X[0].n,X[1].n,X[2].n);
}
const vh_mode vh_modes[]={{"history",history,40000,1500000},{0}};
