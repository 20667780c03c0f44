/* C25: daemonize in a forked child with random descriptors and limits; the daemon reports through shared memory */
#include "vh.h"
#include "proclib.h"
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
const char *const vh_rule="daemonize called in forked processes with random descriptor limits (8..65536), random sets of open descriptors (files, pipes, sockets, directories; dense, sparse, up to the limit; standard descriptors open, closed or replaced), with and without a failing fork; the daemon records its session and complete descriptor table in shared memory; distinct = hash of limit and descriptor set";
const char *const vh_required[]={"daemons observed","limits of 4096 and more","descriptor right below the limit","standard descriptors closed before","session leader before","many descriptors open",0};
static int failfork; static void madefork(pid_t c); pid_t __real_fork(void); pid_t __wrap_fork(void) { if(failfork) { VH_COUNT("fork failures injected",1); errno=EAGAIN; return -1; } pid_t c=__real_fork(); madefork(c); return c; }
struct rep { volatile int done,nfork; struct { pid_t by,child; } forks[16]; int ret,std[3],acc[3],rd,wr,nopen,other[16]; pid_t pid,sid,pgid,opid,osid; };
static struct rep*R; static void madefork(pid_t c) { if(c>0&&R&&R->nfork<16) { int k=__sync_fetch_and_add(&R->nfork,1); R->forks[k].by=getpid(); R->forks[k].child=c; } }
void vh_setup(void) { R=mmap(0,sizeof*R,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(R==MAP_FAILED) vh_internal("mmap"); prctl(PR_SET_CHILD_SUBREAPER,1); }
static void fill(rlim_t lim,u64*sig) { /* open descriptors as drawn */
	int k,shape=vh_below(5),i,src[6],ns=0,pp[2]; src[ns++]=open("/dev/zero",O_RDONLY); src[ns++]=open(".",O_RDONLY); if(!pipe(pp)) { src[ns++]=pp[0]; src[ns++]=pp[1]; } i=socket(AF_UNIX,SOCK_STREAM,0); if(i>=0) src[ns++]=i;
	int n=shape==0?0:shape==1?(int)lim:(int)vh_below(40); for(k=0;k<n;k++) { int s=src[vh_below(ns)]; if(s<0) continue; int t=shape==1?k:shape==2?3+(int)vh_below(30):(int)vh_below(lim); if(t<0||(rlim_t)t>=lim) continue; int isrc=0; for(i=0;i<ns;i++) isrc|=src[i]==t; if(isrc) continue; if(t<3&&shape!=1) continue; if(vh_chance(1,4)) { int f=dup3(s,t,O_CLOEXEC); (void)f; } else dup2(s,t); }
	if(shape==3||shape==4) { dup2(src[0],lim-1); dup2(src[0],lim-2); } if(vh_chance(1,3)) for(i=0;i<3;i++) if(vh_chance(1,2)) close(i); *sig=vh_hashu(shape,vh_hashu(n,*sig)); }
static void daemonrun(u64 idx) {
	memset((void*)R,0,sizeof*R); failfork=0; rlim_t lim=vh_chance(1,4)?8+vh_below(60):vh_chance(1,3)?(rlim_t[]){256,1024,4096,1000,255,16384,65536}[vh_below(7)]:64+vh_below(3000); int nofork=vh_chance(1,6),lead=vh_chance(1,3); u64 sig=vh_hashu(lim,nofork*2+lead); u64 st[2]; vh_rng_get(st); pid_t me=getpid();
	pid_t c=__real_fork(); if(c<0) vh_internal("fork");
	if(!c) { struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); if(rl.rlim_max<lim) lim=rl.rlim_max; rl.rlim_cur=lim; setrlimit(RLIMIT_NOFILE,&rl); if(lead) setsid(); fill(lim,&sig); R->opid=getpid(); R->osid=getsid(0); failfork=nofork; daemonize(); failfork=0;
		R->pid=getpid(); R->sid=getsid(0); R->pgid=getpgrp(); struct stat s; int i; for(i=0;i<3;i++) { R->std[i]=!fstat(i,&s)&&S_ISCHR(s.st_mode)&&s.st_rdev==makedev(1,3); int f=fcntl(i,F_GETFL); R->acc[i]=f==-1?-1:f&O_ACCMODE; } char b[4]; R->rd=read(0,b,4); R->wr=write(1,"x",1)+write(2,"x",1); for(i=3;i<(int)lim;i++) if(fcntl(i,F_GETFD)!=-1) { if(R->nopen<16) R->other[R->nopen]=i; R->nopen++; } R->ret=1; __sync_synchronize(); R->done=1; _exit(42); }
	int ws=0; struct timespec t={0,200000}; pid_t w; for(int k=0;(w=waitpid(c,&ws,WNOHANG))==0;k++) { nanosleep(&t,0); if(k%1000==0) vh_tick(); if(k>100000) { kill(c,9); vh_fail("caller-stuck","the calling process does not exit"); } }
	vh_rng_set(st); /* same draws in the parent, for the distinctness hash */ { u64 a=vh_below(5); sig=vh_hashu(a,vh_hashu(vh_rnd(),sig)); if(a>=3) VH_COUNT("descriptor right below the limit",1); if(a==1) VH_COUNT("many descriptors open",1); }
	VH_TRACE("limit %lu nofork %d lead %d: status %x",(unsigned long)lim,nofork,lead,ws);
	if(nofork&&R->done==0&&WIFEXITED(ws)&&WEXITSTATUS(ws)==1) { vh_seen(sig); while(waitpid(-1,&ws,WNOHANG)>0); return; }
	VH_CHECK(WIFEXITED(ws),"caller-signal","the calling process died of signal %d",WTERMSIG(ws)); if(nofork&&WEXITSTATUS(ws)!=0) VH_CHECK(WEXITSTATUS(ws)==1,"fork-failure","the process cannot be forked, the caller exits with %d instead of 1",WEXITSTATUS(ws));
	VH_CHECK(WEXITSTATUS(ws)!=42,"same-process","daemonize returned in the calling process%s",nofork?" although fork failed":""); VH_CHECK(WEXITSTATUS(ws)==0,"caller-status","the calling process exits with %d",WEXITSTATUS(ws));
	for(int k=0;!R->done;k++) { nanosleep(&t,0); if(k%1000==0) vh_tick(); if(k>100000) vh_fail("no-daemon","daemonize did not return in the child within 20 s"); }
	VH_CHECK(R->pid!=R->opid&&R->pid!=me,"same-process","the daemon is the calling process"); if(R->nfork) { int k,ok=0; for(k=0;k<R->nfork;k++) ok|=R->forks[k].by==R->opid&&R->forks[k].child==R->pid; VH_CHECK(ok,"not-child","daemonize returned in a process that is not a child of the calling one"); VH_COUNT("parents checked",1); } VH_CHECK(R->sid!=R->osid&&R->sid!=getsid(0),"session","the daemon is still in the session of the caller"); VH_CHECK(R->sid==R->pid||R->sid!=R->opid,"session","session of another process");
	for(int i=0;i<3;i++) { VH_CHECK(R->std[i],"std","descriptor %d of the daemon is not open on the null device",i); VH_CHECK(R->acc[i]==O_RDWR||R->acc[i]==(i?O_WRONLY:O_RDONLY),"std-mode","descriptor %d has access mode %d",i,R->acc[i]); } VH_CHECK(R->rd==0&&R->wr==2,"std-io","reading %d, writing %d",R->rd,R->wr);
	VH_CHECK(R->nopen==0,"open","the daemon has %d other descriptors open, e.g. %d (limit %lu)",R->nopen,R->other[0],(unsigned long)lim);
	VH_COUNT("daemons observed",1); if(lim>=4096) VH_COUNT("limits of 4096 and more",1); if(lead) VH_COUNT("session leader before",1);
	for(int k=0;k<100000;k++) { w=waitpid(-1,&ws,0); if(w<0&&errno==ECHILD) break; } vh_seen(sig); vh_sample("limit %lu",(unsigned long)lim);
}
/* standard descriptors closed beforehand, small fixed sets: enumerated */
static void stdfds(u64 idx) {
	memset((void*)R,0,sizeof*R); failfork=0; int mask=idx%8,extra=(idx/8)%8; pid_t c=__real_fork(); if(c<0) vh_internal("fork");
	if(!c) { int i,z=open("/dev/zero",O_RDONLY); z=fcntl(z,F_DUPFD,200); for(i=3;i<100;i++) close(i); for(i=0;i<3;i++) if(mask>>i&1) close(i); for(i=0;i<3;i++) if(extra>>i&1) dup2(z,3+i); close(z); daemonize(); struct stat s; for(i=0;i<3;i++) R->std[i]=!fstat(i,&s)&&S_ISCHR(s.st_mode)&&s.st_rdev==makedev(1,3); for(i=3;i<1024;i++) if(fcntl(i,F_GETFD)!=-1) { R->other[0]=i; R->nopen++; } __sync_synchronize(); R->done=1; _exit(42); }
	int ws; waitpid(c,&ws,0); VH_CHECK(WIFEXITED(ws)&&WEXITSTATUS(ws)==0,"caller-status","the calling process ends with %x",ws); struct timespec t={0,200000}; for(int k=0;!R->done;k++) { nanosleep(&t,0); if(k>100000) vh_fail("no-daemon","daemonize did not return in the child"); } for(int i=0;i<3;i++) VH_CHECK(R->std[i],"std","descriptor %d not on the null device (closed before: %d)",i,mask); VH_CHECK(!R->nopen,"open","descriptor %d left open",R->other[0]); if(mask) VH_COUNT("standard descriptors closed before",1); while(waitpid(-1,&ws,0)>0); vh_seen(idx%64);
}
const vh_mode vh_modes[]={{"daemon",daemonrun,1200,20000},{"std",stdfds,128,256},{0}};
