/* C24: process_open/process_close: conversations with real children (this binary, re-executed),
 * descriptor census in parent and children, signals during close, injected failures */
#include "vh.h"
#include "proclib.h"
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
const char *const vh_rule="histories of up to 6 simultaneously open children (this binary re-executed: reports its arguments and open descriptors, echoes its input on both outputs, exits with a given code) with random arguments, volumes (0..300 KB), read/write orders, early end of input, closing orders, interval signals, and failures of each system call or of the descriptor limit; distinct = hash of the operation history";
const char *const vh_required[]={"failed starts beyond descriptor 255","processes run","argument vectors checked","descriptor tables checked","bytes echoed","large volumes","several open at once","closed out of order","end of file seen by child","exit codes compared","close during running child","close under signals","start of missing program","descriptor limit hit","output before exit","descriptors beyond 255","environments replaced","programs found in the search path","close of a child that is stopped meanwhile",0};
int __real_pipe2(int*,int); int __real_pipe(int*); int __real_posix_spawnp(pid_t*,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char*const[],char*const[]); int __real_posix_spawn(pid_t*,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char*const[],char*const[]); int __real_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t*,int,int); int __real_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t*,int); pid_t __real_fork(void); pid_t __real_waitpid(pid_t,int*,int);
static struct { u64 at,n; int err,fired; const char*what; } F;
static int inj(const char*w) { if(F.at&&++F.n==F.at) { F.fired=1; F.what=w; VH_COUNT("system call failures injected",1); return 1; } return 0; }
int __wrap_pipe2(int*p,int f) { if(inj("pipe2")) { errno=F.err; return -1; } return __real_pipe2(p,f); }
int __wrap_pipe(int*p) { if(inj("pipe")) { errno=F.err; return -1; } return __real_pipe(p); }
int __wrap_posix_spawnp(pid_t*a,const char*b,const posix_spawn_file_actions_t*c,const posix_spawnattr_t*d,char*const e[],char*const f[]) { if(inj("posix_spawnp")) return F.err; return __real_posix_spawnp(a,b,c,d,e,f); }
int __wrap_posix_spawn(pid_t*a,const char*b,const posix_spawn_file_actions_t*c,const posix_spawnattr_t*d,char*const e[],char*const f[]) { if(inj("posix_spawn")) return F.err; return __real_posix_spawn(a,b,c,d,e,f); }
int __wrap_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t*a,int b,int c) { if(inj("adddup2")) return ENOMEM; return __real_posix_spawn_file_actions_adddup2(a,b,c); }
int __wrap_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t*a,int b) { if(inj("addclose")) return ENOMEM; return __real_posix_spawn_file_actions_addclose(a,b); }
pid_t __wrap_fork(void) { if(inj("fork")) { errno=F.err; return -1; } return __real_fork(); }
static int eintr; pid_t __wrap_waitpid(pid_t p,int*s,int o) { if(eintr>0) { eintr--; VH_COUNT("waits interrupted",1); errno=EINTR; return -1; } return __real_waitpid(p,s,o); }

/* ---------------- the child ---------------- */
static void wall(int fd,const void*d,size_t n) { const char*p=d; while(n) { ssize_t k=write(fd,p,n); if(k<0) { if(errno==EINTR) continue; _exit(120); } p+=k; n-=k; } }
static void w32(int fd,u32 v) { wall(fd,&v,4); }
static u8 gen(u64 i,u32 s) { u64 x=(i+1)*0x9e3779b97f4a7c15ull+s; return x>>40; }
__attribute__((constructor)) static void child(int argc,char**argv) {
	if(argc<5||strcmp(argv[1],"--c24-child")) return;
	int code=atoi(argv[2]); const char*mode=argv[3]; unsigned long vol=strtoul(argv[4],0,10); int i; char b[8192];
	if(mode[0]=='q') _exit(code); /* quick end without any output */
	bs r={0}; u32 v=argc; bs_put(&r,&v,4); for(i=0;i<argc;i++) { v=strlen(argv[i]); bs_put(&r,&v,4); bs_put(&r,argv[i],v); }
	const char*ev=getenv("C24_ENV"); v=ev?strlen(ev):0xffff; bs_put(&r,&v,4); if(ev) bs_put(&r,ev,v);
	u32 fds[256]; u32 nf=0; for(i=0;i<256;i++) if(fcntl(i,F_GETFD)!=-1) fds[nf++]=i; bs_put(&r,&nf,4); for(u32 j=0;j<nf;j++) { struct stat st; fstat(fds[j],&st); u64 q[2]={st.st_dev,st.st_ino}; bs_put(&r,&fds[j],4); bs_put(&r,q,16); }
	v=r.n; wall(1,&v,4); wall(1,r.d,r.n);
	if(mode[0]=='e') { /* echo until end of input */ ssize_t k; u64 seen=0; while((k=read(0,b,sizeof b))!=0) { if(k<0) { if(errno==EINTR) continue; _exit(121); } wall(1,b,k); for(i=0;i<k;i++) b[i]^=0x55; wall(2,b,k); seen+=k; } wall(2,"EOF!",4); }
	else if(mode[0]=='o') { /* output only */ for(u64 j=0;j<vol;) { size_t k=sizeof b<vol-j?sizeof b:vol-j; for(size_t q=0;q<k;q++) b[q]=gen(j+q,code); wall(1,b,k); for(size_t q=0;q<k;q++) b[q]^=0x55; wall(2,b,k); j+=k; } }
	else if(mode[0]=='t') { /* drain the input, be stopped for a while, go on */ ssize_t k; while((k=read(0,b,sizeof b))!=0) if(k<0&&errno!=EINTR) break; pid_t me=getpid(),h=fork(); if(!h) { struct timespec t={0,2000000+vol*300000}; for(i=0;i<20;i++) { nanosleep(&t,0); if(getppid()!=me) break; kill(me,SIGCONT); } _exit(0); } raise(SIGSTOP); }
	else if(mode[0]=='s') { /* drain the input, then take a while to end */ ssize_t k; while((k=read(0,b,sizeof b))!=0) if(k<0&&errno!=EINTR) break; struct timespec t={0,vol*1000000}; nanosleep(&t,0); }
	_exit(code);
}
/* ---------------- parent ---------------- */
static char exe[600],bare[600],envv[64]; static unsigned char base[128]; static void onsig(int s) { (void)s; }
void vh_setup(void) { ssize_t k=readlink("/proc/self/exe",exe,599); if(k<=0) vh_internal("exe"); exe[k]=0; char*sl=strrchr(exe,'/'); snprintf(bare,sizeof bare,"%s",sl+1); static char pb[3000]; snprintf(pb,sizeof pb,"/nonexistent:%.*s:%s",(int)(sl-exe),exe,getenv("PATH")?getenv("PATH"):"/bin"); setenv("PATH",pb,1); struct sigaction sa={.sa_handler=onsig}; sigaction(SIGALRM,&sa,0); sigaction(SIGPIPE,&sa,0); }
typedef struct { struct process p; int open,mode,code; bs in,out,err; size_t sent,vol; int inclosed,oeof,eeof,reported; char*argv[16]; int argc; u64 ino[3]; char env[64]; } P;
static P*T[8]; static u64 hist;
static u64 finode(int fd) { struct stat st; if(fstat(fd,&st)) return 0; return st.st_ino; }
static void expect_ok(P*q); static void drain(P*q,int want);
/* the whole environment replaced by another array; the old one is stale */
static void newenv(void) { extern char**environ; static char*stale="C24_ENV=stale",*mine[2][700]; static int w; size_t n=0,i; char**o=environ; while(o[n]) n++; if(n>690) return; w^=1; for(i=0;i<=n;i++) mine[w][i]=o[i]; environ=mine[w]; if(o==mine[!w]) for(i=0;i<n;i++) if(!strncmp(o[i],"C24_ENV=",8)) o[i]=stale; VH_COUNT("environments replaced",1); }
static P*start(const char*prog,int mode) {
	P*q=xcalloc(1,sizeof*q); int i; char b[300]; q->mode=mode; q->code=vh_chance(1,4)?(int[]){0,255,128,1}[vh_below(4)]:(int)vh_below(256); q->vol=mode=='s'||mode=='t'?vh_below(6):mode=='o'&&vh_chance(1,4)?150000+vh_below(150000):vh_chance(1,8)?vh_size(300000):vh_size(3000);
	if(prog==exe&&vh_chance(1,4)) { prog=bare; VH_COUNT("programs found in the search path",1); } if(vh_chance(1,2)) snprintf(envv,sizeof envv,"v%llx",(unsigned long long)vh_rnd()); if(vh_chance(1,3)) newenv(); setenv("C24_ENV",envv,1); snprintf(q->env,sizeof q->env,"%s",envv);
	q->argv[q->argc++]=vh_gstr(prog); q->argv[q->argc++]=vh_gstr("--c24-child"); sprintf(b,"%d",q->code); q->argv[q->argc++]=vh_gstr(b); sprintf(b,"%c",mode); q->argv[q->argc++]=vh_gstr(b); sprintf(b,"%zu",q->vol); q->argv[q->argc++]=vh_gstr(b);
	int ex=vh_below(6); for(i=0;i<ex;i++) { size_t n=vh_below(vh_chance(1,6)?250:10); vh_bytes(b,n); for(size_t j=0;j<n;j++) if(!b[j]) b[j]=' '; b[n]=0; q->argv[q->argc++]=vh_gstr(b); }
	char**av=vh_gbuf((q->argc+1)*sizeof*av); memcpy(av,q->argv,q->argc*sizeof*av); av[q->argc]=0; memset(&q->p,0x5a,sizeof q->p);
	hist=vh_hashu(mode,vh_hashu(q->argc,vh_hashu(q->vol,hist))); errno=0; int r=process_open(&q->p,av); int e=errno; VH_TRACE("open %s %c argc %d vol %zu: %d",prog==exe||prog==bare?"self":prog,mode,q->argc,q->vol,r);
	VH_CHECK(r==0||r==-1,"open-result","process_open returned %d",r); vh_gfree(av);
	if(r==0) { q->open=1; for(i=0;i<3;i++) { VH_CHECK(q->p.fds[i]>2&&fcntl(q->p.fds[i],F_GETFD)!=-1,"fds","fds[%d]=%d is not open",i,q->p.fds[i]); q->ino[i]=finode(q->p.fds[i]); } bs_put(&q->in,"",0); if(mode=='e') for(size_t j=0;j<q->vol;j++) bs_putc(&q->in,gen(j,q->code)); return q; }
	VH_CHECK(e!=0,"errno","failed without setting errno"); for(i=0;i<q->argc;i++) vh_gfree(q->argv[i]); xfree(q); errno=e; return 0;
}
/* parse and judge the report at the head of the child's output */
static void report(P*q) {
	if(q->reported||q->mode=='q'||q->out.n<4) return; u32 l; memcpy(&l,q->out.d,4); VH_CHECK(l<100000,"report","child output does not start with its report"); if(q->out.n<4+l) return; u8*d=q->out.d+4,*e=d+l; u32 v,i; memcpy(&v,d,4); d+=4; VH_CHECK((int)v==q->argc,"argv","child got %u arguments, expected %d",v,q->argc);
	for(i=0;i<(u32)q->argc;i++) { memcpy(&v,d,4); d+=4; VH_CHECK(v==strlen(q->argv[i])&&!memcmp(d,q->argv[i],v),"argv","child's argument %u is %s, expected %s",i,vh_esc(d,v>80?80:v),vh_esc(q->argv[i],strlen(q->argv[i]))); d+=v; } VH_COUNT("argument vectors checked",1); memcpy(&v,d,4); d+=4; VH_CHECK(v==strlen(q->env)&&!memcmp(d,q->env,v),"environment","the child does not have the environment of its start"); d+=v;
	memcpy(&v,d,4); d+=4; int have=0; for(i=0;i<v;i++) { u32 fd; u64 id[2]; memcpy(&fd,d,4); memcpy(id,d+4,16); d+=20; if(fd<3) { have++; VH_CHECK(id[1]==q->ino[fd],"wiring","descriptor %u of the child is not the other end of fds[%u]",fd,fd); } else VH_CHECK(fd<1024&&(base[fd/8]>>(fd%8)&1),"child-fd","the child has descriptor %u open",fd); } VH_CHECK(have==3,"child-std","the child has %d standard descriptors",have); if(d!=e) vh_internal("report"); VH_COUNT("descriptor tables checked",1);
	memmove(q->out.d,q->out.d+4+l,q->out.n-4-l); q->out.n-=4+l; q->reported=1;
}
static void check_data(P*q,int full) {
	size_t i,lim; report(q); if(!q->reported) { VH_CHECK(!full||q->mode=='q',"output-lost","child's report did not arrive: %zu bytes",q->out.n); return; }
	lim=q->mode=='e'?q->sent:q->mode=='o'?q->vol:0; VH_CHECK(q->out.n<=lim,"output-extra","%zu bytes of output, at most %zu expected",q->out.n,lim); for(i=0;i<q->out.n;i++) if(q->out.d[i]!=gen(i,q->code)) vh_fail("output","output byte %zu of %zu is wrong",i,q->out.n);
	size_t tail=q->err.n>lim?q->err.n-lim:0; for(i=0;i<q->err.n-tail;i++) if(q->err.d[i]!=(gen(i,q->code)^0x55)) vh_fail("error-output","error output byte %zu of %zu is wrong",i,q->err.n); VH_CHECK(tail==0||(q->mode=='e'&&q->inclosed&&tail<=4&&!memcmp(q->err.d+lim,"EOF!",tail)),"error-extra","error output has %zu extra bytes",tail);
	if(full) { VH_CHECK(q->out.n==lim,"output-lost","%zu of %zu bytes arrived",q->out.n,lim); VH_CHECK(q->err.n==lim+(q->mode=='e'?4:0),"error-lost","%zu bytes of error output, %zu expected",q->err.n,lim); if(q->mode=='e') { VH_COUNT("end of file seen by child",1); VH_COUNT("bytes echoed",lim); if(lim>100000) VH_COUNT("large volumes",1); } if(q->mode=='o') VH_COUNT("output before exit",1); }
}
/* one exchange step: write some input / read what is there; block=1: wait for something */
static void step(P*q,int block,int dowrite) {
	struct pollfd pf[3]; int n=0,wi=-1,oi=-1,ei=-1; static char b[65536]; if(dowrite&&!q->inclosed&&q->sent<q->in.n) { pf[n]=(struct pollfd){q->p.fds[0],POLLOUT,0}; wi=n++; } if(!q->oeof) { pf[n]=(struct pollfd){q->p.fds[1],POLLIN,0}; oi=n++; } if(!q->eeof) { pf[n]=(struct pollfd){q->p.fds[2],POLLIN,0}; ei=n++; }
	if(!n) return; int r=poll(pf,n,block?20000:0); if(r<0) return; vh_tick(); VH_CHECK(r||!block,"stuck","child neither reads nor writes nor ends (input %s, %zu of %zu sent)",q->inclosed?"closed":"open",q->sent,q->in.n);
	if(wi>=0&&pf[wi].revents&POLLOUT) { size_t k=q->in.n-q->sent,m=1+vh_below(4096); if(k>m) k=m; ssize_t w=write(q->p.fds[0],q->in.d+q->sent,k); if(w>0) q->sent+=w; else if(w<0&&errno!=EINTR) vh_fail("write","writing to the child failed: %s",strerror(errno)); }
	if(oi>=0&&pf[oi].revents) { ssize_t k=read(q->p.fds[1],b,1+vh_below(sizeof b)); if(k>0) bs_put(&q->out,b,k); else if(k==0) q->oeof=1; }
	if(ei>=0&&pf[ei].revents) { ssize_t k=read(q->p.fds[2],b,1+vh_below(sizeof b)); if(k>0) bs_put(&q->err,b,k); else if(k==0) q->eeof=1; }
	check_data(q,0);
}
static void closein(P*q) { if(q->inclosed) return; close(q->p.fds[0]); q->p.fds[0]=-1; q->inclosed=1; }
static void finish(P*q,int how) { /* how: 0 orderly, 1 while running */
	int i; pid_t pid=q->p.pid; if(q->mode=='s'||q->mode=='q'||q->mode=='t') how=1; if(q->mode=='t') VH_COUNT("close of a child that is stopped meanwhile",1); if(how==0) { if(q->mode=='e') { while(q->sent<q->in.n) step(q,1,1); closein(q); } while(!q->oeof||!q->eeof) step(q,1,0); check_data(q,1); } else { if(q->mode!='q'&&!q->reported) while(!q->reported&&!q->oeof) step(q,1,0); VH_COUNT("close during running child",1); if(q->mode=='o'&&q->vol>150000) VH_COUNT("close while the child is blocked writing",1); }
	int defined=how==0||q->mode=='s'||q->mode=='t'||q->mode=='q'; int sig=vh_chance(1,3); if(sig) { struct itimerval it={{0,300},{0,200+vh_below(800)}}; setitimer(ITIMER_REAL,&it,0); VH_COUNT("close under signals",1); } if(vh_chance(1,4)) eintr=vh_chance(1,6)?vh_below(3000):1+vh_below(3);
	hist=vh_hashu(how,hist); int rc=process_close(&q->p); eintr=0; if(sig) { struct itimerval z={{0,0},{0,0}}; setitimer(ITIMER_REAL,&z,0); }
	VH_TRACE("close %c: %d, expected %d%s",q->mode,rc,q->code,defined?"":" (may be cut off)"); if(defined) { VH_CHECK(rc==q->code,"exit-code","process_close returned %d, the child exited with %d",rc,q->code); VH_COUNT("exit codes compared",1); }
	errno=0; int st; pid_t w=__real_waitpid(pid,&st,WNOHANG); VH_CHECK(w==-1&&errno==ECHILD,"zombie",w==0?"the child still runs after process_close":"the child was not reaped by process_close");
	if(kill(pid,0)==0) VH_COUNT("pid reused",1); VH_COUNT("processes run",1); for(i=0;i<q->argc;i++) vh_gfree(q->argv[i]); bs_free(&q->in); bs_free(&q->out); bs_free(&q->err); xfree(q);
}
static void census(int open3,const char*when) { unsigned char s[128]; vh_fdset(s); int extra=0; for(int i=0;i<1024;i++) { int o=s[i/8]>>(i%8)&1,b=base[i/8]>>(i%8)&1; if(b&&!o) vh_fail("fd-lost","descriptor %d was closed %s",i,when); extra+=o&&!b; } VH_CHECK(extra==open3,"fd-leak","%d descriptors open %s, expected %d",extra,when,open3); }
static int want3(void) { int n=0; for(int i=0;i<8;i++) if(T[i]) n+=3-T[i]->inclosed; return n; }
static void nochild(void) { int n=0; for(int i=0;i<8;i++) n+=!!T[i]; if(!n) { int st; errno=0; VH_CHECK(__real_waitpid(-1,&st,WNOHANG)==-1&&errno==ECHILD,"stray-child","a child process is left"); } }
static char modech(void) { return vh_chance(1,30)?'t':"eeeeosqe"[vh_below(8)]; }
static int many[960],nmany; static void crowd(void) { int k=vh_chance(1,2)?246+vh_below(12):500+vh_below(400),fd; nmany=0; while(nmany<k&&(fd=fcntl(0,vh_chance(1,12)?F_DUPFD:F_DUPFD_CLOEXEC,3))>=0&&fd<960) many[nmany++]=fd; } static void uncrowd(void) { while(nmany) close(many[--nmany]); }
static void session(u64 idx) {
	if(vh_chance(1,16)) { crowd(); VH_COUNT("descriptors beyond 255",1); }
	memset(T,0,sizeof T); memset(&F,0,sizeof F); hist=7; vh_fdset(base); int ops=3+vh_below(14),live=0,opened=0,i,order=0; int maxl=1+vh_below(6);
	for(int k=0;k<ops||live;k++) { vh_tick(); int a=vh_below(8); if(k>=ops) a=7; hist=vh_hashu(a,hist);
		if((a<3||!live)&&k<ops) { if(live>=maxl) continue; for(i=0;T[i];i++); T[i]=start(exe,modech()); VH_CHECK(T[i],"open-fails","starting the child failed: %s",strerror(errno)); live++; opened++; if(live>1) VH_COUNT("several open at once",1); census(want3(),"after a start"); continue; }
		do i=vh_below(8); while(!T[i]);
		if(a<6) { int n=1+vh_below(4); while(n--) step(T[i],0,T[i]->mode=='e'); }
		else if(a==6) { if(T[i]->mode=='e') { T[i]->in.n=T[i]->sent; closein(T[i]); } }
		else { P*q=T[i]; if(live>1&&i!=live-1) { order=1; } T[i]=0; finish(q,vh_chance(1,4)?1:0); live--; census(want3(),"after a close"); nochild(); } }
	if(order) VH_COUNT("closed out of order",1); uncrowd(); vh_seen(hist); vh_sample("%d children in %d operations",opened,ops);
}
static void faults(u64 idx) {
	if(vh_chance(1,8)) { crowd(); VH_COUNT("failed starts beyond descriptor 255",1); }
	memset(T,0,sizeof T); hist=9; vh_fdset(base); int other=vh_below(3),i; memset(&F,0,sizeof F); for(i=0;i<other;i++) { T[i]=start(exe,'e'); VH_CHECK(T[i],"open-fails","starting the child failed: %s",strerror(errno)); } int before=vh_fdcount(); const char*prog=exe; int kind=vh_below(3); P*q; struct rlimit rl,nl;
	if(kind==0) { prog=(const char*[]){"/nonexistent/prog","no-such-program-xyz","/","/etc/passwd",""}[vh_below(5)]; q=start(prog,'e'); VH_CHECK(!q,"missing-started","starting %s is reported as success",prog); VH_COUNT("start of missing program",1); }
	else if(kind==1) { getrlimit(RLIMIT_NOFILE,&rl); nl=rl; int lo=0; unsigned char s[128]; vh_fdset(s); int room=vh_below(6); for(i=0,lo=0;i<1024;i++) { if(!(s[i/8]>>(i%8)&1)) { if(room--==0) break; } lo=i+1; } nl.rlim_cur=lo; setrlimit(RLIMIT_NOFILE,&nl); q=start(exe,'e'); int e=errno; setrlimit(RLIMIT_NOFILE,&rl); VH_CHECK(!q,"limit-started","started although descriptors ran out"); VH_CHECK(e==EMFILE,"limit-errno","errno is %d, expected EMFILE",e); VH_COUNT("descriptor limit hit",1); hist=vh_hashu(lo,hist); }
	else { F.at=1+vh_below(20); F.n=0; F.fired=0; F.err=(int[]){EMFILE,ENFILE,EAGAIN,ENOMEM}[vh_below(4)]; q=start(exe,'e'); int e=errno; u64 at=F.at; F.at=0; hist=vh_hashu(at,hist); VH_CHECK(q||F.fired,"open-fails","start failed: %s",strerror(e)); if(!q) VH_CHECK(e==F.err||e==ENOMEM,"errno","%s failed with %d, errno is %d",F.what,F.err,e); }
	VH_TRACE("kind %d: %s",kind,q?"started":"failed"); if(q) { finish(q,0); } int after=vh_fdcount(); VH_CHECK(after==before,"fd-leak","%d descriptors left by a failed start (%s)",after-before,F.fired?F.what:prog);
	for(i=0;i<other;i++) { q=T[i]; T[i]=0; finish(q,0); } census(0,"at the end"); nochild(); uncrowd(); vh_seen(hist);
}
const vh_mode vh_modes[]={{"session",session,2500,60000},{"faults",faults,1500,30000},{0}};
