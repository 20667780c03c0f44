/* C26: mktempdir/ulz_mkdtemp: scripted random numbers, pre-existing names, injected mkdir failures and
 * delays, concurrent processes. Paths under /dev/shm/ and /tmp/ are redirected into the scratch directory. */
#include "vh.h"
#include "filelib.h"
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
const char *const vh_rule="single calls with scripted random numbers that run into pre-existing names (directories, files, dangling links), injected mkdir failures, all buffer sizes around the needed one, prefixes of 0..250 bytes, several umasks; and groups of 2..5 processes with identical random sequences over a name space of few names racing with injected delays; every mkdir is traced; distinct = hash of the call parameters or of the order in which names went to processes";
const char *const vh_required[]={"directories created","creation failure reported","buffer too small","buffer exactly large enough","template too short","umask 0","concurrent creations","hundreds of names taken",0};
static struct { int on; u64 seed; unsigned mod; u64 n; u64 taken; u64 fail_at; int err; u64 nmk,nok,nexist; int shmfail; int delay; int badmode; char last[1200]; } I;
static char S[600]; int __real_mkdir(const char*,mode_t); int __real_rand(void); int __real_access(const char*,int); int __real_stat(const char*,struct stat*); int __real_lstat(const char*,struct stat*); int __real_rmdir(const char*);
static const char*redir(const char*p,char*b) { size_t sl=strlen(S); if(!strncmp(p,S,sl)) return p; if(!strncmp(p,"/dev/shm/",9)) { snprintf(b,1200,"%s/shm/%s",S,p+9); return b; } if(!strncmp(p,"/tmp/",5)) { snprintf(b,1200,"%s/tmp/%s",S,p+5); return b; } return p; }
static void delay(void) { if(!I.delay) return; unsigned r=(unsigned)(vh_rnd()%8); if(r<3) sched_yield(); else if(r<5) usleep(r*20); }
int __wrap_rand(void) { if(!I.on) return __real_rand(); u64 x=(I.n++/6+1)*0x9e3779b97f4a7c15ull+I.seed; x^=x>>29; x*=0xbf58476d1ce4e5b9ull; x^=x>>(32-(I.n%6)*3); if(I.n>600000) vh_fail("endless","gives up never: %llu random numbers used",(unsigned long long)I.n); return (int)(I.mod?(x&0xffffff)%I.mod:x&0x7fffffff); }
int __wrap_mkdir(const char*p,mode_t m) { char b[1200]; if(!I.on) return __real_mkdir(p,m); vh_tick(); I.nmk++; snprintf(I.last,sizeof I.last,"%s",p); if(I.nmk==I.fail_at||(I.shmfail&&!strncmp(p,"/dev/shm/",9))) { VH_COUNT("mkdir failures injected",1); errno=I.err; return -1; } if(I.taken&&I.nmk<=I.taken) { I.nexist++; errno=EEXIST; return -1; } delay(); const char*q=redir(p,b); int r=__real_mkdir(q,m),e=errno; if(!r) { I.nok++; struct stat st; if(!__real_stat(q,&st)&&(st.st_mode&077)) I.badmode=st.st_mode; } else if(e==EEXIST) { I.nexist++; VH_COUNT("names already taken",1); } delay(); errno=e; return r; }
int __real_mkdirat(int,const char*,mode_t); int __wrap_mkdirat(int d,const char*p,mode_t m) { return I.on&&(d==AT_FDCWD||*p=='/')?__wrap_mkdir(p,m):__real_mkdirat(d,p,m); }
long __wrap_random(void) { return __wrap_rand(); }
int __wrap_rand_r(unsigned*s) { (void)s; return __wrap_rand(); }
long __wrap_lrand48(void) { return __wrap_rand(); }
int __wrap_access(const char*p,int m) { char b[1200]; if(!I.on) return __real_access(p,m); int r=__real_access(redir(p,b),m),e=errno; delay(); errno=e; return r; }
int __wrap_stat(const char*p,struct stat*s) { char b[1200]; if(!I.on) return __real_stat(p,s); int r=__real_stat(redir(p,b),s),e=errno; delay(); errno=e; return r; }
int __wrap_lstat(const char*p,struct stat*s) { char b[1200]; if(!I.on) return __real_lstat(p,s); int r=__real_lstat(redir(p,b),s),e=errno; delay(); errno=e; return r; }
int __wrap_rmdir(const char*p) { char b[1200]; if(!I.on) return __real_rmdir(p); return __real_rmdir(redir(p,b)); }
static void rmtree(const char*p) { DIR*d=opendir(p); struct dirent*e; char b[2000]; if(!d) { unlink(p); return; } while((e=readdir(d))) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")) { snprintf(b,sizeof b,"%s/%s",p,e->d_name); struct stat st; if(!__real_lstat(b,&st)&&S_ISDIR(st.st_mode)) rmtree(b); else unlink(b); } closedir(d); __real_rmdir(p); }
static void fresh(void) { char b[700]; const char*n[]={"shm","tmp","w"}; for(int i=0;i<3;i++) { snprintf(b,700,"%s/%s",S,n[i]); rmtree(b); __real_mkdir(b,0755); } }
void vh_setup(void) { snprintf(S,600,"%s",vh_scratch()); }
static u64 census(void) { u64 h=0; const char*n[]={"shm","tmp","w"}; char b[1500]; struct dirent*e; for(int i=0;i<3;i++) { snprintf(b,700,"%s/%s",S,n[i]); DIR*d=opendir(b); while((e=readdir(d))) h++; closedir(d); } return h; }
static const char A[]="abcXY-_.z09 ";
static void one(u64 idx) {
	fresh(); memset(&I,0,sizeof I); int api=vh_below(2); char pre[300]; size_t pl=vh_chance(1,10)?100+vh_below(140):vh_below(20),i; vh_text(pre,pl,A,sizeof A-1); if(pl>2&&vh_chance(1,30)) { pre[0]='q'; pre[pl/2]='/'; } pre[pl]=0; I.seed=vh_rnd(); I.mod=vh_chance(1,2)?2:vh_chance(1,2)?2+vh_below(4):0; u64 sig=vh_hash(pre,pl,vh_hashu(I.seed,api));
	int um=(int[]){0,022,077,027}[vh_below(4)]; mode_t oum=umask(um); if(!um) VH_COUNT("umask 0",1); char dir[800]; snprintf(dir,800,"%s/w/",S); char real[2000];
	if(api==0) { /* template */
		char t[1500]; int shorty=vh_chance(1,12); size_t l; if(shorty) { l=vh_below(6); memset(t,'X',l); t[l]=0; } else { l=snprintf(t,1500,"%s%s%s",dir,pre,vh_chance(3,4)?"XXXXXX":"abcdef"); } char*g=vh_gdup(t,l+1); int kind=vh_below(4); u64 pren=0;
		if(!shorty&&kind&&I.mod&&!strchr(pre,'/')) { /* learn the first names the call would try, and put something there */ struct { u64 n; } keep={I.n}; I.on=1; I.fail_at=1; I.err=EIO; I.nmk=0; char*g2=vh_gdup(t,l+1); VH_CHECK(!ulz_mkdtemp(g2),"false-success","success although mkdir failed"); I.on=0; snprintf(real,2000,"%s",I.last); vh_gfree(g2); I.n=keep.n; I.fail_at=0; if(!strncmp(real,dir,strlen(dir))) { if(kind==1) __real_mkdir(real,0777); else if(kind==2) close(open(real,O_CREAT|O_WRONLY,0600)); else if(symlink("nowhere",real)) {} pren=1; if(kind>1) VH_COUNT("other kinds of files in the way",1); } }
		I.nmk=I.nok=I.nexist=0; if(!pren&&!shorty&&vh_chance(1,5)) { I.fail_at=1; I.err=(int[]){ENOSPC,EACCES,EROFS,ENOENT,EDQUOT}[vh_below(5)]; } else if(!pren&&!shorty&&vh_chance(1,12)) { I.taken=1+vh_below(vh_chance(1,2)?40:3000); if(I.taken>200) VH_COUNT("hundreds of names taken",1); } u64 before=census(); I.on=1; errno=0; char*r=ulz_mkdtemp(g); int e=errno; I.on=0; VH_TRACE("mkdtemp(%s) -> %s, %llu mkdirs, %llu taken",t,r?r:"NULL",(unsigned long long)I.nmk,(unsigned long long)I.nexist);
		if(shorty) { VH_CHECK(!r&&e==EINVAL,"short","template of %zu characters: %s, errno %d",l,r?"accepted":"refused",e); VH_CHECK(!strcmp(g,t),"short-modified","short template modified"); VH_CHECK(I.nmk==0,"short-created","mkdir called for a short template"); VH_COUNT("template too short",1); }
		else if(I.fail_at||strchr(pre,'/')) { VH_CHECK(!r,"failure-missed","creation fails, but %s is returned",r?r:""); VH_CHECK(!I.fail_at||e==I.err,"failure-errno","errno is %d, expected %d",e,I.err); VH_CHECK(census()==before,"left-behind","a failed call leaves a directory"); VH_COUNT("creation failure reported",1); }
		else { VH_CHECK(r==g,"result","returns %s",r?r:"NULL"); VH_CHECK(strlen(g)==l&&!memcmp(g,t,l-6)&&!strchr(g+l-6,'/'),"name","%s does not follow the template %s",g,t); struct stat st; VH_CHECK(!__real_lstat(g,&st)&&S_ISDIR(st.st_mode),"no-dir","%s is not a directory",g); VH_CHECK((st.st_mode&0777)==0700,"mode","mode is %o",st.st_mode&0777); VH_CHECK(!I.badmode,"mode","created with mode %o",I.badmode); VH_CHECK(!pren||strcmp(g,real),"not-fresh","%s existed before",g); VH_CHECK(census()==before+1,"count","%lld new entries",(long long)(census()-before)); VH_COUNT("directories created",1); }
		vh_gfree(g); }
	else {
		size_t need=9+pl+7,bz; int small=vh_chance(1,4); bz=small?vh_below(need):vh_chance(1,2)?need:need+vh_below(40); char*g=vh_gbuf(bz); char*gp=vh_gdup(pre,pl+1); if(vh_chance(1,3)) { I.shmfail=1; I.err=(int[]){ENOSPC,EACCES,ENOENT,EROFS,ENOTDIR}[vh_below(5)]; } else if(vh_chance(1,4)) { I.fail_at=1+vh_below(2); I.err=EACCES; } int bothfail=I.shmfail&&vh_chance(1,3); char tb[700],tb2[700]; snprintf(tb,700,"%s/tmp",S); snprintf(tb2,700,"%s/tmp_",S); if(bothfail) __real_rmdir(tb); 
		if(I.mod&&!bothfail&&vh_chance(1,2)) { /* occupy some of the few possible names */ for(i=0;i<6;i++) { char*q=xmalloc(400); snprintf(q,400,"/dev/shm/%sXXXXXX",pre); int sf=I.shmfail; I.shmfail=0; u64 fa=I.fail_at; I.fail_at=0; I.on=1; ulz_mkdtemp(q); I.on=0; I.shmfail=sf; I.fail_at=fa; xfree(q); } I.n=0; I.nmk=0; }
		if(!I.fail_at&&!I.shmfail&&vh_chance(1,12)) { I.taken=1+vh_below(vh_chance(1,2)?40:3000); if(I.taken>200) VH_COUNT("hundreds of names taken",1); } u64 before=bothfail?0:census(); I.nok=I.nexist=0; I.on=1; size_t r=mktempdir(gp,g,bz); I.on=0; VH_TRACE("mktempdir(%s,%zu of %zu) -> %zu, %llu mkdirs ok %llu taken %llu",pre,bz,need,r,(unsigned long long)I.nmk,(unsigned long long)I.nok,(unsigned long long)I.nexist);
		if(small) { VH_CHECK(r==0,"small","buffer of %zu bytes, %zu needed, but %zu returned",bz,need,r); VH_CHECK(I.nok==0,"small-created","buffer too small, but a directory was created"); VH_COUNT("buffer too small",1); }
		else if(bothfail||strchr(pre,'/')) { VH_CHECK(r==0,"failure-missed","both places fail, but %zu is returned",r); VH_COUNT("creation failure reported",1); }
		else { VH_CHECK(r,"fails","no directory although one can be created"); VH_CHECK(memchr(g,0,bz)&&strlen(g)==r,"length","returns %zu, the name has %zu characters",r,strnlen(g,bz)); const char*b=g; size_t bl=0; if(!strncmp(g,"/dev/shm/",9)) bl=9; else if(!strncmp(g,"/tmp/",5)) { bl=5; VH_COUNT("created in /tmp",1); } VH_CHECK(bl,"place","created in %s",g); b+=bl; VH_CHECK(r==bl+pl+6&&!memcmp(b,pre,pl)&&!strchr(b+pl,'/'),"name","%s has not the prefix %s and six more characters",g,pre);
			char rb[1200]; const char*q=redir(g,rb); struct stat st; int out=0; if(__real_lstat(q,&st)) { out=1; q=g; VH_CHECK(!__real_lstat(q,&st),"no-dir","%s was not created",g); } VH_CHECK(S_ISDIR(st.st_mode)&&(st.st_mode&0777)==0700,"mode","mode is %o",st.st_mode); VH_CHECK(!I.badmode,"mode","created with mode %o",I.badmode); if(out) __real_rmdir(q); else VH_CHECK(census()==before+1,"count","%lld new entries (or an existing directory was returned)",(long long)(census()-before)); if(bz==need) VH_COUNT("buffer exactly large enough",1); VH_COUNT("directories created",1); }
		VH_CHECK(!memcmp(gp,pre,pl+1),"modified","prefix modified"); vh_gfree(gp); vh_gfree(g); (void)tb2; sig=vh_hashu(bz,sig); }
	umask(oum); vh_seen(vh_hashu(I.nexist,sig)); vh_sample("prefix %s, %llu names taken before success",pre,(unsigned long long)I.nexist);
}
struct sh { volatile int go; volatile int n[8]; volatile u64 coll[8]; volatile int bad[8]; char name[8][24][80]; };
static struct sh*H;
static void race(u64 idx) {
	if(!H) { H=mmap(0,sizeof*H,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(H==MAP_FAILED) vh_internal("mmap"); } memset((void*)H,0,sizeof*H); fresh(); memset(&I,0,sizeof I); int np=2+vh_below(4),m=3+vh_below(48/np>20?18:48/np-3),i,j; I.seed=vh_rnd(); I.mod=2+vh_below(2); I.delay=vh_below(3)>0; int api=vh_below(2); pid_t pid[8]; char t[900],pre[8]; vh_text(pre,4,"abcd",4); pre[4]=0; mode_t oum=umask(0);
	if(api&&vh_chance(1,3)) { I.shmfail=1; I.err=EACCES; }
	for(i=0;i<np;i++) { pid[i]=fork(); if(pid[i]<0) vh_internal("fork"); if(!pid[i]) { for(j=0;j<i*7;j++) vh_rnd(); while(!H->go) sched_yield(); I.on=1; for(j=0;j<m;j++) { if(api) { if(!mktempdir(pre,t,sizeof t)) { H->bad[i]=1; break; } } else { snprintf(t,900,"%s/w/%sXXXXXX",S,pre); if(!ulz_mkdtemp(t)) { H->bad[i]=1; break; } } snprintf(H->name[i][j],80,"%s",strrchr(t,'/')); H->n[i]++; H->coll[i]=I.nexist; } if(I.badmode) H->bad[i]=2; _exit(0); } }
	__sync_synchronize(); H->go=1; int bad=0; for(i=0;i<np;i++) { int ws; waitpid(pid[i],&ws,0); if(!WIFEXITED(ws)||WEXITSTATUS(ws)) bad=1; } umask(oum); VH_CHECK(!bad,"race-crash","a caller did not end normally");
	u64 sig=3,coll=0; int tot=0; for(i=0;i<np;i++) { VH_CHECK(H->bad[i]!=1,"race-fails","a concurrent call failed"); VH_CHECK(H->bad[i]!=2,"mode","created with access for others"); coll+=H->coll[i]; for(j=0;j<H->n[i];j++) { tot++; sig=vh_hash(H->name[i][j],strlen(H->name[i][j]),vh_hashu(i,sig)); for(int a=0;a<np;a++) for(int b=0;b<H->n[a];b++) if(a<i||(a==i&&b<j)) VH_CHECK(strcmp(H->name[i][j],H->name[a][b]),"shared","the same directory %s was given to two callers",H->name[i][j]); } }
	VH_COUNT("concurrent creations",tot); VH_COUNT("collisions between processes",coll); VH_TRACE("%d processes, %d directories, %llu collisions",np,tot,(unsigned long long)coll); vh_seen(sig); vh_sample("%d processes made %d directories, %llu collisions",np,tot,(unsigned long long)coll);
}
const vh_mode vh_modes[]={{"one",one,12000,200000},{"race",race,500,10000},{0}};
