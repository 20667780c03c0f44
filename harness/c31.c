/* C31: sleeps in virtual time with interruptions, real sleeps under signals, time arithmetic, timestamps */
#include "vh.h"
#include "timelib.h"
#include <stdio.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <signal.h>
const char *const vh_rule="sleeps of random durations (0..2^62, negative, around second boundaries) in virtual time with up to 50 interruptions at random points (incl. right at start and with 1 ns left), real sleeps under interval signals; random time pairs incl. borrows and negative differences; timestamps for random seconds (years 1000..9999) in 7 time zones; distinct = hash of the arguments and interruption pattern";
const char *const vh_required[]={"sleeps","interrupted sleeps","invalid durations refused","real sleeps under signals","signals during real sleeps","elapsed time","negative elapsed time","elapsed time with borrow","differences","negative differences","differences with borrow","clock readings","timestamps","stamps shortly after one another","timestamps with daylight saving",0};
int __real_nanosleep(const struct timespec*,struct timespec*); int __real_clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*); int __real_gettimeofday(struct timeval*,void*); int __real_clock_gettime(clockid_t,struct timespec*); time_t __real_time(time_t*);
static struct { int on; __int128 now; int ints; u64 calls; int fail; } V; /* virtual time in ns */
#define G ((__int128)1000000000)
static int vsleep(__int128 ns,struct timespec*rem) { /* returns 0 or EINTR */
	vh_tick(); if(++V.calls>100000) vh_fail("endless","sleep called again and again"); if(V.ints>0) { V.ints--; __int128 done; switch(vh_below(4)) { case 0: done=0; break; case 1: done=ns>0?ns-1:0; break; default: done=ns>0?(__int128)((double)ns*(vh_below(1000)/1000.0)):0; if(done>=ns) done=ns>0?ns-1:0; } V.now+=done; ns-=done; if(rem) { rem->tv_sec=(time_t)(ns/G); rem->tv_nsec=(long)(ns%G); } return EINTR; } V.now+=ns; return 0; }
static int valid(const struct timespec*t) { return t->tv_sec>=0&&t->tv_nsec>=0&&t->tv_nsec<1000000000; }
int __wrap_nanosleep(const struct timespec*q,struct timespec*r) { if(!V.on) return __real_nanosleep(q,r); if(!valid(q)) { errno=EINVAL; return -1; } __int128 ns=q->tv_sec*G+q->tv_nsec; int e=vsleep(ns,r); if(e) { errno=e; return -1; } errno=vh_chance(1,2)?EINTR:0; return 0; }
int __wrap_clock_nanosleep(clockid_t c,int fl,const struct timespec*q,struct timespec*r) { if(!V.on) return __real_clock_nanosleep(c,fl,q,r); if(!valid(q)) return EINVAL; __int128 ns=q->tv_sec*G+q->tv_nsec; if(fl&TIMER_ABSTIME) { ns-=V.now; if(ns<0) ns=0; return vsleep(ns,0); } return vsleep(ns,r); }
int __wrap_gettimeofday(struct timeval*t,void*z) { if(!V.on) return __real_gettimeofday(t,z); __int128 s=V.now/G,n=V.now%G; if(n<0) { n+=G; s--; } if(t) { t->tv_sec=(time_t)s; t->tv_usec=(long)(n/1000); } return 0; }
int __wrap_clock_gettime(clockid_t c,struct timespec*t) { if(!V.on) return __real_clock_gettime(c,t); __int128 s=V.now/G,n=V.now%G; if(n<0) { n+=G; s--; } t->tv_sec=(time_t)s; t->tv_nsec=(long)n; return 0; }
time_t __wrap_time(time_t*t) { if(!V.on) return __real_time(t); __int128 s=V.now/G; if(V.now%G<0) s--; if(t) *t=(time_t)s; return (time_t)s; }
static const char *const TZ[]={"UTC0","EST5EDT,M3.2.0,M11.1.0","CET-1CEST,M3.5.0,M10.5.0/3","IST-5:30","NST3:30NDT,M3.2.0,M11.1.0","<+14>-14","<-12>12"};
static void sleeps(u64 idx) {
	memset(&V,0,sizeof V); int us=vh_below(2); long d; switch(vh_below(7)) { case 0: d=vh_below(10); break; case 1: d=(us?1000000:1000)*(long)vh_below(5)+(long)vh_below(5)-2; break; case 2: d=-(long)vh_below(5000000)-1; break; case 3: d=(long)(vh_rnd()>>(1+vh_below(60))); break; case 4: d=-(long)(vh_rnd()>>(1+vh_below(60)))-1; break; default: d=vh_below(us?3000000:100000); } if(vh_chance(1,60)) d=vh_chance(1,2)?LONG_MAX:LONG_MIN;
	V.now=(__int128)1700000000*G; V.ints=vh_chance(1,4)?0:1+vh_below(vh_chance(1,6)?50:4); int ni=V.ints; u64 sig=vh_hashu(d,us*100+ni); __int128 t0=V.now,want=(__int128)d*(us?1000:1000000); V.on=1; errno=vh_chance(1,2)?EINTR:0; int r=us?microsleep(d):msleep(d); int e=errno; V.on=0; __int128 got=V.now-t0; VH_TRACE("%s(%ld): %d after %llds (%d interruptions)",us?"microsleep":"msleep",d,r,(long long)(got/G),ni-V.ints);
	if(d<0) { VH_CHECK(r!=0,"negative","a negative duration of %ld is accepted",d); VH_CHECK(e==EINVAL,"negative-errno","errno is %d for a negative duration",e); VH_COUNT("invalid durations refused",1); }
	else { VH_CHECK(r==0,"result","%s(%ld) returned %d",us?"microsleep":"msleep",d,r); VH_CHECK(got>=want,"short","%s(%ld) returned %lld ns early after %d interruptions",us?"microsleep":"msleep",d,(long long)(want-got),ni-V.ints); VH_COUNT("sleeps",1); if(ni-V.ints) VH_COUNT("interrupted sleeps",1); }
	vh_seen(sig); vh_sample("%s(%ld), %d interruptions",us?"microsleep":"msleep",d,ni);
}
static volatile sig_atomic_t hits; static void onsig(int s) { hits++; }
static void realsleep(u64 idx) { V.on=0; struct sigaction sa={.sa_handler=onsig},old; sigaction(SIGALRM,&sa,&old); struct itimerval it={{0,100+vh_below(900)},{0,100+vh_below(900)}},z={{0,0},{0,0}}; int us=vh_below(2); long d=us?1+vh_below(8000):1+vh_below(8); hits=0; struct timespec a,b; __real_clock_gettime(CLOCK_MONOTONIC,&a); setitimer(ITIMER_REAL,&it,0); int r=us?microsleep(d):msleep(d); __real_clock_gettime(CLOCK_MONOTONIC,&b); setitimer(ITIMER_REAL,&z,0); sigaction(SIGALRM,&old,0); long long ns=(b.tv_sec-a.tv_sec)*1000000000LL+b.tv_nsec-a.tv_nsec; VH_TRACE("real %ld %s: %d, %lld ns, %d signals",d,us?"us":"ms",r,ns,(int)hits); VH_CHECK(r==0,"real-result","returned %d under signals",r); VH_CHECK(ns>=d*(us?1000LL:1000000LL),"real-short","slept %lld ns instead of %ld %s (%d signals)",ns,d,us?"us":"ms",(int)hits); VH_COUNT("real sleeps under signals",1); VH_COUNT("signals during real sleeps",hits); vh_seen(vh_hashu(d,us+7)); }
static void arith(u64 idx) {
	memset(&V,0,sizeof V); long long s=vh_chance(1,2)?(long long)vh_below(1ull<<33):1700000000+(long long)vh_below(100); long us=vh_chance(1,3)?(long[]){0,999999,1,999,1000,500000}[vh_below(6)]:(long)vh_below(1000000); V.now=s*G+(__int128)us*1000; struct timeval t; long long s2=vh_chance(1,2)?s+(long long)vh_below(5)-2:(long long)vh_below(1ull<<33); long us2=vh_chance(1,3)?(long[]){0,999999,1,999,1000,500000}[vh_below(6)]:(long)vh_below(1000000); t.tv_sec=s2; t.tv_usec=us2; struct timeval tc=t; V.on=1; long m=mspassed(&t); long long u=getutime(); struct timeval n={1,1}; gettimestamp(&n); V.on=0;
	long long du=(s-s2)*1000000LL+us-us2; long fl=du>=0?du/1000:-((-du+999)/1000),tr=du/1000; VH_CHECK(m==fl||m==tr,"elapsed","from %lld.%06ld to %lld.%06ld: %ld ms",s2,us2,s,us,m); VH_CHECK(t.tv_sec==tc.tv_sec&&t.tv_usec==tc.tv_usec,"modified","start time modified"); VH_COUNT("elapsed time",1); if(du<0) VH_COUNT("negative elapsed time",1); if(us<us2) VH_COUNT("elapsed time with borrow",1);
	VH_CHECK(u==s*1000000LL+us,"utime","getutime gives %lld at %lld.%06ld",u,s,us); VH_CHECK(n.tv_sec==s&&n.tv_usec==us,"now","gettimestamp gives %lld.%06ld at %lld.%06ld",(long long)n.tv_sec,(long)n.tv_usec,s,us); VH_COUNT("clock readings",1);
	struct timespec a={vh_chance(1,3)?-(time_t)vh_below(4000000000u):(time_t)vh_below(4000000000u),vh_chance(1,3)?(long[]){0,999999999,1}[vh_below(3)]:(long)vh_below(1000000000)},b={vh_chance(1,2)?a.tv_sec+(time_t)vh_below(5)-2:(time_t)vh_below(4000000000u),vh_chance(1,3)?(long[]){0,999999999,1}[vh_below(3)]:(long)vh_below(1000000000)}; struct timespec ac=a,bc=b; long long d=timespec_diff(&a,&b); __int128 w=(__int128)(a.tv_sec-b.tv_sec)*G+(a.tv_nsec-b.tv_nsec); VH_TRACE("diff %lld.%09ld - %lld.%09ld = %lld",(long long)a.tv_sec,a.tv_nsec,(long long)b.tv_sec,b.tv_nsec,d); VH_CHECK(d==w,"diff","%lld.%09ld - %lld.%09ld = %lld",(long long)a.tv_sec,a.tv_nsec,(long long)b.tv_sec,b.tv_nsec,d); VH_CHECK(!memcmp(&a,&ac,sizeof a)&&!memcmp(&b,&bc,sizeof b),"modified","arguments modified"); VH_COUNT("differences",1); if(w<0) VH_COUNT("negative differences",1); if(a.tv_nsec<b.tv_nsec) VH_COUNT("differences with borrow",1); vh_seen(vh_hashu(du,(u64)d));
}
static void stamps(u64 idx) {
	memset(&V,0,sizeof V); const char*tz=0; time_t s=0; int n=vh_chance(1,2)?1:2+vh_below(5),k; for(k=0;k<n;k++) { if(!k||vh_chance(1,2)) tz=TZ[vh_below(7)]; setenv("TZ",tz,1); tzset(); if(k&&vh_chance(3,4)) { static const int D[]={0,0,1,-1,30,59,60,-60,3599,3600,86399,86400,-86400}; s+=D[vh_below(13)]; VH_COUNT("stamps shortly after one another",1); } else s=vh_chance(1,2)?(time_t)vh_below(4102444800u):(time_t)vh_below(283992393600ull)-30589747200ll; if(vh_chance(1,4)) s=s/86400*86400+(time_t)vh_below(3)-1; V.now=s*G+(__int128)vh_below(1000000000); struct tm tm; localtime_r(&s,&tm); char w[64]; size_t wl=strftime(w,64,"%Y-%m-%d %H:%M:%S",&tm); if(wl!=19) continue; size_t bz=vh_chance(1,2)?20:20+vh_below(30); char*g=vh_gbuf(bz); V.on=1; size_t r=timestamp(g,bz); V.on=0; VH_TRACE("%s: %s",tz,w); VH_CHECK(r==19&&!memcmp(g,w,20),"timestamp","%s in %s, expected %s (length %zu)",vh_esc(g,20),tz,w,r); VH_COUNT("timestamps",1); if(tm.tm_isdst>0) VH_COUNT("timestamps with daylight saving",1); vh_gfree(g); vh_seen(vh_hashu(s,7)); vh_sample("%s %s",tz,w); } setenv("TZ","UTC0",1); tzset();
}
const vh_mode vh_modes[]={{"sleeps",sleeps,100000,3000000},{"real",realsleep,600,6000},{"arith",arith,200000,5000000},{"stamps",stamps,60000,1000000},{0}};
