/* C09: histories of calls over the whole library with documented releases in random order; block ledger and descriptor census must be back at the start */
#include "vh.h"
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "stringlist.h"
#include "kvlist.h"
#include "stringptrlist.h"
#include "hashlist.h"
#include "tlist.h"
#include "tgilist.h"
#include "hbmap.h"
#include "filelist.h"
#include "fileparser.h"
#include "filelib.h"
#include "iniparser.h"
#include "optparser.h"
#include "strlib.h"
#include "format.h"
#include "logger.h"
#include "timelib.h"
#include "proclib.h"
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
const char *const vh_rule="random histories of object creations, uses (successful and ordinarily failing) and documented releases in random order over all modules; after the last release no block and no descriptor may be left; distinct = hash of the history";
const char *const vh_required[]={"histories balanced","blocks allocated","ok fromfile","failed fromfile","list from file","failed list from file","list to file","failed to file","search ok","search no match","search missing dir","search refused","process ok","write errors","read errors","process failed to start","replace","split","bad format","fileparser","fileparser on a low descriptor","released more than 2^16","failed fileparser open","deep lists","map with owned keys/values","map freed alone","map freed with keys","map freed with values","equal entries duplicated",0};
typedef struct { void (*rel)(void*); void *p; const char*what; } live; static live L[64]; static size_t nl;
static void push(void(*rel)(void*),void*p,const char*what) { if(!p) return; VH_TRACE("+ %s",what); L[nl].rel=rel; L[nl].p=p; L[nl].what=what; nl++; }
static char fok[500],flong[500],fempty[500],fmiss[500],fdir[500],fout[500],fbad[500],dlong[6000]; static int nullfd; static bs fcontent;
static void mk(const char*p,const void*d,size_t n) { int fd=creat(p,0600); if(fd<0||write(fd,d,n)!=(ssize_t)n) vh_internal("mk %s",p); close(fd); }
void vh_setup(void) {
	const char*s=vh_scratch(); snprintf(fok,500,"%s/ok",s); snprintf(flong,500,"%s/long",s); snprintf(fempty,500,"%s/empty",s); snprintf(fmiss,500,"%s/missing",s); snprintf(fdir,500,"%s/dir",s); snprintf(fout,500,"%s/out",s); snprintf(fbad,500,"%s/nodir/out",s);
	for(int i=0;i<60;i++) { char b[30]; sprintf(b,"line %d\n%s",i,i%5?"":"\n"); bs_puts(&fcontent,b); } mk(fok,fcontent.d,fcontent.n);
	bs l={0}; for(int i=0;i<4;i++) { for(int j=0;j<900*(i+1);j++) bs_putc(&l,'a'+i); bs_putc(&l,'\n'); } mk(flong,l.d,l.n); bs_free(&l); mk(fempty,"",0); mkdir(fdir,0700); char p[600]; for(int i=0;i<7;i++) { sprintf(p,"%s/e%d%s",fdir,i,i&1?".x":""); if(i==4) mkdir(p,0700); else mk(p,"z",1); } sprintf(p,"%s/.hid",fdir); mk(p,"z",1);
	memset(dlong,'q',5999); nullfd=open("/dev/null",O_RDWR); setenv("TZ","UTC0",1); char b[40]; timestamp(b,40); errno=ENOENT; log_puterror(nullfd,"warm"); log_timestamp(nullfd); struct process pr; char*const av[]={"/bin/true",0}; if(!process_open(&pr,av)) process_close(&pr);
}
static stringptr rs(char*b,size_t max) { size_t n=vh_below(max); vh_text(b,n,"ab,;=x \n",8); b[n]=0; return (stringptr){b,n}; }
static void r_free(void*p) { free(p); } static void r_sbl(void*p) { sblist_free(p); } static void r_sblv(void*p) { sblist_free_values(p); sblist_free(p); } static void r_spall(void*p) { stringptrlist_freeall(p); } static void r_sp(void*p) { stringptr*s=p; stringptr_free(s); if(s) vh_fail("free","stringptr_free leaves the pointer"); }
static void r_hl(void*p) { hashlist_free(p); } static void r_tl(void*p) { tlist_free(p); } static void r_tld(void*p) { tlist_free_deep(p); }
static void r_fl(void*p) { filelist_free(p); xfree(p); } static void r_fp(void*p) { VH_CHECK(fileparser_close(p)==0,"close","fileparser_close"); xfree(p); }
static void r_proc(void*p) { int r=process_close(p); VH_CHECK(r==0,"proc","process_close returned %d",r); xfree(p); }
typedef bmap(char*,char*) bmo; static int cmps(const void*a,const void*b) { return strcmp(*(char**)a,*(char**)b); } static unsigned hs(const char*const k) { unsigned h=0; const char*p=k; while(*p) h=h*31+*p++; return h; }
/* flags: 0 frees the map only, 1 its keys, 2 its values, 3 both; what the map does not free is freed by hand */
static void r_bm(void*p) { bmo*b=p; int k=vh_below(2),v=vh_below(2); for(size_t i=0;i<bmap_getsize(b);i++) { if(!k) free(bmap_getkey(b,i)); if(!v) free(bmap_getval(b,i)); } if(!k&&!v&&vh_chance(1,2)) bmap_fini(b,0); else if(k!=v&&vh_chance(1,2)) bmap_fini(b,k?1:2); else if(!v) bmap_fini(b,k); else bmap_fini(b,k|2); free(b); switch(k+2*v) { case 0: VH_COUNT("map freed alone",1); break; case 1: VH_COUNT("map freed with keys",1); break; case 2: VH_COUNT("map freed with values",1); } }
typedef hbmap(char*,char*,5) hbo; static void r_hb(void*p) { hbo*b=p; int k=vh_below(2),v=vh_below(2); hbmap_iter i; hbmap_foreach(b,i) { if(!k) free(hbmap_getkey(b,i)); if(!v) free(hbmap_getval(b,i)); } if(k!=v&&vh_chance(1,2)) hbmap_fini(b,k?1:2); else if(!v) hbmap_fini(b,k); else hbmap_fini(b,k|2); free(b); }
typedef tglist(char*) tgo; static void r_tgv(void*p) { tgo*l=p; tglist_free_values(l); tglist_free(l); }
typedef tgilist(char*,unsigned) tgio; static void r_tgi(void*p) { tgio*l=p; tgilist_free_values(l); tgilist_free(l); }
static u64 nfault;
static int step(void) {
	char b[200],c[40]; stringptr s=rs(b,150),d=rs(c,3); size_t i,n=vh_below(30); int op=vh_below(32);
	switch(op) {
	case 0: { sblist*l=sblist_new(1+vh_below(200),vh_below(6)); char it[256]={0}; for(i=0;i<n;i++) if(vh_chance(1,2)) sblist_add(l,it); else sblist_insert(l,it,vh_below(2*sblist_getsize(l)+1)); if(vh_chance(1,3)) sblist_free_items(l); push(r_sbl,l,"sblist"); break; }
	case 1: { sblist*l=sblist_new(sizeof(void*),vh_below(6)); for(i=0;i<n;i++) { char*p=vh_chance(1,6)?0:malloc(5); sblist_add(l,&p); if(vh_chance(1,6)) { free(*(void**)sblist_pop(l)); } } push(r_sblv,l,"sblist of pointers"); VH_COUNT("deep lists",1); break; }
	case 2: { stringlist*l=stringlist_new(1+vh_below(9)); for(i=0;i<n;i++) stringlist_add_dup(l,b); push(r_sblv,l,"stringlist"); break; }
	case 3: { kvlist*l=kv_new(4); void*v; for(i=0;i<n;i++) kv_add(l,b,s.size,0); kv_find(l,&s,&v); push(r_sbl,l,"kvlist"); break; }
	case 4: { hashlist*h=hashlist_new(1+vh_below(20),4); u32 v=0; for(i=0;i<n;i++) hashlist_add(h,vh_rnd(),&v); push(r_hl,h,"hashlist"); break; }
	case 5: { tlist*t=tlist_new(8); u64 v=0; for(i=0;i<n;i++) { tlist_insert(t,vh_below(tlist_getsize(t)+2),&v); if(vh_chance(1,4)) tlist_delete(t,vh_below(n)); } if(vh_chance(1,4)) tlist_free_items(t); push(r_tl,t,"tlist"); break; }
	case 6: { tlist*t=tlist_new(sizeof(char*)); for(i=0;i<n;i++) { char*p=vh_chance(1,6)?0:malloc(3); tlist_append(t,&p); if(vh_chance(1,4)) tlist_delete_deep(t,vh_below(tlist_getsize(t))); } if(vh_chance(1,4)) tlist_free_items_deep(t); push(r_tld,t,"tlist of pointers"); VH_COUNT("deep lists",1); break; }
	case 7: { tgo*l=tglist_new(); for(i=0;i<n;i++) { char*p=vh_chance(1,6)?0:malloc(9); tglist_insert(l,p,vh_below(tglist_getsize(l)+1)); } push(r_tgv,l,"tglist"); VH_COUNT("deep lists",1); break; }
	case 8: { tgio*l=tgilist_new(); for(i=0;i<n;i++) { char*p=vh_chance(1,6)?0:malloc(9); tgilist_insert(l,p,vh_below(tgilist_getsize(l)+1)); } push(r_tgi,l,"tgilist"); VH_COUNT("deep lists",1); break; }
	case 9: { bmo*m=bmap_new(cmps); for(i=0;i<n;i++) { char kb[12]; sprintf(kb,"k%d",(int)vh_below(12)); char*k=kb; char**o=bmap_get(m,k); char*v=malloc(4); if(o) { free(*o); *o=v; } else { k=strdup(kb); VH_CHECK(bmap_insert(m,k,v)>=0,"map","insert"); } } push(r_bm,m,"bmap"); VH_COUNT("map with owned keys/values",1); break; }
	case 10: { hbo*m=hbmap_new(cmps,hs,5); for(i=0;i<n;i++) { char kb[12]; sprintf(kb,"k%d",(int)vh_below(20)); char*k=kb; char**o=hbmap_get(m,k); char*v=malloc(4); if(o) { free(*o); *o=v; } else { k=strdup(kb); VH_CHECK(hbmap_insert(m,k,v)!=(hbmap_iter)-1,"map","insert"); } } push(r_hb,m,"hbmap"); VH_COUNT("map with owned keys/values",1); break; }
	case 11: push(r_sp,stringptr_copy(&s),"stringptr_copy"); push(r_free,stringptr_strdup(&s),"stringptr_strdup"); VH_CHECK(!stringptr_copy(0)&&!stringptr_strdup(0),"null","copy of NULL"); break;
	case 12: push(r_sp,stringptr_concat(&s,&d,&s,NULL),"stringptr_concat"); push(r_sp,stringptr_new(vh_below(90)),"stringptr_new"); break;
	case 13: { stringptr*r=vh_chance(1,2)?stringptr_format("%s %d %.3x",b,(int)vh_rnd(),7):vh_chance(1,3)?stringptr_format(0):stringptr_format(vh_chance(1,2)?"%q":"abc%"); if(!r) VH_COUNT("bad format",1); push(r_sp,r,"stringptr_format"); break; }
	case 14: { char*f=(char*[]){fok,flong,fempty,fmiss,fdir,fbad}[vh_below(6)]; stringptr*r=stringptr_fromfile(f); if(r) VH_COUNT("ok fromfile",1); else VH_COUNT("failed fromfile",1); push(r_sp,r,"stringptr_fromfile"); break; }
	case 15: { char*f=(char*[]){fout,fbad,fdir}[vh_below(3)]; size_t w=stringptr_tofile(f,&s); if(!w&&s.size) VH_COUNT("failed to file",1); stringptr_tofile(0,&s); break; }
	case 30: case 31: { stringptrlist*l=stringptrlist_new(1+vh_below(9)); static char txt[40]="one string for all of the entries"; for(i=0;i<n;i++) { size_t z=vh_chance(1,2)?3:vh_below(6); stringptrlist_add(l,txt+vh_below(2)*vh_below(3),z); } VH_CHECK(stringptrlist_dup_entries(l)==-1,"dup","dup_entries"); for(i=0;i<n;i++) { stringptr*e=stringptrlist_get(l,i); VH_CHECK(e->ptr<txt||e->ptr>=txt+40,"dup","entry %zu of %zu still refers to the old text",i,n); } push(r_spall,l,"list with equal entries, duplicated"); VH_COUNT("equal entries duplicated",1); break; }
	case 16: { stringptr*t=stringptr_copy(&s); stringptrlist*l=vh_chance(1,2)?stringptr_splitc(t,','):stringptr_splits(t,&d); VH_COUNT("split",1); push(r_sp,t,"split text"); if(l) { stringptr*j=vh_chance(1,2)?stringptrlist_tostring(l):stringptrlist_tostring_dos(l); push(r_sp,j,"tostring"); if(vh_chance(1,3)) { VH_CHECK(stringptrlist_dup_entries(l)==-1,"dup","dup_entries"); push(r_spall,l,"duplicated split list"); } else push(r_sbl,l,"split list"); } break; }
	case 17: { stringptr*t=stringptr_copy(&s); push(r_sp,stringptr_replace(t,&d,&s),"stringptr_replace"); VH_COUNT("replace",1); VH_CHECK(!stringptr_replace(0,&d,&s)&&!stringptr_replace(t,0,&s)&&!stringptr_replace(t,&d,0),"null","replace with NULL"); push(r_sp,t,"replace text"); break; }
	case 18: { stringptrlist*l=stringptrlist_new(1+vh_below(9)); for(i=0;i<n;i++) stringptrlist_add_strdup(l,&s); stringptrlist_find(l,&d); if(vh_chance(1,4)) { stringptrlist_freestrings(l); } push(r_spall,l,"stringptrlist"); break; }
	case 19: case 20: { stringptrlist*l=stringptrlist_new(1+vh_below(20)); char*f=(char*[]){fok,flong,fempty,fmiss,fdir,fbad}[vh_below(6)]; int r=stringptrlist_fromfile(l,f); if(r) VH_COUNT("list from file",1); else VH_COUNT("failed list from file",1); push(r_spall,l,"stringptrlist_fromfile"); break; }
	case 21: { stringptrlist*l=stringptrlist_new(4); for(i=0;i<n;i++) stringptrlist_add(l,b,s.size); char*f=(char*[]){fout,fbad,fdir}[vh_below(3)]; if(stringptrlist_tofile(l,f,0600)) VH_COUNT("list to file",1); else VH_COUNT("failed to file",1); push(r_sbl,l,"list"); break; }
	case 22: case 23: { fileparser*f=xcalloc(1,sizeof*f); char*fn=(char*[]){fok,flong,fempty,fmiss,fdir,fbad}[vh_below(6)]; int hid=vh_chance(1,6)?2-(int)vh_below(2):0,keep=-1; if(hid) { keep=fcntl(hid,F_DUPFD_CLOEXEC,3); if(keep<0) hid=0; else close(hid); } int r=fileparser_open(f,fn); if(hid) { /* opened while a standard descriptor is free: closing it frees it again */ int got=!r&&f->file==hid,st=0; if(got) { st=fileparser_close(f); if(fcntl(hid,F_GETFD)!=-1) got=2; } if(!got&&!r) fileparser_close(f); dup2(keep,hid); close(keep); VH_CHECK(got!=2&&!st,"fd-leak","a file opened as descriptor %d stays open after fileparser_close",hid); if(got) VH_COUNT("fileparser on a low descriptor",1); xfree(f); break; } if(r) { VH_COUNT("failed fileparser open",1); xfree(f); } else { stringptr ln; for(i=0;i<n;i++) { int q=fileparser_readline(f); fileparser_getline(f,&ln); if(q==-3) { ssize_t z=fileparser_getnextlinelength(f); VH_CHECK(z>0||nfault,"len","length %zd",z); if(z<=0) break; char*p=malloc(z+1); fileparser_readline_userbuf(f,p,z+1); free(p); } } VH_COUNT("fileparser",1); push(r_fp,f,"fileparser"); } break; }
	case 24: case 25: { filelist*f=xcalloc(1,sizeof*f); stringptr dir={fdir,strlen(fdir)},mask={"*",1}; int w=vh_below(5); if(w==1) mask=(stringptr){"nomatch*",8}; if(w==2) dir=(stringptr){fmiss,strlen(fmiss)}; if(w==3) dir=(stringptr){dlong,1+vh_below(5900)}; int r=filelist_search(f,w==4?0:&dir,&mask,vh_below(16)); if(r) { VH_CHECK(w!=0,"search","search failed with %d",r); if(w==1) VH_COUNT("search no match",1); else if(w==2) VH_COUNT("search missing dir",1); else if(w==3) VH_COUNT("search refused",1); xfree(f); } else { VH_COUNT("search ok",1); push(r_fl,f,"filelist"); } break; }
	case 26: { struct process*p=xcalloc(1,sizeof*p); if(!vh_chance(1,4)) { xfree(p); break; } char*const ok[]={"/bin/cat",0}; char*const bad[]={fmiss,0}; char*const bad2[]={fdir,0}; int w=vh_below(3); int r=process_open(p,w==0?ok:w==1?bad:bad2); if(r) { VH_CHECK(w,"proc","process_open failed"); VH_COUNT("process failed to start",1); xfree(p); } else { VH_CHECK(!w,"proc","process_open of a missing program succeeded"); VH_COUNT("process ok",1); push(r_proc,p,"process"); } break; }
	case 27: { char buf[64]; op_state o; char*av[]={"a","-x","--foo=bar",0}; op_init(&o,3,av); op_get(&o,SPL("foo")); op_hasflag(&o,SPL("x")); ulz_fprintf(nullfd,"%s %d",b,4); log_put(nullfd,VARIS(&s),VARII(4),VNIL); log_timestamp(nullfd); errno=EINVAL; log_puterror(nullfd,"x"); timestamp(buf,64); getfilesize(fmiss); getFileModTime(fok); break; }
	case 28: { stringptr*t=stringptr_copy(&s); stringptrlist*l=stringptr_linesplit(t); ini_section se=iniparser_get_section(l,SPL("a")); stringptr v; iniparser_getvalue(l,&se,SPL("b"),&v); iniparser_count_sections(l); push(r_sp,t,"ini text"); push(r_sbl,l,"ini lines"); break; }
	default: if(s.size) push(r_free,strdup_n(b,s.size),"strdup_n"); VH_CHECK(!strdup_n(0,4)&&!strdup_n(b,0),"null","strdup_n"); break;
	}
	return op;
}
/* now and then the medium fails or takes less than it was given */
#define IOW_READ
#define IOW_WRITE
#include "iowrap.h"
static int faults; ssize_t __real_write(int,const void*,size_t); ssize_t __real_read(int,void*,size_t);
static size_t cut(size_t n) { return n>1&&vh_chance(1,20)?1+vh_below(n-1):n; }
ssize_t __wrap_write(int f,const void*b,size_t n) { if(faults&&n&&vh_chance(1,n==1?9:30)) { nfault++; VH_COUNT("write errors",1); errno=vh_chance(1,2)?ENOSPC:EIO; return -1; } return iow_write(f,b,faults?cut(n):n); }
ssize_t __wrap_read(int f,void*b,size_t n) { if(faults&&n&&vh_chance(1,40)) { nfault++; VH_COUNT("read errors",1); errno=EIO; return -1; } return iow_read(f,b,faults?cut(n):n); }
static void history(u64 idx) {
	size_t k,ops=1+vh_below(25); u64 sig=0; unsigned char f0[128],f1[128]; nl=0; vh_fdset(f0); vh_ledger_begin();
	for(k=0;k<ops;k++) {
		faults=vh_chance(1,3); nfault=0; int op=step(); faults=0; sig=vh_hashu(op,sig);
		while(nl>40||(nl&&vh_chance(1,3))) { size_t i=vh_below(nl); live x=L[i]; L[i]=L[--nl]; VH_TRACE("- %s",x.what); x.rel(x.p); }
		if(!nl) { vh_fdset(f1); VH_CHECK(!memcmp(f0,f1,128),"fd-leak","descriptors differ after step %zu although everything is released",k); VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks live after step %zu although everything is released",vh_ledger_live(),k); }
	}
	while(nl) { size_t i=vh_below(nl); live x=L[i]; L[i]=L[--nl]; VH_TRACE("- %s",x.what); x.rel(x.p); }
	vh_fdset(f1); VH_CHECK(!memcmp(f0,f1,128),"fd-leak","descriptors differ after all releases");
	VH_COUNT("blocks allocated",vh_ledger_allocs());
	VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks live after all releases",vh_ledger_live()); VH_CHECK(!vh_ledger_badfree(),"badfree","library freed memory it was never given"); vh_ledger_end();
	VH_COUNT("histories balanced",1); vh_seen(sig); vh_sample("%zu calls, balanced",ops);
}
/* releasing more of everything than fits 16 bits */
static void many(u64 idx) {
	size_t i,n=65536+vh_below(3000),m=vh_chance(1,2)?n:70000; char b[30]; unsigned char f0[128],f1[128]; vh_fdset(f0); vh_ledger_begin();
	switch(idx%8) {
	case 0: { hashlist*h=hashlist_new(n,4); int v=1; for(i=n;i--;) if(i>65500||vh_chance(1,50)) hashlist_add(h,i,&v); hashlist_free(h); break; }
	case 1: { tlist*t=tlist_new(sizeof(char*)); for(i=0;i<n;i++) { char*p=malloc(1); tlist_append(t,&p); } if(vh_chance(1,2)) tlist_free_items_deep(t); tlist_free_deep(t); break; }
	case 2: { tgo*l=tglist_new(); for(i=0;i<n;i++) { char*p=malloc(1); tglist_insert(l,p,i); } r_tgv(l); break; }
	case 3: { tgio*l=tgilist_new(); for(i=0;i<n;i++) { char*p=malloc(1); tgilist_insert(l,p,i); } r_tgi(l); break; }
	case 4: { bmo*o=bmap_new(cmps); for(i=0;i<n;i++) { sprintf(b,"%06zu",i); char*k=strdup(b),*v=malloc(1); bmap_insert(o,k,v); } r_bm(o); break; }
	case 5: { hbo*o=hbmap_new(cmps,hs,5); for(i=0;i<m;i++) { sprintf(b,"%06zu",i); char*k=strdup(b),*v=malloc(1); hbmap_insert(o,k,v); } r_hb(o); break; }
	case 6: { stringptrlist*l=stringptrlist_new(2000); for(i=0;i<n;i++) { stringptr s={b,3}; strcpy(b,"abc"); stringptrlist_add_strdup(l,&s); } if(vh_chance(1,2)) stringptrlist_freestrings(l); stringptrlist_freeall(l); break; }
	default: { sblist*l=sblist_new(sizeof(char*),2000); for(i=0;i<n;i++) { char*p=malloc(1); sblist_add(l,&p); } sblist_free_values(l); sblist_free(l); tlist*t=tlist_new(4); for(i=0;i<n;i++) tlist_append(t,&i); if(vh_chance(1,2)) tlist_free_items(t); tlist_free(t); } }
	vh_fdset(f1); VH_CHECK(!memcmp(f0,f1,128),"fd-leak","descriptors differ"); VH_CHECK(vh_ledger_live()==0,"leak","%zu blocks live after releasing a container (kind %d) of %zu",vh_ledger_live(),(int)(idx%8),n); VH_CHECK(!vh_ledger_badfree(),"badfree","library freed memory it was never given"); vh_ledger_end(); VH_COUNT("released more than 2^16",1); vh_seen(vh_hashu(idx%8,n));
}
const vh_mode vh_modes[]={{"many",many,32,400},{"history",history,12000,400000},{0}};
