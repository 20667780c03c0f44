/* C08: every allocation of every allocating call fails in turn (k-th only, and k-th and all later ones);
 * the result is compared with the state before the call, the ledger must balance, the object must stay usable. */
#include "vh.h"
#include <fcntl.h>
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "sblist.h"
#include "stringlist.h"
#include "sptrlist.h"
#include "kvlist.h"
#include "stringptrlist.h"
#include "hashlist.h"
#include "tlist.h"
#include "tglist.h"
#include "tgilist.h"
#include "hbmap.h"
#include "filelist.h"
#include "strlib.h"
#include <glob.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
const char *const vh_rule="for each allocating call and a random starting state: the k-th allocation inside the call fails for every k until none is left, single-shot and persistently; distinct = (call, starting state, k, style) with the fault fired";
const char *const vh_required[]={"faults fired","fired in sblist_new","fired in sblist_new_from_data","fired in sblist_add","fired in sblist_addi","fired in sblist_insert","fired in sblist_insert_sorted","fired in sblist_insert_sorted_r","fired in stringlist_add_dup","fired in stringptrlist_add_strdup","fired in stringptrlist_dup_entries","fired in stringptrlist_fromfile","fired in stringptrlist_tostring","fired in stringptrlist_tostring_dos","fired in stringptr_new","fired in stringptr_copy","fired in stringptr_concat","fired in stringptr_format","fired in stringptr_strdup","fired in stringptr_fromfile","fired in stringptr_splitc","fired in stringptr_splits","fired in stringptr_replace","fired in strdup_n","fired in hashlist_new","fired in hashlist_add","fired in tlist_new","fired in tlist_insert","fired in tlist_append","fired in tglist_new","fired in tglist_add","fired in tglist_insert","fired in tglist_insert_sorted","fired in tgilist_new","fired in tgilist_add","fired in tgilist_insert","fired in bmap_new","fired in bmap_insert","fired in bmap_insert_nocheck","fired in hbmap_new","fired in hbmap_insert","fired in hbmap_insert_nocheck","fired in filelist_search","fired in kv_add","fired in sptrlist_add",0};
static u64 K; static int fired; static const char *nm;
#define FAULT(name, stmt) do { nm=name; VH_TRACE("%s with allocation %llu failing%s",name,(unsigned long long)K,vh_fault_repeat?" (and all later)":""); vh_fault_arm(K); stmt; vh_fault_disarm(); fired=vh_fault_fired(); if(fired) { VH_COUNT("faults fired",1); VH_COUNT("fired in " name,1); } } while(0)
/* ok: the call reported success, bad: it reported its documented failure value */
#define RES(ok, bad, desc, ...) do { VH_CHECK((ok)||(bad),"retval","%s returned neither success nor its failure value: " desc,nm,__VA_ARGS__); VH_CHECK(fired||(ok),"spurious","%s failed although no allocation failed",nm); } while(0)

/* ---- sblist ---- */
static int cmpb(const void*a,const void*b) { return *(const u8*)a-*(const u8*)b; }
static int cmpbr(const void*a,const void*b,void*c) { (void)c; return cmpb(a,b); }
static void snap(sblist*l,bs*b) { size_t i; b->n=0; for(i=0;i<sblist_getsize(l);i++) bs_put(b,sblist_get(l,i),l->itemsize); }
static void sbl(int which) {
	size_t isz=1+vh_size(40),blk=vh_below(5),n=vh_below(12),i; if(blk==4) blk=0; if(!blk&&vh_chance(1,2)) isz=1500+vh_below(4000); sblist*l; bs a={0},b={0}; u8*it=xmalloc(isz),*sorted=xcalloc(1,isz); int ok; size_t r,pos;
	l=sblist_new(isz,blk); VH_CHECK(l,"setup","sblist_new");
	for(i=0;i<n;i++) { vh_bytes(it,isz); it[0]=i*3; VH_CHECK(sblist_add(l,it)==1,"setup","sblist_add"); }
	if(which!=5 && vh_chance(1,2)) { while(l->count<l->capa) { vh_bytes(it,isz); it[0]=200; sblist_add(l,it); } n=sblist_getsize(l); } /* force growth */
	vh_bytes(it,isz); it[0]=vh_rnd(); snap(l,&a);
	switch(which) {
	case 0: FAULT("sblist_add",ok=sblist_add(l,it)); RES(ok==1,ok==0,"%d",ok); pos=n; break;
	case 1: FAULT("sblist_addi",r=sblist_addi(l,it)); ok=r==n; RES(ok,r==(size_t)-1,"%zu",r); pos=n; break;
	case 2: pos=vh_below(n+1); FAULT("sblist_insert",ok=sblist_insert(l,it,pos)); RES(ok==1,ok==0,"%d",ok); break;
	case 3: FAULT("sblist_insert_sorted",r=sblist_insert_sorted(l,it,cmpb)); ok=r<=n; RES(ok,r==(size_t)-1,"%zu",r); pos=r; break;
	default: FAULT("sblist_insert_sorted_r",r=sblist_insert_sorted_r(l,it,cmpbr,0)); ok=r<=n; RES(ok,r==(size_t)-1,"%zu",r); pos=r; break;
	}
	snap(l,&b);
	if(!ok) VH_CHECK(sblist_getsize(l)==n&&a.n==b.n&&!memcmp(a.d?a.d:(u8*)"",b.d?b.d:(u8*)"",a.n),"changed","%s failed but changed the list (%zu -> %zu items)",nm,n,sblist_getsize(l));
	else { VH_CHECK(sblist_getsize(l)==n+1&&!memcmp(b.d+pos*isz,it,isz)&&!memcmp(b.d,a.d?a.d:it,pos*isz)&&(pos>=n||!memcmp(b.d+(pos+1)*isz,a.d+pos*isz,(n-pos)*isz)),"effect","%s succeeded with a wrong effect",nm); n++; }
	/* still usable */
	VH_CHECK(sblist_add(l,it)==1&&sblist_getsize(l)==n+1&&!memcmp(sblist_get(l,n),it,isz),"unusable","list unusable after failed %s",nm);
	sblist_free(l); bs_free(&a); bs_free(&b); xfree(it); xfree(sorted);
}
static void s_add(void){sbl(0);} static void s_addi(void){sbl(1);} static void s_ins(void){sbl(2);} static void s_inss(void){sbl(3);} static void s_inssr(void){sbl(4);}
static void s_new(void) { sblist*l; FAULT("sblist_new",l=sblist_new(1+vh_below(99),vh_below(9))); RES(l!=0,l==0,"%p",(void*)l); sblist_free(l); }
static void s_newdata(void) { char*d=malloc(40); sblist*l; memset(d,7,40); FAULT("sblist_new_from_data",l=sblist_new_from_data(4,d,40)); RES(l!=0,l==0,"%p",(void*)l); VH_CHECK(d[0]==7&&d[39]==7,"changed","data changed"); if(l) sblist_free(l); else free(d); }
static void s_kv(void) { kvlist*l=kv_new(1+vh_below(3)); size_t n=vh_below(7),i; int ok; void*v=0; for(i=0;i<n;i++) kv_add(l,"k",1,(void*)i); FAULT("kv_add",ok=kv_add(l,"x",1,&n)); RES(ok==1,ok==0,"%d",ok); VH_CHECK(kv_getsize(l)==n+(size_t)ok,"changed","kv_add size"); VH_CHECK(kv_find(l,SPL("x"),&v)==ok&&(!ok||v==&n),"changed","kv_find after kv_add"); for(i=0;i<n;i++) VH_CHECK(kv_get(l,i)->value==(void*)i,"changed","kv entry"); kv_free(l); }
static void s_ptr(void) { sptrlist*l=sptrlist_new(1+vh_below(3)); size_t n=vh_below(7),i; int ok; void*p; for(i=0;i<n;i++) { p=(void*)i; sptrlist_add(l,p); } p=l; FAULT("sptrlist_add",ok=sptrlist_add(l,p)); RES(ok==1,ok==0,"%d",ok); VH_CHECK(sptrlist_get_count(l)==n+(size_t)ok,"changed","sptrlist_add size"); for(i=0;i<n;i++) VH_CHECK(sptrlist_get(l,i)==(void*)i,"changed","sptr entry"); sptrlist_free(l); }
/* ---- string lists ---- */
static char txt[300]; static void mktxt(void) { size_t n=vh_size(250); vh_text(txt,n,"abc,;x\n",7); txt[n]=0; }
static void s_sladd(void) { stringlist*l=stringlist_new(1+vh_below(4)); size_t n=vh_below(9),i; int ok; for(i=0;i<n;i++) VH_CHECK(stringlist_add_dup(l,"foo")==1,"setup","add_dup"); mktxt();
	FAULT("stringlist_add_dup",ok=stringlist_add_dup(l,txt)); RES(ok==1,ok==0,"%d",ok); VH_CHECK(stringlist_getsize(l)==n+(size_t)ok,"changed","stringlist_add_dup: size %zu",stringlist_getsize(l)); for(i=0;i<n;i++) VH_CHECK(!strcmp(stringlist_get(l,i),"foo"),"changed","entry"); if(ok) VH_CHECK(!strcmp(stringlist_get(l,n),txt),"effect","entry"); sblist_free_values(l); stringlist_free(l); }
static void s_spladd(void) { stringptrlist*l=stringptrlist_new(1+vh_below(4)); size_t n=vh_below(9),i; int ok; for(i=0;i<n;i++) VH_CHECK(stringptrlist_add_strdup(l,SPL("foo")),"setup","add"); mktxt(); stringptr s={txt,strlen(txt)};
	FAULT("stringptrlist_add_strdup",ok=stringptrlist_add_strdup(l,&s)); RES(ok==1,ok==0,"%d",ok); VH_CHECK(stringptrlist_getsize(l)==n+(size_t)ok,"changed","size"); for(i=0;i<n;i++) VH_CHECK(EQ(stringptrlist_get(l,i),SPL("foo")),"changed","entry"); if(ok) VH_CHECK(EQ(stringptrlist_get(l,n),&s),"effect","entry"); VH_CHECK(stringptrlist_add_strdup(l,&s)==1,"unusable","add"); stringptrlist_freeall(l); }
static void s_dup(void) { stringptrlist*l=stringptrlist_new(4); size_t n=vh_below(9),i; ssize_t r; char src[9][40]; for(i=0;i<n;i++) { size_t z=vh_below(39); vh_text(src[i],z,"abcd",4); src[i][z]=0; stringptrlist_add(l,src[i],z); }
	FAULT("stringptrlist_dup_entries",r=stringptrlist_dup_entries(l)); RES(r==-1,r>=0&&r<(ssize_t)n,"%zd",r); VH_CHECK(stringptrlist_getsize(l)==n,"changed","size"); for(i=0;i<n;i++) { stringptr*s=stringptrlist_get(l,i); VH_CHECK(s->size==strlen(src[i])&&!memcmp(s->ptr,src[i],s->size),"changed","entry %zu",i); int dup=s->ptr!=src[i]; VH_CHECK(dup==(r==-1||(ssize_t)i<r),"effect","dup_entries returned %zd but entry %zu is %sduplicated",r,i,dup?"":"not "); if(dup) free(s->ptr); } stringptrlist_free(l); }
static char *path; static bs filecontent; static size_t filelines;
static void mkfile(void) { if(!path) { path=xmalloc(strlen(vh_scratch())+20); sprintf(path,"%s/f",vh_scratch()); } size_t i; filelines=1+vh_below(20); filecontent.n=0; for(i=0;i<filelines;i++) { size_t z=vh_chance(1,8)?1000+vh_below(1500):vh_below(30); char b[2600]; vh_text(b,z,"abcd ",5); bs_put(&filecontent,b,z); bs_putc(&filecontent,'\n'); } FILE*f; extern FILE*fopen(const char*,const char*); int fd=creat(path,0600); if(fd<0||write(fd,filecontent.d,filecontent.n)!=(ssize_t)filecontent.n) vh_internal("write %s",path); close(fd); (void)f; }
static void s_splfile(void) { stringptrlist*l=stringptrlist_new(1+vh_below(4)); size_t pre=vh_below(3),i; int ok; mkfile(); for(i=0;i<pre;i++) stringptrlist_add_strdup(l,SPL("pre")); int fds=vh_fdcount();
	FAULT("stringptrlist_fromfile",ok=stringptrlist_fromfile(l,path)); RES(ok==1,ok==0,"%d",ok); size_t n=stringptrlist_getsize(l); VH_CHECK(n>=pre,"changed","entries lost"); if(ok) VH_CHECK(n==pre+filelines,"effect","fromfile reported success with %zu of %zu lines",n-pre,filelines); u8*q=filecontent.d; for(i=0;i<n;i++) { stringptr*s=stringptrlist_get(l,i); if(i<pre) VH_CHECK(EQ(s,SPL("pre")),"changed","entry"); else { u8*e=memchr(q,'\n',filecontent.d+filecontent.n-q); VH_CHECK(e&&s->size==(size_t)(e-q)&&!memcmp(s->ptr,q,s->size),"effect","line %zu differs",i-pre); q=e+1; } }
	VH_CHECK(vh_fdcount()==fds,"fd-leak","descriptor left open"); stringptrlist_freeall(l); }
static void tostr(int dos) { stringptrlist*l=stringptrlist_new(4); size_t n=vh_below(9),i; stringptr*r; bs w={0}; char src[9][40]; for(i=0;i<n;i++) { size_t z=vh_below(39); vh_text(src[i],z,"abcd",4); stringptrlist_add(l,src[i],z); bs_put(&w,src[i],z); if(dos) bs_putc(&w,'\r'); bs_putc(&w,'\n'); }
	if(dos) FAULT("stringptrlist_tostring_dos",r=stringptrlist_tostring_dos(l)); else FAULT("stringptrlist_tostring",r=stringptrlist_tostring(l)); RES(r!=0,r==0,"%p",(void*)r); if(r) VH_CHECK(r->size==w.n&&!memcmp(r->ptr,w.d?w.d:(u8*)"",w.n),"effect","wrong text"); VH_CHECK(stringptrlist_getsize(l)==n,"changed","size"); for(i=0;i<n;i++) VH_CHECK(stringptrlist_get(l,i)->ptr==src[i],"changed","entry"); stringptr_free(r); stringptrlist_free(l); bs_free(&w); }
static void s_tostr(void){tostr(0);} static void s_todos(void){tostr(1);}
/* ---- strings ---- */
static void s_spnew(void) { size_t n=vh_size(3000); stringptr*s; FAULT("stringptr_new",s=stringptr_new(n)); RES(s!=0,s==0,"%p",(void*)s); if(s) VH_CHECK(s->size==n&&s->ptr[n]==0,"effect","new"); stringptr_free(s); }
#define SARG mktxt(); char keep[300]; strcpy(keep,txt); stringptr a={txt,strlen(txt)}
#define SKEEP VH_CHECK(!strcmp(keep,txt)&&a.ptr==txt&&a.size==strlen(txt),"changed","%s changed its argument",nm)
static void s_copy(void) { SARG; stringptr*r; FAULT("stringptr_copy",r=stringptr_copy(&a)); RES(r!=0,r==0,"%p",(void*)r); SKEEP; if(r) VH_CHECK(EQ(r,&a),"effect","copy"); stringptr_free(r); }
static void s_concat(void) { SARG; stringptr*r; FAULT("stringptr_concat",r=stringptr_concat(&a,SPL("x"),&a,NULL)); RES(r!=0,r==0,"%p",(void*)r); SKEEP; if(r) VH_CHECK(r->size==2*a.size+1,"effect","concat"); stringptr_free(r); }
static void s_format(void) { SARG; stringptr*r; FAULT("stringptr_format",r=stringptr_format("%s-%d",txt,5)); RES(r!=0,r==0,"%p",(void*)r); SKEEP; if(r) VH_CHECK(r->size==a.size+2,"effect","format"); stringptr_free(r); }
static void s_strdup(void) { SARG; char*r; FAULT("stringptr_strdup",r=stringptr_strdup(&a)); RES(r!=0,r==0,"%p",(void*)r); SKEEP; if(r) VH_CHECK(!strcmp(r,txt),"effect","strdup"); free(r); }
static void s_strdupn(void) { SARG; char*r; size_t n=a.size?1+vh_below(a.size):0; if(!n) { strcpy(txt,"q"); strcpy(keep,"q"); a.size=1; n=1; } FAULT("strdup_n",r=strdup_n(txt,n)); RES(r!=0,r==0,"%p",(void*)r); SKEEP; if(r) VH_CHECK(!strncmp(r,txt,n)&&!r[n],"effect","strdup_n"); free(r); }
static void s_fromfile(void) { stringptr*r; mkfile(); int fds=vh_fdcount(); FAULT("stringptr_fromfile",r=stringptr_fromfile(path)); RES(r!=0,r==0,"%p",(void*)r); VH_CHECK(vh_fdcount()==fds,"fd-leak","descriptor left open"); if(r) VH_CHECK(r->size==filecontent.n&&!memcmp(r->ptr,filecontent.d,r->size),"effect","fromfile"); stringptr_free(r); }
static void split(int str) { SARG; size_t n=0,i,z=a.size; for(i=0;i<z;i++) if(txt[i]==',') n++; stringptrlist*r; if(str) FAULT("stringptr_splits",r=stringptr_splits(&a,SPL(","))); else FAULT("stringptr_splitc",r=stringptr_splitc(&a,',')); RES(r!=0,r==0,"%p",(void*)r); VH_CHECK(a.ptr==txt&&a.size==z,"changed","split changed its argument"); for(i=0;i<z;i++) VH_CHECK(txt[i]==keep[i]||(keep[i]==','&&!txt[i]),"changed","split changed byte %zu",i);
	if(r) { VH_CHECK(stringptrlist_getsize(r)==n+1,"effect","%s returned %zu of %zu pieces",nm,stringptrlist_getsize(r),n+1); char*p=txt; for(i=0;i<=n;i++) { stringptr*s=stringptrlist_get(r,i); size_t w=strcspn(keep+(p-txt),","); VH_CHECK(s->ptr==p&&s->size==w,"effect","piece %zu",i); p+=w+1; } stringptrlist_free(r); } }
static void s_splitc(void){split(0);} static void s_splits(void){split(1);}
static void s_replace(void) { SARG; size_t n=0,i,z=a.size; for(i=0;i<z;i++) if(txt[i]==',') n++; stringptr*r; FAULT("stringptr_replace",r=stringptr_replace(&a,SPL(","),SPL("<>"))); RES(r!=0,r==0,"%p",(void*)r); if(r) VH_CHECK(r->size==z+n,"effect","replace"); stringptr_free(r); }
/* ---- hash list, treap ---- */
static void s_hlnew(void) { hashlist*h; FAULT("hashlist_new",h=hashlist_new(1+vh_below(40),1+vh_below(20))); RES(h!=0,h==0,"%p",(void*)h); hashlist_free(h); }
static void s_hladd(void) { u32 nb=1+vh_below(4); hashlist*h=hashlist_new(nb,4); u32 m[40],hs[40]; size_t n=vh_below(30),i,j; int r; for(i=0;i<n;i++) { m[i]=vh_rnd(); hs[i]=vh_rnd(); VH_CHECK(hashlist_add(h,hs[i],&m[i])==0,"setup","add"); } m[n]=vh_rnd(); hs[n]=vh_rnd();
	FAULT("hashlist_add",r=hashlist_add(h,hs[n],&m[n])); RES(r==0,r==-1,"%d",r); size_t tot=n+(r==0);
	for(j=0;j<2;j++) { size_t cnt=0; for(u32 b=0;b<nb;b++) { sblist*l=hashlist_get(h,b); size_t k=0; if(l) for(i=0;i<tot;i++) if(hs[i]%nb==b) { VH_CHECK(sblist_get(l,k)&&!memcmp(sblist_get(l,k),&m[i],4),"changed","bucket %u entry %zu after hashlist_add",b,k); k++; } VH_CHECK((l?sblist_getsize(l):0)==k,"changed","bucket %u has %zu entries want %zu",b,l?sblist_getsize(l):0,k); cnt+=k; } VH_CHECK(cnt==tot,"changed","total"); hashlist_iterator it; hashlist_iterator_init(&it); size_t v=0; while(hashlist_next(h,&it)) v++; VH_CHECK(v==tot,"changed","iterator visits %zu of %zu",v,tot); if(!j) { if(r) { VH_CHECK(hashlist_add(h,hs[n],&m[n])==0,"unusable","hashlist_add"); tot=n+1; } else break; } }
	hashlist_free(h); }
static void s_tlnew(void) { tlist*t; FAULT("tlist_new",t=tlist_new(8)); RES(t!=0,t==0,"%p",(void*)t); if(t) tlist_free(t); }
static void tl(int app) { tlist*t=tlist_new(4); u32 m[64]; size_t n=vh_below(50),i,pos; int r; for(i=0;i<n;i++) { m[i]=vh_rnd(); VH_CHECK(tlist_append(t,&m[i])==1,"setup","append"); } u32 v=vh_rnd(); pos=app?n:vh_below(n+1);
	if(app) FAULT("tlist_append",r=tlist_append(t,&v)); else FAULT("tlist_insert",r=tlist_insert(t,pos,&v)); RES(r==1,r==0,"%d",r); if(!r) { VH_CHECK(tlist_getsize(t)==n,"changed","size"); for(i=0;i<n;i++) VH_CHECK(*(u32*)tlist_get(t,i)==m[i],"changed","item %zu",i); VH_CHECK(tlist_insert(t,pos,&v)==1,"unusable","insert"); } memmove(m+pos+1,m+pos,(n-pos)*4); m[pos]=v; n++; VH_CHECK(tlist_getsize(t)==n,"effect","size"); for(i=0;i<n;i++) VH_CHECK(*(u32*)tlist_get(t,i)==m[i],"effect","item %zu",i); tlist_free(t); }
static void s_tlins(void){tl(0);} static void s_tlapp(void){tl(1);}
/* ---- typed lists and maps ---- */
typedef struct { int a; char b[20]; } big; static int cmpi(const void*a,const void*b) { int x=*(int*)a,y=*(int*)b; return x<y?-1:x>y; }
static int cmpbig(const void*a,const void*b) { return cmpi(&((big*)a)->a,&((big*)b)->a); }
static void mkbig(big*b,int a) { memset(b,0,sizeof*b); vh_bytes(b->b,20); b->a=a; }
static void s_tgnew(void) { tglist(int)*l; FAULT("tglist_new",l=tglist_new()); RES(l!=0,l==0,"%p",(void*)l); if(l) tglist_free(l); }
static void tg(int w) { tglist(big)*l=tglist_new(); big m[40],v; size_t n=vh_chance(1,2)?(size_t[]){0,4,8,16,32}[vh_below(5)]:vh_below(34),i,pos; int ok; size_t r; for(i=0;i<n;i++) { mkbig(&m[i],i*2); VH_CHECK(tglist_add(l,m[i]),"setup","add"); } mkbig(&v,vh_below(2*n+2)); pos=w==0?n:w==1?vh_below(n+1):0;
	if(w==0) { FAULT("tglist_add",ok=tglist_add(l,v)); RES(ok==1,ok==0,"%d",ok); } else if(w==1) { FAULT("tglist_insert",ok=tglist_insert(l,v,pos)); RES(ok==1,ok==0,"%d",ok); } else { FAULT("tglist_insert_sorted",r=tglist_insert_sorted(l,v,cmpbig)); ok=r<=n; RES(ok,r==(size_t)-1,"%zu",r); pos=ok?r:0; }
	if(!ok) { VH_CHECK(tglist_getsize(l)==n,"changed","%s changed the size",nm); for(i=0;i<n;i++) VH_CHECK(!memcmp(&tglist_get(l,i),&m[i],sizeof v),"changed","%s item %zu",nm,i); VH_CHECK(tglist_insert(l,v,pos),"unusable","insert"); }
	memmove(m+pos+1,m+pos,(n-pos)*sizeof v); m[pos]=v; n++; VH_CHECK(tglist_getsize(l)==n,"effect","%s size",nm); for(i=0;i<n;i++) VH_CHECK(!memcmp(&tglist_get(l,i),&m[i],sizeof v),"effect","%s item %zu",nm,i); tglist_free(l); }
static void s_tgadd(void){tg(0);} static void s_tgins(void){tg(1);} static void s_tgss(void){tg(2);}
static void s_tginew(void) { tgilist(big,unsigned)*l; FAULT("tgilist_new",l=tgilist_new()); RES(l!=0,l==0,"%p",(void*)l); if(l) tgilist_free(l); }
static void tgi(int w) { tgilist(big,unsigned)*l=tgilist_new(); big m[60],v; size_t n=vh_chance(1,2)?(size_t[]){0,4,8,16,32}[vh_below(5)]:vh_below(34),i,pos; int ok; for(i=0;i<n;i++) { mkbig(&m[i],i*2); VH_CHECK(tgilist_add(l,m[i]),"setup","add"); }
	if(n&&vh_chance(1,3)) { size_t d=1+vh_below(n); while(d--) { pos=vh_below(n); tgilist_delete(l,pos); memmove(m+pos,m+pos+1,(n-pos-1)*sizeof v); n--; } }
	mkbig(&v,7); pos=w?vh_below(n+1):n;
	if(!w) { FAULT("tgilist_add",ok=tgilist_add(l,v)); } else { FAULT("tgilist_insert",ok=tgilist_insert(l,v,pos)); } RES(ok==1,ok==0,"%d",ok);
	if(!ok) { VH_CHECK(tgilist_getsize(l)==n,"changed","%s changed the size",nm); for(i=0;i<n;i++) VH_CHECK(!memcmp(&tgilist_get(l,i),&m[i],sizeof v),"changed","%s item %zu",nm,i); VH_CHECK(tgilist_insert(l,v,pos),"unusable","insert"); }
	memmove(m+pos+1,m+pos,(n-pos)*sizeof v); m[pos]=v; n++; VH_CHECK(tgilist_getsize(l)==n,"effect","%s size",nm); for(i=0;i<n;i++) VH_CHECK(!memcmp(&tgilist_get(l,i),&m[i],sizeof v),"effect","%s item %zu",nm,i);
	for(int q=0;q<3;q++) { mkbig(&v,q); VH_CHECK(tgilist_add(l,v),"unusable","add"); m[n++]=v; } for(i=0;i<n;i++) VH_CHECK(!memcmp(&tgilist_get(l,i),&m[i],sizeof v),"effect","later item %zu",i); tgilist_free(l); }
static void s_tgiadd(void){tgi(0);} static void s_tgiins(void){tgi(1);}
static void s_bmnew(void) { bmap(int,big)*b; FAULT("bmap_new",b=bmap_new(cmpi)); RES(b!=0,b==0,"%p",(void*)b); if(b) { bmap_fini(b,0); free(b); } }
#define BN 48
static void bm(int nocheck) { bmap(int,big)*b=bmap_new(cmpi); big mv[BN],v; char has[BN]={0}; size_t n=0,i,want=vh_chance(2,3)?(size_t[]){0,4,8,16,32}[vh_below(5)]:vh_below(34); ssize_t r; while(n<want) { int k=vh_below(BN); if(has[k]) continue; mkbig(&v,k); VH_CHECK(bmap_insert(b,k,v)>=0,"setup","insert"); has[k]=1; mv[k]=v; n++; }
	int key; do key=vh_below(BN); while(nocheck&&has[key]); mkbig(&v,1000); size_t ei=0; for(i=0;i<(size_t)key;i++) ei+=has[i];
	if(nocheck) FAULT("bmap_insert_nocheck",r=bmap_insert_nocheck(b,key,v)); else FAULT("bmap_insert",r=bmap_insert(b,key,v)); RES(r==(ssize_t)ei,r==-1,"%zd (key belongs at %zu)",r,ei);
	for(int pass=0;pass<2;pass++) { if(r>=0) { if(!has[key]) n++; has[key]=1; mv[key]=v; } VH_CHECK(bmap_getsize(b)==n,"changed","%s: size %zu want %zu",nm,(size_t)bmap_getsize(b),n); size_t j=0; for(int k=0;k<BN;k++) { ssize_t f=bmap_find(b,k); VH_CHECK(f==(has[k]?(ssize_t)j:-1),"changed","%s: key %d found at %zd",nm,k,f); if(has[k]) { VH_CHECK(!memcmp(&bmap_getval(b,j),&mv[k],sizeof v),"changed","%s: value of key %d changed",nm,k); j++; } } if(r>=0) break; r=bmap_insert(b,key,v); VH_CHECK(r==(ssize_t)ei,"unusable","insert after failure gave %zd",r); }
	bmap_fini(b,0); free(b); }
static void s_bmins(void){bm(0);} static void s_bmnc(void){bm(1);}
static unsigned hf(const int k) { return (unsigned)k*7; }
static void s_hbnew(void) { hbmap(int,big,7)*b; FAULT("hbmap_new",b=hbmap_new(cmpi,hf,7)); RES(b!=0,b==0,"%p",(void*)b); if(b) { hbmap_fini(b,0); free(b); } }
static void hb(int nocheck) { hbmap(int,big,3)*b=hbmap_new(cmpi,hf,3); big mv[BN],v; char has[BN]={0}; size_t n=0,want=vh_below(40); hbmap_iter r; int k; while(n<want) { k=vh_below(BN); if(has[k]) continue; mkbig(&v,k); r=hbmap_insert(b,k,v); VH_CHECK(r!=(hbmap_iter)-1,"setup","insert"); has[k]=1; mv[k]=v; n++; }
	int key; do key=vh_below(BN); while(nocheck&&has[key]); mkbig(&v,1000);
	if(nocheck) FAULT("hbmap_insert_nocheck",r=hbmap_insert_nocheck(b,key,v)); else FAULT("hbmap_insert",r=hbmap_insert(b,key,v)); RES(r!=(hbmap_iter)-1,r==(hbmap_iter)-1,"%llx",(unsigned long long)r);
	for(int pass=0;pass<2;pass++) { if(r!=(hbmap_iter)-1) { if(!has[key]) n++; has[key]=1; mv[key]=v; VH_CHECK(hbmap_iter_valid(b,r)&&hbmap_getkey(b,r)==key,"effect","%s: iterator does not designate the key",nm); } size_t c=0; hbmap_iter it; hbmap_foreach(b,it) c++; VH_CHECK(c==n,"changed","%s: %zu entries want %zu",nm,c,n); for(k=0;k<BN;k++) { hbmap_iter f=hbmap_find(b,k); VH_CHECK((f!=(hbmap_iter)-1)==has[k],"changed","%s: key %d presence",nm,k); if(has[k]) VH_CHECK(!memcmp(&hbmap_getval(b,f),&mv[k],sizeof v),"changed","%s: value of key %d changed",nm,k); } if(r!=(hbmap_iter)-1) break; r=hbmap_insert(b,key,v); VH_CHECK(r!=(hbmap_iter)-1,"unusable","insert after failure"); }
	hbmap_fini(b,0); free(b); }
static void s_hbins(void){hb(0);} static void s_hbnc(void){hb(1);}
/* ---- directory listing: glob's own failure is injected as well ---- */
static u64 globk; int __real_glob(const char*,int,int(*)(const char*,int),glob_t*);
int __wrap_glob(const char*p,int f,int(*e)(const char*,int),glob_t*g) { extern int vh_fault_point(void); if(vh_fault_point()) return GLOB_NOSPACE; return __real_glob(p,f,e,g); }
static char *dir; static size_t nfiles;
static void s_flist(void) {
	if(!dir) { dir=xmalloc(strlen(vh_scratch())+40); sprintf(dir,"%s/d",vh_scratch()); mkdir(dir,0700); char p[600]; nfiles=19; for(size_t i=0;i<nfiles;i++) { sprintf(p,"%s/file%02zu",dir,i); int fd=creat(p,0600); if(fd<0) vh_internal("creat"); close(fd); } }
	filelist fl; memset(&fl,0,sizeof fl); int r; int flags=vh_below(16); char mk[10]; int few=vh_chance(1,3); strcpy(mk,few?"file1*":"file*"); stringptr m={mk,strlen(mk)},d={dir,strlen(dir)};
	FAULT("filelist_search",r=filelist_search(&fl,&d,&m,flags)); RES(r==0,r==-1||r==GLOB_NOSPACE,"%d",r);
	if(!r) { size_t want=few?9:nfiles; if(!(flags&FLF_INCLUDE_HIDDEN)) want+=!!(flags&FLF_INCLUDE_DOT)+!!(flags&FLF_INCLUDE_DOT_DOT); VH_CHECK(stringptrlist_getsize(fl.files)==want,"effect","filelist_search succeeded with %zu of %zu entries (flags %d)",stringptrlist_getsize(fl.files),want,flags); filelist_free(&fl); }
}
static void (*const scn[])(void)={s_add,s_addi,s_ins,s_inss,s_inssr,s_new,s_newdata,s_kv,s_ptr,s_sladd,s_spladd,s_dup,s_splfile,s_tostr,s_todos,s_spnew,s_copy,s_concat,s_format,s_strdup,s_strdupn,s_fromfile,s_splitc,s_splits,s_replace,s_hlnew,s_hladd,s_tlnew,s_tlins,s_tlapp,s_tgnew,s_tgadd,s_tgins,s_tgss,s_tginew,s_tgiadd,s_tgiins,s_bmnew,s_bmins,s_bmnc,s_hbnew,s_hbins,s_hbnc,s_flist};
#define NS (sizeof scn/sizeof*scn)
static void enumerate(u64 idx) {
	u64 st[2]; vh_rng_get(st);
	for(int rep=0;rep<2;rep++) for(K=0;K<200;K++) {
		vh_rng_set(st); vh_fault_repeat=rep; vh_ledger_begin(); scn[idx%NS]();
		size_t live=vh_ledger_live(),bad=vh_ledger_badfree(); vh_ledger_end();
		VH_CHECK(live==0,"leak","%s with allocation %llu failing%s: %zu blocks lost",nm,(unsigned long long)K,rep?" persistently":"",live);
		VH_CHECK(!bad,"badfree","%s freed memory it does not own",nm);
		if(K&&!fired) break;
		if(fired) vh_seen(vh_hashu(K*2+rep,vh_hashu(idx%NS,st[0])));
	}
	vh_fault_repeat=0;
	vh_sample("%s: %llu failing allocation sites enumerated",nm,(unsigned long long)(K-1));
}
/* long histories in which allocations fail at random */
static void history(u64 idx) {
	size_t n=0,k,ops=vh_below(150); sblist*l=sblist_new(sizeof(big),1+vh_below(4)); stringptrlist*sl=stringptrlist_new(1+vh_below(4)); bmap(int,big)*b=bmap_new(cmpi); tgilist(big,unsigned)*g=tgilist_new(); tlist*t=tlist_new(sizeof(big));
	big m[200],gm[200],tm[200],bv[BN]; char has[BN]={0}; char*sm[200]; size_t bn=0,gn=0,tn=0,sn=0,i; big v; u64 sig=0; int f; stringptrlist_free(sl); vh_ledger_begin(); sl=stringptrlist_new(2);
	for(k=0;k<ops;k++) { mkbig(&v,k); int op=vh_below(6),r; vh_fault_arm(vh_chance(1,2)?1+vh_below(3):0); size_t pos;
		switch(op) {
		case 0: r=sblist_add(l,&v); f=vh_fault_fired(); VH_CHECK(r||f,"spurious","add"); if(r) m[n++]=v; break;
		case 1: { ssize_t q; int key=vh_below(BN); q=bmap_insert(b,key,v); f=vh_fault_fired(); VH_CHECK(q>=0||f,"spurious","bmap"); if(q>=0) { VH_CHECK((size_t)q<=bn&&bmap_getkey(b,q)==key,"effect","bmap index %zd",q); if(!has[key]) bn++; has[key]=1; bv[key]=v; } break; }
		case 2: pos=vh_below(gn+1); r=tgilist_insert(g,v,pos); f=vh_fault_fired(); VH_CHECK(r||f,"spurious","tgilist"); if(r) { memmove(gm+pos+1,gm+pos,(gn-pos)*sizeof v); gm[pos]=v; gn++; } break;
		case 3: pos=vh_below(tn+1); r=tlist_insert(t,pos,&v); f=vh_fault_fired(); VH_CHECK(r||f,"spurious","tlist"); if(r) { memmove(tm+pos+1,tm+pos,(tn-pos)*sizeof v); tm[pos]=v; tn++; } break;
		case 4: { char tx[20]; sprintf(tx,"s%zu",k); stringptr s={tx,strlen(tx)}; r=stringptrlist_add_strdup(sl,&s); f=vh_fault_fired(); VH_CHECK(r||f,"spurious","add_strdup"); if(r) { sm[sn]=xmalloc(20); strcpy(sm[sn++],tx); } break; }
		default: pos=vh_below(n+1); r=sblist_insert(l,&v,pos); f=vh_fault_fired(); VH_CHECK(r||f,"spurious","insert"); if(r) { memmove(m+pos+1,m+pos,(n-pos)*sizeof v); m[pos]=v; n++; } break;
		}
		vh_fault_disarm(); if(f) { VH_COUNT("faults in histories",1); sig=vh_hashu(k*8+op,sig); } VH_TRACE("op %d fault %d",op,f);
		VH_CHECK(sblist_getsize(l)==n&&bmap_getsize(b)==bn&&tgilist_getsize(g)==gn&&tlist_getsize(t)==tn&&stringptrlist_getsize(sl)==sn,"changed","a size is wrong after operation %d (fault %d)",op,f);
	}
	for(i=0;i<n;i++) VH_CHECK(!memcmp(sblist_get(l,i),&m[i],sizeof v),"changed","sblist item %zu",i);
	for(i=0;i<gn;i++) VH_CHECK(!memcmp(&tgilist_get(g,i),&gm[i],sizeof v),"changed","tgilist item %zu",i);
	for(i=0;i<tn;i++) VH_CHECK(!memcmp(tlist_get(t,i),&tm[i],sizeof v),"changed","tlist item %zu",i);
	for(i=0;i<sn;i++) { VH_CHECK(EQ(stringptrlist_get(sl,i),SPMAKE(sm[i],strlen(sm[i]))),"changed","string %zu",i); xfree(sm[i]); }
	for(int q=0;q<BN;q++) { ssize_t fnd=bmap_find(b,q); VH_CHECK((fnd>=0)==has[q],"changed","bmap key %d",q); if(has[q]) VH_CHECK(!memcmp(&bmap_getval(b,fnd),&bv[q],sizeof v),"changed","bmap value of %d",q); }
	sblist_free(l); bmap_fini(b,0); free(b); tgilist_free(g); tlist_free(t); stringptrlist_freeall(sl);
	if(sig) vh_seen(sig^0x77);
}
const vh_mode vh_modes[]={{"enumerate",enumerate,44*300,44*15000},{"history",history,8000,250000},{0}};
