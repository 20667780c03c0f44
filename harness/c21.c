/* C21: filelist_search vs. an independent readdir+fnmatch enumeration of generated directories */
#include "vh.h"
#include "filelist.h"
#include <stdio.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <dirent.h>
#include <fnmatch.h>
#include <sys/stat.h>
#include <fcntl.h>
const char *const vh_rule="random directories (0..14 entries of every kind, names from an alphabet rich in glob characters, backslashes, spaces and dots; directory names likewise, also nested, with trailing or repeated slashes, NULL, empty) searched with random masks and all option combinations; result list vs. own readdir+fnmatch enumeration; distinct = hash of directory name, contents, mask and options";
const char *const vh_required[]={"searches with matches","searches without match","missing directory","directory name with glob characters","directory name with backslash","current directory","hidden entries listed","dot entries requested","path stripped","subdirectories marked","over-long refused","names with dots at their ends","long path searched","mask with escape","mask with bracket","beyond 16 bits","names of up to 255 bytes",0};
static const char AL[]="aab*[]?\\ .-~{}!b$^c";
static void rname(char*o,int nodot) { size_t n=1+vh_below(vh_chance(1,12)?200:7),i; for(;;) { for(i=0;i<n;i++) o[i]=vh_chance(1,40)?(char)(128+vh_below(127)):AL[vh_below(sizeof AL-1)]; o[n]=0; if(nodot&&o[0]=='.') o[0]='a'; if(strcmp(o,".")&&strcmp(o,"..")) return; } }
static char root[600];
static void rmtree(const char*p) { DIR*d=opendir(p); struct dirent*e; char b[5000]; if(!d) { unlink(p); return; } while((e=readdir(d))) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")) { snprintf(b,sizeof b,"%s/%s",p,e->d_name); struct stat st; if(!lstat(b,&st)&&S_ISDIR(st.st_mode)) rmtree(b); else unlink(b); } closedir(d); rmdir(p); }
void vh_setup(void) { snprintf(root,600,"%s/r",vh_scratch()); mkdir(root,0700); if(chdir(root)) vh_internal("chdir"); }
typedef struct { char n[300]; int dir; } ent;
static int cmpn(const void*a,const void*b) { return strcmp(((const ent*)a)->n,((const ent*)b)->n); }
static int cmpm(const void*a,const void*b) { char x[302],y[302]; const ent*p=a,*q=b; snprintf(x,302,"%s%s",p->n,p->dir?"/":""); snprintf(y,302,"%s%s",q->n,q->dir?"/":""); return strcmp(x,y); }
static int isdots(const char*n) { return !strcmp(n,".")||!strcmp(n,".."); }
static void mkmask(char*m,ent*E,int ne) {
	static const char *const C[]={"*","*","*","?*","*a*","*.*","[!a]*","[a-c]*","*[b]","??","a*","*\\**","*\\\\*","\\[*",".*","*?","***","[]a]*","*[!]]"};
	size_t i,o=0; if(vh_chance(2,5)) { strcpy(m,C[vh_below(sizeof C/sizeof*C)]); return; }
	if(ne&&vh_chance(1,2)) { /* name of an entry, escaped, maybe with a part replaced */ const char*n=E[vh_below(ne)].n; int esc=vh_chance(3,4); for(i=0;n[i]&&o<250;i++) { if(esc&&vh_chance(1,8)) { m[o++]=vh_chance(1,2)?'*':'?'; continue; } if(esc&&strchr("*?[\\",n[i])) m[o++]='\\'; if(!esc&&n[i]=='\\') { m[o++]='?'; continue; } m[o++]=n[i]; } m[o]=0; return; }
	size_t n=1+vh_below(6); for(i=0;i<n;i++) { char c="ab*?[]!- .*"[vh_below(11)]; if(vh_chance(1,10)) { m[o++]='\\'; c="*?[]a\\"[vh_below(6)]; } m[o++]=c; } m[o]=0;
}
static void search(u64 idx) {
	char dn[5000],mask[700]; static ent E[64]; int ne=0,i,j; char*g; int here=vh_chance(1,8),exist=1; u64 sig=1; struct stat st;
	rmtree(root); if(mkdir(root,0700)&&errno!=EEXIST) vh_internal("mkdir"); if(chdir(root)) vh_internal("chdir");
	/* decoy siblings, so that a misread pattern has something to match */
	static const char *const D[]={"a","b","ab","aa","ba"}; for(i=0;i<5;i++) if(vh_chance(1,2)) { mkdir(D[i],0700); char p[40]; snprintf(p,40,"%s/a",D[i]); close(open(p,O_CREAT|O_WRONLY,0600)); }
	if(here) strcpy(dn,"."); else { rname(dn,0); mkdir(dn,0700); if(stat(dn,&st)||!S_ISDIR(st.st_mode)) vh_internal("mkdir of %s",vh_esc(dn,strlen(dn))); if(vh_chance(1,4)) { size_t l=strlen(dn); dn[l]='/'; rname(dn+l+1,0); mkdir(dn,0700); if(stat(dn,&st)||!S_ISDIR(st.st_mode)) dn[l]=0; } if(vh_chance(1,5)) { char t[5000]; snprintf(t,5000,"%s/%s",root,dn); strcpy(dn,t); } }
	/* contents */
	int want=vh_below(vh_chance(1,3)?3:14); char p[6000];
	for(i=0;i<want;i++) { char n[300]; rname(n,0); if(vh_chance(1,5)) { static const char*const S[]={"a.","b..",".a.","..a","...","x...","..a..",".-.","a","b"}; strcpy(n,S[vh_below(10)]); VH_COUNT("names with dots at their ends",1); } if(vh_chance(1,30)) { size_t z=strlen(n),w=251+vh_below(5); while(z<w) n[z++]="ab."[vh_below(3)]; n[w]=0; VH_COUNT("names of up to 255 bytes",1); } snprintf(p,6000,"%s/%s",dn,n); switch(vh_below(6)) { case 0: case 1: mkdir(p,0700); break; case 2: symlink(vh_chance(1,2)?".":"nowhere/x",p); break; default: j=open(p,O_CREAT|O_WRONLY,0600); if(j>=0) close(j); } }
	DIR*d=opendir(dn); struct dirent*e; if(!d) vh_internal("opendir"); while((e=readdir(d))) { snprintf(E[ne].n,300,"%s",e->d_name); snprintf(p,6000,"%s/%s",dn,e->d_name); E[ne].dir=!stat(p,&st)&&S_ISDIR(st.st_mode); ne++; } closedir(d);
	mkmask(mask,E,ne); if(strlen(mask)<1) strcpy(mask,"*"); int flags=vh_below(16);
	/* spelling of the directory argument */
	int null=0,anyprefix=0; size_t l=strlen(dn); if(here) { switch(vh_below(4)) { case 0: null=1; break; case 1: dn[0]=0; l=0; break; case 2: strcpy(dn,"./"); l=2; break; } VH_COUNT("current directory",1); }
	if(l&&dn[l-1]!='/'&&vh_chance(1,2)) { dn[l++]='/'; dn[l]=0; if(vh_chance(1,8)) { dn[l++]='/'; dn[l]=0; anyprefix=1; } }
	if(l&&vh_chance(1,15)) { if(dn[l-1]!='/') { dn[l++]='/'; } size_t tgt=vh_chance(1,2)?3000+vh_below(650):vh_below(3000); while(l<tgt) { dn[l++]='.'; dn[l++]='/'; } dn[l]=0; VH_COUNT("long path searched",1); }
	if(!here&&vh_chance(1,15)) { exist=0; dn[0]='c'; snprintf(dn,5000,"no such dir %d%s",(int)vh_below(9),vh_chance(1,2)?"/":""); l=strlen(dn); }
	g=vh_rdup(dn,l); /* not zero-terminated: the size counts */ stringptr ds={g,l}; size_t ml=strlen(mask); char*mg=vh_rdup(mask,ml); stringptr ms={mg,ml};
	if(strpbrk(dn,"*?[")) VH_COUNT("directory name with glob characters",1); if(strchr(dn,'\\')) VH_COUNT("directory name with backslash",1); if(strchr(mask,'\\')) VH_COUNT("mask with escape",1); if(strchr(mask,'[')) VH_COUNT("mask with bracket",1);
	sig=vh_hash(dn,l,vh_hash(mask,ml,sig)); sig=vh_hashu(flags,sig); for(i=0;i<ne;i++) sig=vh_hash(E[i].n,strlen(E[i].n),sig);
	/* model */
	static ent M[64]; int nm=0,raw=0; int hid=flags&FLF_INCLUDE_HIDDEN; int xdot=!hid&&(mask[0]=='.'||(mask[0]=='\\'&&mask[1]=='.')); if(exist) for(i=0;i<ne;i++) { int r=fnmatch(mask,E[i].n,hid?0:FNM_PERIOD); if(r) continue; raw++; if(isdots(E[i].n)) { if(xdot) continue; if(!(flags&(E[i].n[1]?FLF_INCLUDE_DOT_DOT:FLF_INCLUDE_DOT))) continue; } M[nm++]=E[i]; }
	filelist fl; memset(&fl,0xa5,sizeof fl); int r=filelist_search(&fl,null?0:&ds,&ms,flags);
	VH_TRACE("dir %s mask %s flags %d: %d (%d expected)",vh_esc(dn,l>100?100:l),vh_esc(mask,ml),flags,r,nm);
	if(!exist) { VH_CHECK(r!=0,"missing-dir","search in a missing directory succeeds"); VH_COUNT("missing directory",1); }
	else if(!raw) { VH_CHECK(r==GLOB_NOMATCH,"nomatch","nothing matches %s in %s, but the result is %d (%zu entries)",vh_esc(mask,ml),vh_esc(dn,l>100?100:l),r,r?0:stringptrlist_getsize(fl.files)); VH_COUNT("searches without match",1); }
	else {
		VH_CHECK(r==0,"fails","%d entries match %s in %s, but the search gives %d",raw,vh_esc(mask,ml),vh_esc(dn,l>100?100:l),r); VH_COUNT("searches with matches",1);
		size_t n=stringptrlist_getsize(fl.files),k=0; static ent G[80]; int ng=0;
		if(!hid) { if(flags&FLF_INCLUDE_DOT) { stringptr*s=stringptrlist_get(fl.files,k++); VH_CHECK(s&&s->size==2&&!memcmp(s->ptr,"./",2),"dot","'./' requested but not first in the list"); } if(flags&FLF_INCLUDE_DOT_DOT) { stringptr*s=stringptrlist_get(fl.files,k++); VH_CHECK(s&&s->size==3&&!memcmp(s->ptr,"../",3),"dotdot","'../' requested but not in its place"); } }
		if(flags&3) VH_COUNT("dot entries requested",1); if(flags&FLF_EXCLUDE_PATH) VH_COUNT("path stripped",1);
		const char*pre=null||!l?"./":dn; size_t pl=strlen(pre); int addsl=pre[pl-1]!='/';
		for(;k<n;k++) { stringptr*s=stringptrlist_get(fl.files,k); const char*q=s->ptr; size_t z=s->size; VH_CHECK(q[z]==0&&strlen(q)==z,"size","entry %zu: size %zu is not that of its string",k,z);
			int sl=z&&q[z-1]=='/'; if(sl) z--; size_t b=z; while(b&&q[b-1]!='/') b--;
			if(flags&FLF_EXCLUDE_PATH) VH_CHECK(b==0,"path-left","path not stripped from %s",vh_esc(q,z)); else if(!anyprefix) VH_CHECK(b==pl+addsl&&!memcmp(q,pre,pl),"prefix","entry %s does not start with the directory %s",vh_esc(q,z>200?200:z),vh_esc(pre,pl>100?100:pl));
			VH_CHECK(z-b<300&&z>b,"name","entry without a name"); memcpy(G[ng].n,q+b,z-b); G[ng].n[z-b]=0; G[ng].dir=sl; if(xdot&&isdots(G[ng].n)) continue; ng++; VH_CHECK(ng<70,"too-many","more entries than the directory has"); if(sl) VH_COUNT("subdirectories marked",1); if(hid&&q[b]=='.'&&!isdots(G[ng-1].n)) VH_COUNT("hidden entries listed",1); }
		int s1=1,s2=1; for(i=1;i<ng;i++) { if(cmpn(&G[i-1],&G[i])>0) s1=0; if(cmpm(&G[i-1],&G[i])>0) s2=0; } VH_CHECK(s1||s2,"order","list is not sorted");
		qsort(G,ng,sizeof*G,cmpn); qsort(M,nm,sizeof*M,cmpn); for(i=0,j=0;i<nm||j<ng;) { int c=i==nm?1:j==ng?-1:strcmp(M[i].n,G[j].n); VH_CHECK(c>=0,"omitted","%s matches %s but is not listed (flags %d)",vh_esc(M[i].n,strlen(M[i].n)),vh_esc(mask,ml),flags); VH_CHECK(c<=0,"extra","%s is listed for mask %s, flags %d (or twice)",vh_esc(G[j].n,strlen(G[j].n)),vh_esc(mask,ml),flags); VH_CHECK(M[i].dir==G[j].dir,"mark","%s: trailing slash %d, directory %d",vh_esc(M[i].n,strlen(M[i].n)),G[j].dir,M[i].dir); i++; j++; }
		filelist_free(&fl);
	}
	VH_CHECK(!memcmp(g,dn,l)&&!memcmp(mg,mask,ml),"modified","argument modified");
	vh_seen(sig); vh_sample("dir %s mask %s flags %d: %d of %d entries",vh_esc(dn,l>60?60:l),vh_esc(mask,ml),flags,nm,ne); vh_gfree(g); vh_gfree(mg);
}
static void overlong(u64 idx) {
	if(chdir(root)) vh_internal("chdir"); size_t dl=vh_chance(1,6)?1+vh_below(9000):vh_chance(1,2)?4080+vh_below(24):2030+vh_below(30); size_t ml=1+vh_below(vh_chance(1,4)?4200:20); char*g=vh_gbuf(dl),*m=vh_gbuf(ml); int sp=vh_below(3); size_t esc=dl,i; for(i=0;i<dl;i++) { g[i]=sp==0?'a':sp==1?"*?[\\"[vh_below(4)]:"a/*b[\\."[vh_below(7)]; if(strchr("*?[\\",g[i])) esc++; } memset(m,'x',ml); if(vh_chance(1,2)) m[0]='*';
	stringptr d={g,dl},ms={m,ml}; filelist fl; int r=filelist_search(&fl,&d,&ms,vh_below(16)); size_t tot=esc+(g[dl-1]!='/')+ml; VH_TRACE("dir %zu (escaped %zu) mask %zu: %d",dl,esc,ml,r);
	if(tot>=PATH_MAX) { VH_CHECK(r==-1,"overlong","a path of %zu bytes is not refused: %d",tot,r); VH_COUNT("over-long refused",1); } else if(r==0) filelist_free(&fl); if(tot<4000) VH_CHECK(r!=-1,"refused","path of %zu bytes refused",tot);
	if(vh_chance(1,8)) { stringptr e={m,0}; VH_CHECK(filelist_search(&fl,&d,&e,0)==-1&&filelist_search(&fl,&d,0,0)==-1&&filelist_search(0,&d,&ms,0)==-1,"args","missing argument accepted"); }
	vh_seen(vh_hashu(dl,vh_hashu(ml,esc))); vh_gfree(g); vh_gfree(m);
}
/* more entries than fit 16 bits, all listed, in order */
static void many(u64 idx) {
	rmtree(root); if(mkdir(root,0700)&&errno!=EEXIST) vh_internal("mkdir"); if(chdir(root)) vh_internal("chdir"); if(mkdir("big",0700)) vh_internal("mkdir big"); int n=65500+vh_below(60)+(int)(idx%4==3?65536:0),i,k; char b[60]; static u8 dir[140000]; u64 sig=n;
	for(i=0;i<n;i++) { vh_tick(); snprintf(b,60,"big/f%06d",i); dir[i]=i>n-3||vh_chance(1,997); if(dir[i]) { if(mkdir(b,0700)) vh_internal("mkdir %s",b); } else { int fd=open(b,O_CREAT|O_WRONLY,0600); if(fd<0) vh_internal("create %s",b); close(fd); } }
	for(k=0;k<4;k++) { int flags=k==0?0:k==1?FLF_EXCLUDE_PATH:(int)vh_below(16),sub=k==3; stringptr ds={"big",3},ms={sub?"f0*":"f*",sub?3:2}; filelist fl; int r=filelist_search(&fl,&ds,&ms,flags); VH_CHECK(r==0,"fails","search among %d entries gives %d",n,r); int want=sub&&n>100000?100000:n,hid=flags&FLF_INCLUDE_HIDDEN; size_t o=hid?0:!!(flags&FLF_INCLUDE_DOT)+!!(flags&FLF_INCLUDE_DOT_DOT); VH_CHECK(stringptrlist_getsize(fl.files)==want+o,"omitted","%zu of %zu entries listed (flags %d)",stringptrlist_getsize(fl.files),want+o,flags);
		for(i=0;i<want;i++) { stringptr*s=stringptrlist_get(fl.files,i+o); int z=snprintf(b,60,"%sf%06d%s",flags&FLF_EXCLUDE_PATH?"":"big/",i,dir[i]?"/":""); VH_CHECK(s->size==(size_t)z&&!strcmp(s->ptr,b),"order","entry %d of %d is %s, expected %s",i,want,vh_esc(s->ptr,s->size),b); } filelist_free(&fl); sig=vh_hashu(flags,sig); vh_tick(); }
	VH_COUNT("beyond 16 bits",1); vh_seen(sig); rmtree("big");
}
const vh_mode vh_modes[]={{"many",many,1,12},{"search",search,20000,400000},{"overlong",overlong,6000,100000},{0}};
