/* random formats of supported directives with their arguments: F for the library, R for the C library */
static bs F,R; static u64 A[12]; static int na; static char*strs[12]; static int nstr; static int has; 
static void gen(void) {
	F.n=R.n=0; na=nstr=0; bs_put(&F,"",0); bs_put(&R,"",0); int parts=1+vh_below(vh_chance(1,5)?10:4),i; size_t longlit=vh_chance(1,12);
	for(i=0;i<parts;i++) {
		if(vh_chance(1,3)) { size_t n=longlit?vh_xsize(5000):vh_below(9); char*t=xmalloc(n+1); vh_text(t,n,"abc .-0x\n\x80l",11); bs_put(&F,t,n); bs_put(&R,t,n); xfree(t); }
		if(vh_chance(1,8)) { bs_puts(&F,"%%"); bs_puts(&R,"%%"); VH_COUNT("percent",1); continue; }
		if(na>=10) continue;
		char pr[8]=""; int prec=-1; if(vh_chance(1,3)) { prec=vh_chance(1,4)?vh_below(60):vh_below(14); if(vh_chance(1,10)) prec=vh_chance(1,3)?vh_lit()%5000:vh_below(300); if(vh_chance(1,2500)) { prec=65500+vh_below(4000); VH_COUNT("precision beyond 16 bits",1); } sprintf(pr,".%d",prec); if(prec>9&&vh_chance(1,9)) sprintf(pr,".0%d",prec); }
		u64 v=vh_u64val(); const char*d=0,*r=0; int k=vh_below(13);
		switch(k) {
		case 0: { size_t n=vh_chance(1,10)?vh_xsize(5000):vh_below(12); char*s=vh_gbuf(n+1); vh_text(s,n,"stuv%-0\xff\n",9); s[n]=0; strs[nstr++]=s; v=(u64)(uintptr_t)s; d=r="s"; pr[0]=0; VH_COUNT("%s",1); break; }
		case 1: d=r="c"; pr[0]=0; v=vh_below(256); if(vh_chance(1,6)) v=0; if(!(u8)v) VH_COUNT("%c of 0",1); if(vh_chance(1,9)) v|=0x100*vh_below(1<<16); VH_COUNT("%c",1); break;
		case 2: case 3: d=r="d"; v=(u32)v; VH_COUNT("%d",1); if((int)v<0&&pr[0]) VH_COUNT("negative with precision",1); if(!(int)v&&prec==0) VH_COUNT("zero with precision 0",1); break;
		case 4: d=r="u"; v=(u32)v; VH_COUNT("%u",1); break; case 5: d=r="x"; v=(u32)v; VH_COUNT("%x",1); break; case 6: d=r="X"; v=(u32)v; VH_COUNT("%X",1); break;
		case 7: d="p"; r="lX"; VH_COUNT("%p",1); break; case 8: d=r="ld"; VH_COUNT("long",1); if((long)v<0&&pr[0]) VH_COUNT("negative with precision",1); break; case 9: d=r="lu"; VH_COUNT("long",1); break; case 10: d=r="lld"; VH_COUNT("long long",1); break; case 11: d=r="llu"; VH_COUNT("long long",1); break; default: d=r=vh_chance(1,2)?"zu":"zd"; VH_COUNT("size_t",1); }
		if(pr[0]) VH_COUNT("precision",1);
		bs_putc(&F,'%'); bs_puts(&F,pr); bs_puts(&F,d); bs_putc(&R,'%'); bs_puts(&R,pr); bs_puts(&R,r); A[na++]=v;
	}
	for(i=na;i<12;i++) A[i]=0xdeadbeefcafe0000ull+i;
}
#define ARGS A[0],A[1],A[2],A[3],A[4],A[5],A[6],A[7],A[8],A[9],A[10],A[11]
