// Assembler and disassembler against a reference encoding of each line, and against damaged bytecode.
// BOTH ops   -DMODE=0 time=300 reach=ok
// QUICK labels -DMODE=1 -DN=4 time=300 reach=ok,bad
// BOTH ints  -DMODE=2 -DN=10 time=400 reach=ok
// QUICK strs  -DMODE=3 -DN=4 time=300 reach=ok
// QUICK any   -DMODE=4 -DN=4 time=400 reach=ok,bad
// QUICK list1 -DMODE=5 -DN=1 -DMS=1 -DFEW=0 time=400 reach=ok,bad
// QUICK list2  -DMODE=5 -DN=2 -DMS=1 -DFEW=1 time=400 reach=ok,bad
// THOROUGH floats -DMODE=6 -DFD=4 time=1500
// QUICK floats -DMODE=6 -DFD=2 time=300 reach=ok
// BOTH big -DMODE=7 time=300 reach=ok
// THOROUGH labels -DMODE=1 -DN=5 time=1500
// THOROUGH strs  -DMODE=3 -DN=6 time=1500
// THOROUGH any   -DMODE=4 -DN=5 time=3000
// THOROUGH list  -DMODE=5 -DN=2 -DMS=2 -DFEW=0 time=3000
#include "vmh.h"
#include <stdio.h>
static const struct { const char* s; int op, arg; } OPS[]={{"nop",BUZZVM_INSTR_NOP,0},{"done",BUZZVM_INSTR_DONE,0},{"pushnil",BUZZVM_INSTR_PUSHNIL,0},{"dup",BUZZVM_INSTR_DUP,0},{"pop",BUZZVM_INSTR_POP,0},{"ret0",BUZZVM_INSTR_RET0,0},{"ret1",BUZZVM_INSTR_RET1,0},{"add",BUZZVM_INSTR_ADD,0},{"sub",BUZZVM_INSTR_SUB,0},{"mul",BUZZVM_INSTR_MUL,0},{"div",BUZZVM_INSTR_DIV,0},{"mod",BUZZVM_INSTR_MOD,0},{"pow",BUZZVM_INSTR_POW,0},{"unm",BUZZVM_INSTR_UNM,0},{"land",BUZZVM_INSTR_LAND,0},{"lor",BUZZVM_INSTR_LOR,0},{"lnot",BUZZVM_INSTR_LNOT,0},{"band",BUZZVM_INSTR_BAND,0},{"bor",BUZZVM_INSTR_BOR,0},{"bnot",BUZZVM_INSTR_BNOT,0},{"lshift",BUZZVM_INSTR_LSHIFT,0},{"rshift",BUZZVM_INSTR_RSHIFT,0},{"eq",BUZZVM_INSTR_EQ,0},{"neq",BUZZVM_INSTR_NEQ,0},{"gt",BUZZVM_INSTR_GT,0},{"gte",BUZZVM_INSTR_GTE,0},{"lt",BUZZVM_INSTR_LT,0},{"lte",BUZZVM_INSTR_LTE,0},{"gload",BUZZVM_INSTR_GLOAD,0},{"gstore",BUZZVM_INSTR_GSTORE,0},{"pusht",BUZZVM_INSTR_PUSHT,0},{"tput",BUZZVM_INSTR_TPUT,0},{"tget",BUZZVM_INSTR_TGET,0},{"callc",BUZZVM_INSTR_CALLC,0},{"calls",BUZZVM_INSTR_CALLS,0},
 {"pushf",BUZZVM_INSTR_PUSHF,2},{"pushi",BUZZVM_INSTR_PUSHI,1},{"pushs",BUZZVM_INSTR_PUSHS,1},{"pushcn",BUZZVM_INSTR_PUSHCN,1},{"pushcc",BUZZVM_INSTR_PUSHCC,1},{"pushl",BUZZVM_INSTR_PUSHL,1},{"lload",BUZZVM_INSTR_LLOAD,1},{"lstore",BUZZVM_INSTR_LSTORE,1},{"lremove",BUZZVM_INSTR_LREMOVE,1},{"jump",BUZZVM_INSTR_JUMP,3},{"jumpz",BUZZVM_INSTR_JUMPZ,3},{"jumpnz",BUZZVM_INSTR_JUMPNZ,3}};
#define NOPS ((int)(sizeof OPS/sizeof *OPS))
static char t[8192]; static int n; static uint8_t e[4096]; static int m; static uint8_t* bc; static uint32_t sz; static buzzdebug_t d;
static void s(const char* x) { while (*x) t[n++]=*x++; }
static void b(int x) { e[m++]=(uint8_t)x; }
static void w(const void* p) { memcpy(e+m,p,4); m+=4; }
static void wi(int32_t v) { w(&v); }
static int as(void) { __vf_file_put("t.basm",t,(size_t)n); d=NULL; bc=NULL; sz=0; return buzz_asm("t.basm",&bc,&sz,&d); }
static void same(void) { VF_ASSERTM((int)sz==m,"size of the bytecode"); if ((int)sz!=m) return; for (int i=0;i<m;++i) VF_ASSERTM(bc[i]==e[i],"each byte of the bytecode"); __vf_out(sz); __vf_reach("ok"); }
static void ok(void) { int rc=as(); VF_ASSERTM(rc==0,"well-formed assembly is accepted"); if (!rc) same(); }
static int rd16(const uint8_t* p) { uint16_t x; memcpy(&x,p,2); return x; }
void vf_main(void) {
#if MODE==0
  static const char* SP[]={""," ","\t","  \t"}; static const char* CM[]={"","# comment\n","\n  \n","\t|3,4,f.bzz\n"}; const uint16_t two=2; int k=vf_choose(0,NOPS-1,"op"), a=vf_choose(0,3,"space"), c=vf_choose(0,2,"comment");
  s(CM[c]); s("!2\n'a\n'b c\n"); memcpy(e,&two,2); m=2; b('a'); b(0); b('b'); b(' '); b('c'); b(0); s(CM[c]); s("@L1\n\tnop\n"); b(BUZZVM_INSTR_NOP); s(SP[a]); s(OPS[k].s); b(OPS[k].op);
  if (OPS[k].arg==1) { s(vf_choose(0,1,"tab")?"\t":" "); int q=vf_choose(0,2,"arg"); s(q==0?"-7":q==1?"2147483647":"@L1"); wi(q==0?-7:q==1?2147483647:8); } else if (OPS[k].arg==2) { s(" 1.5"); float f=1.5f; w(&f); } else if (OPS[k].arg==3) { s(" @L2"); wi(14); }
  s(SP[a]); s(vf_choose(0,1,"dbg")?"|3,4,f.bzz\n":"\n"); if (OPS[k].arg!=3) { s("jumpz @L2\n"); b(BUZZVM_INSTR_JUMPZ); wi(m+4); } s("@L2\ndone\n"); b(BUZZVM_INSTR_DONE); ok();
#elif MODE==1
  /* labels and references in every order; a reference needs a label in front of some byte of code */
  int pos[3]={-1,-1,-1}, use[8], at[8], nu=0, num=0; s("!0\n"); b(0); b(0);
  for (int i=0;i<N;++i) { int k=vf_choose(0,9,"line"); switch (k) { case 9: s("\tjumpnz 3\n"); b(BUZZVM_INSTR_JUMPNZ); wi(3); num=1; break;
    case 0: s("@a\n"); pos[0]=m; break; case 1: s("@ab|1,2,f\n"); pos[1]=m; break; case 2: s("\tjump @a\n"); b(BUZZVM_INSTR_JUMP); use[nu]=0; at[nu++]=m; wi(0); break; case 3: s("\tjumpz @ab\n"); b(BUZZVM_INSTR_JUMPZ); use[nu]=1; at[nu++]=m; wi(0); break;
    case 4: s("\tpushcn @a\n"); b(BUZZVM_INSTR_PUSHCN); use[nu]=0; at[nu++]=m; wi(0); break; case 5: s("\tpushi 300\n"); b(BUZZVM_INSTR_PUSHI); wi(300); break; case 6: s("dup\n"); b(BUZZVM_INSTR_DUP); break; case 7: s("\tjumpnz @\n"); b(BUZZVM_INSTR_JUMPNZ); use[nu]=2; at[nu++]=m; wi(0); break; case 8: s("@ \n"); pos[2]=m; break; } }
  int bad=num; for (int i=0;i<nu;++i) { int p=pos[use[i]]; if (p<0||p>=m) bad=1; else memcpy(e+at[i],&p,4); }
  int rc=as(); VF_ASSERTM((rc!=0)==bad,"rejected exactly when a label has no code"); if (!rc&&!bad) same(); if (bad) __vf_reach("bad");
#elif MODE==2
  /* every decimal integer that fits */
  static const int A[]={36,37,38,39,40,41,42,43}; int k=A[vf_choose(0,7,"op")], neg=vf_choose(0,1,"neg"), l=vf_choose(1,N,"digits"); uint64_t v=0; s("!0\n\t"); b(0); b(0); s(OPS[k].s); s(" "); if (neg) s("-");
  for (int i=0;i<l;++i) { uint8_t c=vf_u8("d"); __vf_assume(c>='0'&&c<='9'); int x=(int)c-'0'; if (i==9) __vf_assume(v*10+x<=2147483647u); t[n++]=(char)c; v=v*10+(unsigned long)x; } s("\n"); b(OPS[k].op); wi((int32_t)(uint32_t)(neg?0-v:v)); ok();
#elif MODE==3
  /* strings of any bytes: the text up to the end of the line, with \n and \\ escaped; disassembling gives the same strings */
  static uint8_t x[N]; int l=vf_choose(0,N,"len"); s(vf_choose(0,1,"space")?"!2\n  'q\n\t'":"!2\n'q\n'"); b(2); b(0); b('q'); b(0);
  for (int i=0;i<l;++i) { x[i]=vf_u8("c"); __vf_assume(x[i]!=0); b(x[i]); if (x[i]=='\n') s("\\n"); else if (x[i]=='\\') s("\\\\"); else t[n++]=(char)x[i]; } s("\n nop\n"); b(0); b(BUZZVM_INSTR_NOP); ok();
  int rc=buzz_deasm(bc,sz,d,"t.txt"); VF_ASSERTM(rc==0,"and disassembled"); char* o; size_t ol; VF_ASSERTM(__vf_file_get("t.txt",(void**)&o,&ol),"listing written"); int p=6; VF_ASSERTM(ol>=6&&!memcmp(o,"!2\n'q\n",6),"count and first string"); VF_ASSERTM(o[p++]=='\'',"a string");
  for (int i=0;i<l;++i) { if (x[i]=='\n'||x[i]=='\\') { VF_ASSERTM(o[p++]=='\\',"escape"); VF_ASSERTM(o[p++]==(x[i]=='\n'?'n':'\\'),"escaped character"); } else { VF_ASSERTM(o[p++]==(char)x[i],"character"); } } VF_ASSERTM(o[p++]=='\n',"end of the string");
#elif MODE==4
  /* any line: accepted or rejected without misbehaving; an accepted instruction exists */
  static char x[N]; int l=vf_choose(0,N,"len"); s("!0\n"); for (int i=0;i<l;++i) { x[i]=(char)vf_u8("c"); __vf_assume(x[i]!=0); t[n++]=x[i]; } if (vf_choose(0,1,"more")) s("\nnop\n"); int rc=as(); VF_ASSERTM(rc==0||rc==2,"accepted or rejected");
  if (rc) { __vf_reach("bad"); return; } VF_ASSERTM(sz>=2&&sz<64,"something sensible"); int i=0; for (;;) { while (i<l&&(x[i]==' '||(x[i]>=9&&x[i]<=13))) ++i; if (i==l||x[i]!='#') break; while (i<l&&x[i]!='\n') ++i; }
  if (i<l&&x[i]!='@'&&x[i]!='!'&&x[i]!='\'') { int j=0, f=0; char q[N+1]; while (i<l&&x[i]!=' '&&x[i]!='\t'&&x[i]!='\n'&&x[i]!='|'&&!(x[i]>=11&&x[i]<=13)) q[j++]=x[i++]; q[j]=0; for (int k=0;k<NOPS;++k) if (!strcmp(q,OPS[k].s)) f=1; VF_ASSERTM(f,"an unknown instruction is rejected"); } __vf_reach("ok");
#elif MODE==5
  /* any bytecode, possibly cut short: the listing of its strings and instructions, or a rejection */
  static const uint8_t FW[]={BUZZVM_INSTR_NOP,BUZZVM_INSTR_CALLS,BUZZVM_INSTR_PUSHF,BUZZVM_INSTR_PUSHI,BUZZVM_INSTR_PUSHL,BUZZVM_INSTR_JUMPNZ,BUZZVM_INSTR_COUNT,255};
  static uint8_t x[64]; static char q[512]; int l=2, qn=0, bad=0, ns=vf_choose(0,MS,"strings"); x[0]=(uint8_t)ns; x[1]=0; for (int i=0;i<ns;++i) { int c=vf_choose(0,2,"len"); while (c--) { uint8_t z=vf_u8("s"); __vf_assume(z!=0); x[l++]=z; } x[l++]=0; }
  int ni=vf_choose(0,N,"instructions"); for (int i=0;i<ni;++i) { uint8_t op= FEW?FW[vf_choose(0,7,"op")]:vf_u8("op"); x[l++]=op; int k=-1; for (int j=0;j<NOPS;++j) if (op==OPS[j].op) k=j; if (k<0) break; if (OPS[k].arg==2) { static const float F[]={0,1.5f,-3.25f,1e10f}; memcpy(x+l,&F[vf_choose(0,i?0:3,"f")],4); l+=4; } else if (OPS[k].arg) { int32_t v= i==0&&vf_choose(0,1,"wide")?(vf_choose(0,1,"max")?2147483647:(-2147483647-1)):vf_range(-12,12,"i"); memcpy(x+l,&v,4); l+=4; } }
  int cut=l-vf_choose(0,l<6?l:6,"cut"); uint8_t* y=malloc((size_t)cut+1); memcpy(y,x,(size_t)cut); y=realloc(y,(size_t)(cut?cut:1)); d=buzzdebug_new(); int dbg=vf_choose(0,1,"dbg"); if (dbg) buzzdebug_info_set(d,(int32_t)(l-1),7,9,"g.bzz");
  int rc=buzz_deasm(y,(uint32_t)cut,d,"t.txt"), i=2; /* reference */
  if (cut<2) bad=1; else { qn+=sprintf(q+qn,"!%d\n",rd16(y)); for (int c=0;c<rd16(y)&&!bad;++c) { if (i>=cut) bad=1; else { q[qn++]='\''; while (i<cut&&y[i]) { if (y[i]=='\n') { q[qn++]='\\'; q[qn++]='n'; } else if (y[i]=='\\') { q[qn++]='\\'; q[qn++]='\\'; } else q[qn++]=(char)y[i]; ++i; } q[qn++]='\n'; if (i>=cut) bad=1; else ++i; } } }
  while (!bad&&i<cut) { int k=-1, a=i; for (int j=0;j<NOPS;++j) if (y[i]==OPS[j].op) k=j; if (k<0) { bad=1; break; } qn+=sprintf(q+qn,"%d:\t%s",i,OPS[k].s); if (OPS[k].arg) { if (i+4>=cut) { bad=1; break; } if (OPS[k].arg==2) { float f; memcpy(&f,y+i+1,4); qn+=sprintf(q+qn," %f",f); } else { int32_t v; memcpy(&v,y+i+1,4); qn+=sprintf(q+qn," %d",v); } i+=4; } if (dbg&&a==l-1) qn+=sprintf(q+qn,"\t|7,9,g.bzz"); q[qn++]='\n'; ++i; }
  VF_ASSERTM((rc!=0)==bad,"exactly the malformed bytecode is rejected"); if (bad) { __vf_reach("bad"); return; } char* o; size_t ol; VF_ASSERTM(__vf_file_get("t.txt",(void**)&o,&ol),"listing written"); VF_ASSERTM((int)ol==qn,"length of the listing"); for (int j=0;j<qn&&j<(int)ol;++j) VF_ASSERTM(o[j]==q[j],"each character of the listing"); __vf_reach("ok");
#elif MODE==6
  int neg=vf_choose(0,1,"neg"), a=vf_choose(0,FD,"int"), c=vf_choose(0,FD,"frac"); char* st; s("!0\n\tpushf "); st=t+n; b(0); b(0); if (a+c==0) return; if (neg) s("-"); for (int i=0;i<a;++i) t[n++]=(char)('0'+vf_range(0,9,"d")); if (c) s("."); for (int i=0;i<c;++i) t[n++]=(char)('0'+vf_range(0,9,"d")); char sv=t[n]; t[n]=0; float f=strtof(st,NULL); t[n]=sv; s("\n"); b(BUZZVM_INSTR_PUSHF); w(&f); ok();
#elif MODE==7
  /* programs around the sizes where the bytecode buffer grows */
  s("!1\n'"); b(1); b(0); int l=vf_choose(0,14,"strlen"); l=l<3?l:240+l; for (int i=0;i<l;++i) { t[n++]='x'; b('x'); } b(0); s("\n"); int k=vf_choose(0,8,"fill"); k=k<3?k:45+k; for (int i=0;i<k;++i) { s("pushi 7\n"); b(BUZZVM_INSTR_PUSHI); wi(7); } int j=vf_choose(0,6,"nops"); while (j--) { s("nop\n"); b(BUZZVM_INSTR_NOP); } s("@e\njump @e\n"); b(BUZZVM_INSTR_JUMP); wi(m-1); ok();
#endif
}
