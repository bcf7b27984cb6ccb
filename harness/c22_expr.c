// Expressions: precedence, associativity, parentheses and unary operators, for every operator combination and operand value.
// QUICK flat0 -DSH=0 -DLO=0 -DHI=5 -steps=400000000 time=400 reach=value,error
// QUICK flat1 -DSH=0 -DLO=6 -DHI=11 -steps=400000000 time=400 reach=value,error
// QUICK flat2 -DSH=0 -DLO=12 -DHI=17 -steps=400000000 time=400 reach=value,error
// QUICK par1  -DSH=1 -DLO=0 -DHI=8 -steps=400000000 time=400 reach=value,error
// QUICK par2  -DSH=1 -DLO=9 -DHI=17 -steps=400000000 time=400 reach=value,error
// QUICK par3  -DSH=2 -DLO=0 -DHI=8 -steps=400000000 time=400 reach=value,error
// QUICK par4  -DSH=2 -DLO=9 -DHI=17 -steps=400000000 time=400 reach=value,error
// QUICK un    -DSH=3 -DLO=0 -DHI=17 -steps=400000000 time=400 reach=value,error
// QUICK lit   -DSH=5 -DLO=0 -DHI=0 time=400 reach=int,float,reject
// THOROUGH lit   -DSH=5 -DLO=0 -DHI=0 -DLIT3 time=900
// THOROUGH four -DSH=4 -DLO=0 -DHI=17 -steps=400000000 time=3000
// THOROUGH flat0 -DSH=0 -DLO=0 -DHI=5 -steps=400000000 time=400
// THOROUGH flat1 -DSH=0 -DLO=6 -DHI=11 -steps=400000000 time=400
// THOROUGH flat2 -DSH=0 -DLO=12 -DHI=17 -steps=400000000 time=400
// THOROUGH par1  -DSH=1 -DLO=0 -DHI=17 -steps=400000000 time=900
// THOROUGH par3  -DSH=2 -DLO=0 -DHI=17 -steps=400000000 time=900
// THOROUGH un    -DSH=3 -DLO=0 -DHI=17 -steps=400000000 time=900
#include "vmh.h"
enum { ADD,SUB,MUL,DIV,MOD,POW,BAND,BOR,SHL,SHR,EQ,NEQ,LT,LTE,GT,GTE,AND,OR,NOPS };
static const char* OP[]={"+","-","*","/","%","^","&","|","<<",">>","==","!=","<","<=",">",">=","and","or"};
static const int PREC[]={3,3,4,4,5,6,8,8,7,7,2,2,2,2,2,2,1,1};
/* tokens: >=0 binary operator; the rest below */
enum { TA=100,TB,TC,TD,TOPEN,TCLOSE,TNEG,TINV,TNOT,TNUM,TPOS,TEND };
typedef struct { int t[16]; int n; } EX;
static void put(EX* e, int t) { e->t[e->n++]=t; }
static int p2(EX* e,int a,int o,int b) { put(e,a); put(e,o); put(e,b); return 1; }
#define NUN 15
#if SH==3
#define COUNT NUN
#elif SH==4
#define COUNT (NOPS*NOPS)
#else
#define COUNT NOPS
#endif
static int mk(EX* e, int o1, int x) { e->n=0; (void)p2;
#if SH==0
  p2(e,TA,o1,TB); put(e,x); put(e,TC);
#elif SH==1
  put(e,TOPEN); p2(e,TA,o1,TB); put(e,TCLOSE); put(e,x); put(e,TC);
#elif SH==2
  put(e,TA); put(e,o1); put(e,TOPEN); p2(e,TB,x,TC); put(e,TCLOSE);
#elif SH==4
  p2(e,TA,o1,TB); put(e,x/NOPS); put(e,TC); put(e,x%NOPS); put(e,TD);
#else
  switch (x) {
    case 0: put(e,TNEG); p2(e,TA,o1,TB); break;
    case 1: put(e,TINV); p2(e,TA,o1,TB); break;
    case 2: put(e,TNOT); p2(e,TA,o1,TB); break;
    case 3: put(e,TA); put(e,o1); put(e,TNEG); put(e,TB); break;
    case 4: put(e,TA); put(e,o1); put(e,TINV); put(e,TB); break;
    case 5: put(e,TNEG); put(e,TOPEN); p2(e,TA,o1,TB); put(e,TCLOSE); break;
    case 6: put(e,TINV); put(e,TOPEN); p2(e,TA,o1,TB); put(e,TCLOSE); break;
    case 7: put(e,TOPEN); put(e,TNOT); put(e,TA); put(e,TCLOSE); put(e,o1); put(e,TB); break;
    case 8: put(e,TNEG); put(e,TNUM); put(e,o1); put(e,TA); break;
    case 9: put(e,TA); put(e,o1); put(e,TNUM); break;
    case 10: put(e,TA); put(e,o1); put(e,TNEG); put(e,TNUM); break;
    case 11: put(e,TNEG); put(e,TINV); put(e,TNEG); p2(e,TA,o1,TB); break;
    case 12: put(e,TPOS); p2(e,TA,o1,TB); break;
    case 14: put(e,TINV); put(e,TINV); put(e,TNEG); put(e,TA); put(e,o1); put(e,TINV); put(e,TINV); put(e,TB); break;
    case 13: put(e,TA); put(e,o1); put(e,TOPEN); put(e,TNOT); put(e,TNOT); p2(e,TB,LT,TC); put(e,TCLOSE); break;
  }
#endif
  put(e,TEND); e->n--; return 1; }
static char* cat(char* p, const char* s) { while (*s) *p++=*s++; return p; }
static char* num(char* p, int n) { char b[8]; int i=0; do b[i++]='0'+n%10; while (n/=10); while (i) *p++=b[--i]; return p; }
static char* text(char* p, EX* e) { static const char* T[]={"a","b","c","d","(",")","-","!","not ","3","+"}; for (int i=0;i<e->n;i++) { if (e->t[i]<100) { *p++=' '; p=cat(p,OP[e->t[i]]); *p++=' '; } else p=cat(p,T[e->t[i]-100]); } return p; }
/* ---- the oracle: precedence climbing over the tokens, each operator being one instruction of the machine */
static buzzvm_t om; static int32_t val[4]; static const int* tk; static int evalon, bad;
static void doop(int o) { if (!evalon||om->state!=BUZZVM_STATE_READY) return;
  switch (o) { case ADD: buzzvm_add(om); break; case SUB: buzzvm_sub(om); break; case MUL: buzzvm_mul(om); break; case DIV: buzzvm_div(om); break; case MOD: buzzvm_mod(om); break; case POW: buzzvm_pow(om); break;
    case BAND: buzzvm_band(om); break; case BOR: buzzvm_bor(om); break; case SHL: buzzvm_lshift(om); break; case SHR: buzzvm_rshift(om); break;
    case EQ: buzzvm_eq(om); break; case NEQ: buzzvm_neq(om); break; case LT: buzzvm_lt(om); break; case LTE: buzzvm_lte(om); break; case GT: buzzvm_gt(om); break; case GTE: buzzvm_gte(om); break; case AND: buzzvm_land(om); break; case OR: buzzvm_lor(om); break;
    case TNEG: buzzvm_unm(om); break; case TINV: buzzvm_bnot(om); break; case TNOT: buzzvm_lnot(om); break; } }
static void cond(void);
static void unary(void) { int t=*tk++;
  if (t==TNEG||t==TINV) { unary(); doop(t); } else if (t==TPOS) unary();
  else if (t==TOPEN) { cond(); if (*tk==TCLOSE) ++tk; else bad=1; }
  else if (t==TNUM) { if (evalon) buzzvm_pushi(om,3); }
  else if (t>=TA&&t<=TD) { if (evalon&&om->state==BUZZVM_STATE_READY) buzzvm_pushi(om,val[t-TA]); }
  else bad=1; }
static void climb(int lvl) { if (lvl>8) { unary(); return; } climb(lvl+1); int n=0;
  while (!bad&&*tk<NOPS&&PREC[*tk]==lvl) { int o=*tk++; if (lvl==2&&++n>1) { bad=1; return; } climb(lvl==6?6:lvl+1); doop(o); } }
static void cond(void) { if (*tk==TNOT) { ++tk; cond(); doop(TNOT); } else climb(1); }
static int oracle(EX* e, int on) { tk=e->t; evalon=on; bad=0; cond(); return !bad&&*tk==TEND; }
static int arith(EX* e) { for (int i=0;i<e->n;i++) if (e->t[i]<NOPS?PREC[e->t[i]]<=2:e->t[i]==TNOT) return 0; return 1; }
#if SH==5
/* numeric constants: the value is the decimal number written, or the script is rejected */
static const char* LIT[]={"","0","00","21474836","3","42949672","184467440737095516","99999999999999999999","0.","1.","3.402823","16777217.","1.2.","0.000","21474836.","01"};
void vf_main(void) {
  char src[64], w[40]; char* p=cat(w,LIT[vf_choose(0,sizeof LIT/sizeof *LIT-1,"form")]);
  int d1=vf_choose(0,3,"d1"); if (d1) *p++="049"[d1-1]; *p++='0'+vf_choose(0,9,"d2");
#ifdef LIT3
  *p++='0'+vf_choose(0,9,"d3");
#endif
  *p=0; int neg=vf_choose(0,2,"sign"), place=(p[-1]-'0'+d1+neg)%3; const char* sg=neg==0?"":neg==1?"-":"+";
  p=src; if (place==0) { p=cat(p,"x = "); p=cat(p,sg); p=cat(p,w); } else if (place==1) { p=cat(p,"x = ("); p=cat(p,sg); p=cat(p,w); p=cat(p,") y = 1"); } else { p=cat(p,"t = { .k = "); p=cat(p,sg); p=cat(p,w); p=cat(p," } x = t.k"); }
  *cat(p,"\n")=0;
  int dots=0, big=0; uint64_t v=0; for (char* q=w;*q;++q) { if (*q=='.') ++dots; else if (!dots) { if (v<100000000000ull) v=v*10+(*q-'0'); else big=1; } }
  int bad=dots>1||(dots==0&&(big||v>(neg==1?2147483648ull:2147483647ull)));
  uint8_t* bc; uint32_t n; buzzdebug_t d=NULL; int ok=vmh_compile(src,strlen(src),&bc,&n,&d);
  if (bad) { __vf_reach("reject"); VF_ASSERTM(!ok,"a constant that is not a representable number is rejected"); return; }
  VF_ASSERTM(ok,"a representable constant is accepted");
  buzzvm_t vm=vmh_run(1,src); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"the assignment runs"); buzzobj_t o=vmh_get(vm,"x");
  if (dots) { __vf_reach("float"); float x=strtof(w,NULL); if (neg==1) x=-x; VF_ASSERTM(vmh_isfb(o,x),"the float constant is the decimal number written"); }
  else { __vf_reach("int"); VF_ASSERTM(vmh_isi(o,(int32_t)(neg==1?-(int64_t)v:(int64_t)v)),"the integer constant is the decimal number written"); } }
#else
void vf_main(void) {
  EX e; int o1lo=LO, o1hi=HI;
#if SH==4
  o1lo=o1hi=vf_choose(LO,HI,"op");
#endif
  int N=(o1hi-o1lo+1)*COUNT; char* src=malloc((size_t)N*80+16); char* p=src;
  for (int k=0;k<N;++k) { mk(&e,o1lo+k/COUNT,k%COUNT); if (!oracle(&e,0)) continue;
    p=cat(p,"function f"); p=num(p,k); p=cat(p,"(a,b,c,d) { "); int ar=arith(&e)&&k%2; p=cat(p,ar?"var r = ":"return "); p=text(p,&e); p=cat(p,ar?" return r }\n":" }\n"); }
  *p=0;
  buzzvm_t vm=vmh_run(1,src); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"the definitions run");
  int k=vf_choose(0,N-1,"expr"); mk(&e,o1lo+k/COUNT,k%COUNT); char name[12]; *num(cat(name,"f"),k)=0;
  if (!oracle(&e,0)) { /* two comparisons without parentheses, "not" after an operator: not in the language */
    char* q=cat(src,"x = ("); q=text(q,&e); *cat(q,")\n")=0; uint8_t* bc; uint32_t n; buzzdebug_t d=NULL; VF_ASSERTM(!vmh_compile(src,strlen(src),&bc,&n,&d),"not an expression: rejected"); __vf_reach("reject"); return; }
  for (int i=0;i<4;++i) val[i]=vf_i32("v");
  om=vmh_new(1); int ok=oracle(&e,1); VF_ASSERT(ok);
  vm->state=BUZZVM_STATE_READY; buzzvm_push(vm,vmh_get(vm,name)); for (int i=0;i<4;++i) buzzvm_pushi(vm,val[i]); buzzvm_closure_call(vm,4);
  if (om->state!=BUZZVM_STATE_READY) { __vf_reach("error"); VF_ASSERTM(vm->state==om->state&&vm->error==om->error,"an illegal operand is reported"); return; }
  VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"the expression has a value"); VF_ASSERTM(buzzvm_stack_top(vm)==1&&buzzvm_stack_top(om)==1,"exactly one value"); __vf_reach("value");
  buzzobj_t r=buzzvm_stack_at(vm,1), x=buzzvm_stack_at(om,1); VF_ASSERTM(r->o.type==x->o.type,"type of the value");
  if (x->o.type==BUZZTYPE_INT) VF_ASSERTM(r->i.value==x->i.value,"value of the expression"); else if (x->o.type==BUZZTYPE_FLOAT) VF_ASSERTM(vf_fbits(r->f.value)==vf_fbits(x->f.value),"value of the expression"); }
#endif
