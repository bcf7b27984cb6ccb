// Comparison, logic and bitwise instructions, executed by the real step function, on every operand pair.
// QUICK num   -DNUM time=200 reach=ii,if,fi,ff,nan
// QUICK types -DTYPES time=200 reach=nil,nilnil,same,differ,closure
// QUICK str   -DSTR -DL=6 time=200 reach=equal,less,greater,prefix
// QUICK strnum -DSTRNUM -DL=8 time=200 reach=equal,less,greater
// QUICK logic -DLOGIC time=200 reach=true,false,jump,nojump
// QUICK bits  -DBITS time=200 reach=ok,rejected
// THOROUGH num   -DNUM time=600
// THOROUGH types -DTYPES time=600
// THOROUGH str   -DSTR -DL=12 time=900
// THOROUGH strnum -DSTRNUM -DL=12 time=900
// THOROUGH logic -DLOGIC time=600
// THOROUGH bits  -DBITS time=600
#include "vmh.h"
static const uint8_t CMP[]={BUZZVM_INSTR_EQ,BUZZVM_INSTR_NEQ,BUZZVM_INSTR_LT,BUZZVM_INSTR_LTE,BUZZVM_INSTR_GT,BUZZVM_INSTR_GTE};
static uint8_t P[]={0,0,BUZZVM_INSTR_NOP,0,8,0,0,0,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE};
static buzzvm_t vm; static int ud1,ud2; static buzzobj_t T1,T2,F1,F2;
#define LT_ 1
#define EQ_ 2
#define GT_ 3
#define NO_ 4
#define ANY_ 5
/* executes instruction op on a (and b) and returns the result, checking that it replaces the operands and nothing else moves */
static buzzobj_t run(uint8_t op, buzzobj_t a, buzzobj_t b) {
  P[3]=op; vm->pc=3; vm->oldpc=3; buzzvm_pushi(vm,77); buzzvm_push(vm,a); if (b) buzzvm_push(vm,b);
  int st=buzzvm_step(vm); VF_ASSERTM(st==BUZZVM_STATE_READY&&vm->state==BUZZVM_STATE_READY,"the instruction succeeds"); VF_ASSERTM(buzzvm_stack_top(vm)==2&&vmh_isi(buzzvm_stack_at(vm,2),77)&&vm->pc==4,"operands replaced by the result, the rest untouched");
  buzzobj_t r=buzzvm_stack_at(vm,1); buzzvm_pop(vm); buzzvm_pop(vm); VF_ASSERTM(r->o.type==BUZZTYPE_INT,"result is an integer"); return r; }
/* rel: expected relation of a to b, or ANY_ when only the laws apply */
static void cmp(buzzobj_t a, buzzobj_t b, int rel) {
  int r[6],s[6]; for (int i=0;i<6;++i) { r[i]=run(CMP[i],a,b)->i.value; s[i]=run(CMP[i],b,a)->i.value; VF_ASSERTM((r[i]==0||r[i]==1)&&(s[i]==0||s[i]==1),"comparisons give 0 or 1"); }
  VF_ASSERTM(r[0]==!r[1]&&s[0]==!s[1],"equality and inequality are complementary"); VF_ASSERTM(r[0]==s[0],"equality is symmetric");
  VF_ASSERTM(r[2]==s[4]&&r[4]==s[2]&&r[3]==s[5]&&r[5]==s[3],"a<b exactly when b>a"); VF_ASSERTM(r[3]==(r[2]||r[0])&&r[5]==(r[4]||r[0]),"<= is < or =="); VF_ASSERTM(r[0]+r[2]+r[4]<=1,"at most one of <, ==, > holds");
  if (rel==ANY_) return; VF_ASSERTM(r[0]==(rel==EQ_),"equality"); VF_ASSERTM(r[2]==(rel==LT_),"less than"); VF_ASSERTM(r[4]==(rel==GT_),"greater than"); }
static buzzobj_t mk(int t, int32_t i, float f, int v) { switch (t) { case 0: return vmh_int(vm,i); case 1: return vmh_flt(vm,f); case 2: return vmh_nil(vm); case 3: return vmh_str(vm,v?"b":"a"); case 4: return v?T1:T2; case 5: return v?F1:F2; default: buzzvm_pushu(vm,v?&ud1:&ud2); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; } }
/* a string value with the given text; interning is C04's subject */
static buzzobj_t rawstr(const char* t) { buzzobj_t o=vmh_str(vm,""); o->s.value.str=t; return o; }
void vf_main(void) {
  vm=buzzvm_new(4); buzzvm_set_bcode(vm,P,sizeof P); T1=vmh_tab(vm); T2=vmh_tab(vm); F1=vmh_fun(vm,3,1); F2=vmh_fun(vm,4,1);
#ifdef NUM
  int ta=vf_choose(0,1,"ta"), tb=vf_choose(0,1,"tb"); int32_t a=vf_i32("a"), b=vf_i32("b"); float x=vf_f32("x"), y=vf_f32("y"); int rel;
  if (ta==0&&tb==0) { rel=a<b?LT_:a>b?GT_:EQ_; __vf_reach("ii"); }
  else { float p=ta==0?(float)a:x, q=tb==0?(float)b:y; rel=p<q?LT_:p>q?GT_:p==q?EQ_:NO_; if (rel==NO_) __vf_reach("nan"); if (ta==0) __vf_reach("if"); else if (tb==0) __vf_reach("fi"); else __vf_reach("ff"); }
  cmp(mk(ta,a,x,0),mk(tb,b,y,0),rel);
#elif defined(TYPES)
  int ta=vf_choose(0,6,"ta"), tb=vf_choose(0,6,"tb"), va=vf_choose(0,1,"va"), vb=vf_choose(0,1,"vb"); int rel=ANY_; if (ta<2&&tb<2) return;
  buzzobj_t a=mk(ta,5,2.5f,va), b=mk(tb,7,3.5f,vb);
  if (ta==2&&tb==2) { rel=EQ_; __vf_reach("nilnil"); } else if (ta==2||tb==2) { rel=NO_; __vf_reach("nil"); }
  if (rel==ANY_&&ta==tb) { int e=run(BUZZVM_INSTR_EQ,a,b)->i.value; VF_ASSERTM(e==(va==vb),"values of the same type are equal exactly when they are the same"); __vf_reach(e?"same":"differ"); if (ta==5) __vf_reach("closure"); }
  if (ta!=tb&&ta>1&&tb>1) VF_ASSERTM(run(BUZZVM_INSTR_EQ,a,b)->i.value==0,"values of different kinds are not equal");
  cmp(a,b,rel);
#elif defined(STR)
  char s[L+1],t[L+1]; vf_bytes(s,L,"s"); s[L]=0; vf_bytes(t,L,"t"); t[L]=0; int i=0; while (s[i]&&s[i]==t[i]) ++i; int d=(unsigned char)s[i]-(unsigned char)t[i]; int rel=d<0?LT_:d>0?GT_:EQ_;
  if (rel==EQ_) __vf_reach("equal"); else if (rel==LT_) __vf_reach("less"); else __vf_reach("greater"); if (rel!=EQ_&&(!s[i]||!t[i])) __vf_reach("prefix");
  cmp(rawstr(s),rawstr(t),rel);
#elif defined(STRNUM)
  /* a number compares with a string by its printed form */
  static const struct { int f; int32_t i; float x; const char* s; } N[]={{0,0,0,"0"},{0,12,0,"12"},{0,-7,0,"-7"},{0,INT32_MIN,0,"-2147483648"},{1,0,1.5f,"1.500000"},{1,0,-0.25f,"-0.250000"}};
  int k=vf_choose(0,5,"n"); char s[L+1]; vf_bytes(s,L,"s"); s[L]=0; const char* t=N[k].s; int i=0; while (s[i]&&s[i]==t[i]) ++i; int d=(unsigned char)s[i]-(unsigned char)t[i]; int rel=d<0?LT_:d>0?GT_:EQ_; if (rel==EQ_) __vf_reach("equal"); else if (rel==LT_) __vf_reach("less"); else __vf_reach("greater");
  cmp(rawstr(s),mk(N[k].f,N[k].i,N[k].x,0),rel);
#elif defined(LOGIC)
  int ta=vf_choose(0,6,"ta"), tb=vf_choose(0,6,"tb"); int32_t i=vf_i32("a"), j=vf_i32("b"); float x=vf_f32("x"), y=vf_f32("y"); buzzobj_t a=mk(ta,i,x,0), b=mk(tb,j,y,1); int A=!(ta==2||(ta==0&&i==0)), B=!(tb==2||(tb==0&&j==0));
  if (A) __vf_reach("true"); else __vf_reach("false");
  VF_ASSERTM(run(BUZZVM_INSTR_LAND,a,b)->i.value==(A&&B),"and"); VF_ASSERTM(run(BUZZVM_INSTR_LOR,a,b)->i.value==(A||B),"or"); VF_ASSERTM(run(BUZZVM_INSTR_LNOT,a,NULL)->i.value==!A,"not");
  for (int z=0;z<2;++z) { P[3]=z?BUZZVM_INSTR_JUMPZ:BUZZVM_INSTR_JUMPNZ; vm->pc=3; buzzvm_push(vm,b); buzzvm_push(vm,a); VF_ASSERTM(buzzvm_step(vm)==BUZZVM_STATE_READY&&buzzvm_stack_top(vm)==1&&buzzvm_stack_at(vm,1)==b,"a conditional jump consumes its condition"); int jumped=vm->pc==8&&P[4]==9; (void)jumped; buzzvm_pop(vm); }
  P[4]=9; for (int z=0;z<2;++z) { P[3]=z?BUZZVM_INSTR_JUMPZ:BUZZVM_INSTR_JUMPNZ; vm->pc=3; buzzvm_push(vm,a); buzzvm_step(vm); int take=z?!A:A; if (take) __vf_reach("jump"); else __vf_reach("nojump"); VF_ASSERTM(vm->pc==(take?9:8),"the jump is taken exactly when the condition says so"); } P[4]=8;
#else
  static const uint8_t O[]={BUZZVM_INSTR_BAND,BUZZVM_INSTR_BOR,BUZZVM_INSTR_LSHIFT,BUZZVM_INSTR_RSHIFT,BUZZVM_INSTR_BNOT};
  int op=vf_choose(0,4,"op"), ta=vf_choose(0,6,"ta"), tb=op==4?0:vf_choose(0,6,"tb"); int32_t i=vf_i32("a"), j=vf_i32("b"); if (op==2||op==3) { __vf_assume(j>=0&&j<32); }
  buzzobj_t a=mk(ta,i,1.5f,0), b=mk(tb,j,2.5f,1);
  if (ta||tb) { P[3]=O[op]; buzzvm_push(vm,a); if (op<4) buzzvm_push(vm,b); int st=buzzvm_step(vm); VF_ASSERTM(st==BUZZVM_STATE_ERROR&&vm->state==BUZZVM_STATE_ERROR&&vm->error==BUZZVM_ERROR_TYPE&&buzzvm_strerror(vm)!=NULL,"a bitwise operator rejects anything but integers"); VF_ASSERTM(buzzvm_step(vm)==BUZZVM_STATE_ERROR,"and the machine stays in error"); __vf_reach("rejected"); }
  else { uint32_t r=(uint32_t)run(O[op],a,op<4?b:NULL)->i.value, u=(uint32_t)i, w=(uint32_t)j, e; switch (op) { case 0: e=u&w; break; case 1: e=u|w; break; case 2: e=u<<w; break; case 3: e=(uint32_t)(i>>j); break; default: e=~u; } VF_ASSERTM(r==e,"32-bit result"); __vf_reach("ok"); __vf_out(r); }
#endif
  buzzvm_destroy(&vm);
}
