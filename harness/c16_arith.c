// Arithmetic instructions, executed by the real step function, on every operand pair.
// QUICK num  time=300 reach=add,sub,mul,div,mod,pow,zero,intmin
// QUICK val  -DVAL time=300 reach=add,sub,mul,div,mod,pow
// QUICK bad  -DBAD time=200 reach=rejected
// QUICK unm  -DUNM time=200 reach=neg,rejected
// THOROUGH num  time=900
// THOROUGH val  -DVAL time=400
// THOROUGH bad  -DBAD time=400
// THOROUGH unm  -DUNM time=400
#include "vmh.h"
#include <math.h>
static const uint8_t OP[]={BUZZVM_INSTR_ADD,BUZZVM_INSTR_SUB,BUZZVM_INSTR_MUL,BUZZVM_INSTR_DIV,BUZZVM_INSTR_MOD,BUZZVM_INSTR_POW,BUZZVM_INSTR_UNM}; static const char* NM[]={"add","sub","mul","div","mod","pow","unm"};
static uint8_t P[]={0,0,BUZZVM_INSTR_NOP,0,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE};
static buzzvm_t vm;
static void push(int type, int32_t i, float f) { switch (type) { case 0: buzzvm_pushi(vm,i); break; case 1: buzzvm_pushf(vm,f); break; case 2: buzzvm_pushnil(vm); break; case 3: buzzvm_pushs(vm,buzzvm_string_register(vm,"12",0)); break; case 4: buzzvm_pusht(vm); break; case 5: buzzvm_pushcn(vm,3); break; default: buzzvm_pushu(vm,P); } }
static int same(float a, float b) { return vf_fbits(a)==vf_fbits(b)||(a!=a&&b!=b); }
void vf_main(void) {
#ifdef UNM
  int op=6, ta=vf_choose(0,6,"ta"), tb=0; int32_t a=vf_i32("a"), b=0; float x=vf_f32("x"), y=0;
#elif defined(BAD)
  int op=vf_choose(0,5,"op"), ta=vf_choose(0,6,"ta"), tb=vf_choose(0,6,"tb"); if (ta<2&&tb<2) return; int32_t a=vf_i32("a"), b=vf_i32("b"); float x=vf_f32("x"), y=vf_f32("y");
#elif defined(VAL) /* chosen operands, for the operations whose result on symbolic floats is an uninterpreted term */
  static const int32_t I[]={0,1,-1,2,3,-3,7,-8,16777217,INT32_MAX,INT32_MIN}; static const float X[]={0.f,-0.f,0.5f,-0.5f,1.f,2.5f,-2.5f,3.f,-7.25f,1e-40f,3e38f,16777216.f,__builtin_inff(),-__builtin_inff(),__builtin_nanf("")};
  int op=vf_choose(0,5,"op"), ta=vf_choose(0,1,"ta"), tb=vf_choose(0,1,"tb"); int32_t a=0, b=0; float x=0, y=0; if (ta==0) a=I[vf_choose(0,10,"a")]; else x=X[vf_choose(0,14,"x")]; if (tb==0) b=I[vf_choose(0,10,"b")]; else y=X[vf_choose(0,14,"y")];
#else
  int op=vf_choose(0,5,"op"), ta=vf_choose(0,1,"ta"), tb=vf_choose(0,1,"tb"); int32_t a=vf_i32("a"), b=vf_i32("b"); float x=vf_f32("x"), y=vf_f32("y");
#endif
  P[3]=OP[op]; vm=buzzvm_new(4); buzzvm_set_bcode(vm,P,sizeof P); buzzvm_pushi(vm,77); push(ta,a,x); if (op<6) push(tb,b,y);
  int st=buzzvm_step(vm); __vf_reach(NM[op]);
  if (ta>1||tb>1) { VF_ASSERTM(st==BUZZVM_STATE_ERROR&&vm->state==BUZZVM_STATE_ERROR&&vm->error==BUZZVM_ERROR_TYPE,"a non-numeric operand is an error"); VF_ASSERTM(buzzvm_strerror(vm)!=NULL,"with a description"); __vf_reach("rejected"); VF_ASSERTM(buzzvm_step(vm)==BUZZVM_STATE_ERROR,"and the machine stays in error"); buzzvm_destroy(&vm); return; }
  if (ta==0&&tb==0&&(op==3||op==4)&&b==0) { __vf_reach("zero"); VF_ASSERTM(st==BUZZVM_STATE_ERROR&&vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL,"integer division by zero is an error"); buzzvm_destroy(&vm); return; }
  VF_ASSERTM(st==BUZZVM_STATE_READY&&vm->state==BUZZVM_STATE_READY,"arithmetic on numbers succeeds"); VF_ASSERTM(buzzvm_stack_top(vm)==2&&vmh_isi(buzzvm_stack_at(vm,2),77),"operands replaced by the result, the rest untouched"); buzzobj_t r=buzzvm_stack_at(vm,1);
  VF_ASSERTM(vm->pc==4,"on to the next instruction");
#ifdef UNM
  __vf_reach("neg"); if (ta==0) VF_ASSERTM(r->o.type==BUZZTYPE_INT&&(uint32_t)r->i.value==0u-(uint32_t)a,"integer negation"); else VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&vf_fbits(r->f.value)==(vf_fbits(x)^0x80000000u),"float negation");
#else
  float fa=ta==0?(float)a:x, fb=tb==0?(float)b:y;
  if (ta==0&&tb==0&&op!=5) {
    uint32_t u; VF_ASSERTM(r->o.type==BUZZTYPE_INT,"integers give an integer");
    switch (op) { case 0: u=(uint32_t)a+(uint32_t)b; VF_ASSERTM((uint32_t)r->i.value==u,"sum"); break; case 1: u=(uint32_t)a-(uint32_t)b; VF_ASSERTM((uint32_t)r->i.value==u,"difference"); break; case 2: u=(uint32_t)a*(uint32_t)b; VF_ASSERTM((uint32_t)r->i.value==u,"product"); break;
      case 3: if (b==-1) { if (a==INT32_MIN) __vf_reach("intmin"); VF_ASSERTM((uint32_t)r->i.value==0u-(uint32_t)a,"quotient"); } else VF_ASSERTM(r->i.value==a/b,"quotient, truncated"); break;
      default: if (b==-1) VF_ASSERTM(r->i.value==0,"remainder"); else { int32_t m=a%b; if (b>0) { if (m<0) m+=b; if (a>=-64&&a<64&&b<16) VF_ASSERTM(r->i.value>=0&&r->i.value<b,"modulo is non-negative for a positive divisor"); VF_ASSERTM(r->i.value==m,"modulo"); } else if (a>=0) VF_ASSERTM(r->i.value==m,"modulo by a negative divisor"); } }
    __vf_out((uint32_t)r->i.value); }
  else { VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT,"a float operand, or a power, gives a float"); float w=r->f.value, e;
    switch (op) { case 0: e=fa+fb; break; case 1: e=fa-fb; break; case 2: e=fa*fb; break; case 3: e=fa/fb; break; case 5: e=powf(fa,fb); break;
      default: { e=fmodf(fa,fb); if (e<0.f) { e+=fb; } } }
    VF_ASSERTM(same(w,e),"single-precision result of the operation on the two operands in order"); }
#endif
  buzzvm_destroy(&vm);
}
