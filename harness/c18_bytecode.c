// Arbitrary bytecode: loading it, and executing it from a fresh machine or from arbitrary machine states.
// QUICK load -DLOAD -DN=5 time=200 reach=ready,error,done
// QUICK seq  -DSEQ -DN=5 -DS=4 time=300 reach=error,done,ready
// QUICK step0 -DSTEP -DFUN=0 time=200 reach=error,ready,top,ccall,ncall
// QUICK step1 -DSTEP -DFUN=1 time=200 reach=error,ready,func,ccall,ncall
// QUICK clib0 -DCLIB -DPART=0 time=300 reach=error,ready
// QUICK clib1 -DCLIB -DPART=1 time=300 reach=error,ready
// QUICK clib2 -DCLIB -DPART=2 time=300 reach=error,ready
// QUICK clib3 -DCLIB -DPART=3 time=300 reach=error,ready
// THOROUGH load -DLOAD -DN=7 time=1200
// THOROUGH seq  -DSEQ -DN=7 -DS=5 time=3000
// THOROUGH step -DSTEP time=2000
#include "vmh.h"
static uint8_t* B; static buzzvm_t vm; static int called;
static int cfun(buzzvm_t v) { called=1; return buzzvm_ret0(v); }
static void consistent(void) { /* the machine is still a machine */
  VF_ASSERTM(vm->state==BUZZVM_STATE_READY||vm->state==BUZZVM_STATE_DONE||vm->state==BUZZVM_STATE_ERROR,"a known state");
  if (vm->state!=BUZZVM_STATE_ERROR) { VF_ASSERTM(buzzdarray_size(vm->stacks)==buzzdarray_size(vm->lsymts)+1,"one stack per active call, plus the main one"); VF_ASSERTM(vm->stack==buzzdarray_last(vm->stacks,buzzdarray_t),"the current stack is the last");
  VF_ASSERTM(buzzdarray_isempty(vm->lsymts)?vm->lsyms==NULL:vm->lsyms==buzzdarray_last(vm->lsymts,buzzvm_lsyms_t),"the current locals are the last"); }
  if (vm->state==BUZZVM_STATE_READY) VF_ASSERTM(vm->pc>=0&&(uint32_t)vm->pc<vm->bcode_size,"a running machine points inside its program");
  if (vm->state==BUZZVM_STATE_ERROR) { VF_ASSERTM(vm->error!=BUZZVM_ERROR_NONE&&buzzvm_strerror(vm)!=NULL,"an error is reported"); uint32_t n=buzzdarray_size(vm->stacks); int32_t pc=vm->pc; VF_ASSERTM(buzzvm_step(vm)==BUZZVM_STATE_ERROR&&buzzdarray_size(vm->stacks)==n&&vm->pc==pc,"and is not left by stepping further"); }
  for (int64_t i=0;i<buzzdarray_size(vm->stack);++i) { buzzobj_t o=buzzdarray_get(vm->stack,i,buzzobj_t); VF_ASSERTM(o->o.type<=BUZZTYPE_USERDATA,"the stack holds values"); } 
  if (vm->lsyms) for (int64_t i=0;i<buzzdarray_size(vm->lsyms->syms);++i) { buzzobj_t o=buzzdarray_get(vm->lsyms->syms,i,buzzobj_t); VF_ASSERTM(o->o.type<=BUZZTYPE_USERDATA,"the locals hold values"); } }
static void outcome(void) { if (vm->state==BUZZVM_STATE_READY) __vf_reach("ready"); else if (vm->state==BUZZVM_STATE_DONE) __vf_reach("done"); else __vf_reach("error"); __vf_out((uint64_t)vm->state); }
#if defined(STEP)||defined(CLIB)
static buzzobj_t mk(int t) { switch (t) { case 0: return vmh_int(vm,vf_i32("i")); case 1: return vmh_flt(vm,1.5f); case 2: return vmh_nil(vm); case 3: return vmh_str(vm,"abc"); case 4: return vmh_tab(vm); case 5: return vmh_fun(vm,vf_i32("addr"),1); case 6: { uint32_t f=vf_u32("fid"); int32_t k=(int32_t)buzzvm_function_register(vm,cfun); if ((int32_t)f>=0&&(int32_t)f<k) f=0xffffffffu; return vmh_fun(vm,(int32_t)f,0); } case 7: return vmh_fun(vm,(int32_t)buzzvm_function_register(vm,cfun),0); default: buzzvm_pushu(vm,B); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; } }
#endif
void vf_main(void) {
#ifdef LOAD
  int n=vf_choose(0,N,"n"); B=malloc(n?n:1); vf_bytes(B,n,"bc"); if (n==0) { free(B); B=malloc(1); } vm=buzzvm_new(4);
  int st=buzzvm_set_bcode(vm,B,(uint32_t)n); VF_ASSERTM(st!=BUZZVM_STATE_READY||vm->state!=BUZZVM_STATE_ERROR||1,""); consistent(); outcome();
#elif defined(SEQ)
  B=malloc(3+N); B[0]=B[1]=0; B[2]=BUZZVM_INSTR_NOP; vf_bytes(B+3,N,"bc"); vm=buzzvm_new(4); buzzvm_set_bcode(vm,B,3+N); for (int i=0;i<S;++i) { buzzvm_step(vm); consistent(); if (vm->state!=BUZZVM_STATE_READY) break; } outcome();
#elif defined(CLIB)
  /* any library function, called by bytecode with any receiver and any arguments */
  static uint8_t P[]={0,0,BUZZVM_INSTR_NOP,BUZZVM_INSTR_CALLC,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE}; B=malloc(sizeof P); memcpy(B,P,sizeof P); vm=buzzvm_new(4); buzzvm_set_bcode(vm,B,sizeof P);
  int f=PART+4*vf_choose(0,((int)buzzdarray_size(vm->flist)-1-PART)/4,"fid"), n=vf_choose(0,2+THOROUGH,"argc"), rec=vf_choose(0,2,"self");
  buzzobj_t self=rec==0?vmh_nil(vm):vmh_tab(vm), c=vmh_fun(vm,f,0); if (rec==2) vmh_tput(vm,self,vmh_str(vm,"id"),vmh_int(vm,3)); buzzdarray_set(c->c.value.actrec,0,&self);
  buzzvm_push(vm,self); buzzvm_push(vm,c); for (int i=0;i<n;++i) { int t=vf_choose(0,8,"t"); buzzvm_push(vm,t==0?vmh_int(vm,vf_choose(-1,2,"v")):mk(t)); } buzzvm_pushi(vm,n);
  buzzvm_step(vm); consistent(); outcome(); if (vm->state==BUZZVM_STATE_READY) VF_ASSERTM(buzzvm_stack_top(vm)==1&&vm->lsyms==NULL,"a library call leaves exactly its result");
#else
  /* one arbitrary instruction, at any distance from the end of the program, in an arbitrary machine state */
  int tail=vf_choose(0,6,"tail"); B=malloc(4+tail); B[0]=B[1]=0; B[2]=BUZZVM_INSTR_NOP; vf_bytes(B+3,1+tail,"bc"); vm=buzzvm_new(4); buzzvm_set_bcode(vm,B,(uint32_t)(4+tail)); if (vm->state!=BUZZVM_STATE_READY) return;
  vmh_seti(vm,"abc",5); int full=tail==5, infun=FUN;
  if (infun) { buzzvm_pushnil(vm); buzzvm_push(vm,vmh_fun(vm,3,1)); if (infun==2) buzzvm_pushi(vm,6); buzzvm_pushi(vm,infun-1); buzzvm_callc(vm); __vf_reach("func"); } else __vf_reach("top");
  /* the deeper a value, the fewer instructions care about its type */
  int d=full?vf_choose(0,3,"depth"):1;
#if THOROUGH
  for (int i=d;i>0;--i) buzzvm_push(vm,mk(vf_choose(0,8,"t")));
#else
  for (int i=d;i>0;--i) buzzvm_push(vm,full?(i==3?mk(vf_choose(4,7,"t")):mk(vf_choose(0,8,"t"))):mk(0));
#endif
  if (tail>=4) { uint32_t arg; memcpy(&arg,B+4,4); if (B[3]==BUZZVM_INSTR_PUSHS&&d>0) __vf_assume(arg==0); if (B[3]==BUZZVM_INSTR_LSTORE) __vf_assume(arg<=6||arg>UINT16_MAX); }
  uint32_t depth=buzzdarray_size(vm->stacks);
  buzzvm_step(vm); consistent(); if (called) __vf_reach("ccall"); if (buzzdarray_size(vm->stacks)>depth) __vf_reach("ncall"); outcome();
#endif
  buzzvm_destroy(&vm); free(B);
}
