/* Helpers for harnesses that run a Buzz VM: build values through the public C API, compile and run scripts. */
#ifndef VMH_H
#define VMH_H
#include <buzz/buzzvm.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzparser.h>
#include "vf.h"
#ifdef VF_NATIVE
static int vf_precise_asprintf;
#else
extern int vf_precise_asprintf; /* exact asprintf() text: needed while compiling, noise in error messages */
#endif
static const uint8_t VMH_EMPTY[]={0,0,BUZZVM_INSTR_NOP,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE,BUZZVM_INSTR_DONE};
/* a VM with every library registered and an empty program */
static inline buzzvm_t vmh_new(uint16_t robot) { buzzvm_t vm=buzzvm_new(robot); buzzvm_set_bcode(vm,VMH_EMPTY,sizeof VMH_EMPTY); return vm; }
static inline int vmh_compile(const char* src, size_t len, uint8_t** bc, uint32_t* size, buzzdebug_t* dbg) {
  char* argv[]={"bzzparse","t.bzz","t.basm",NULL}; __vf_file_put("t.bzz",src,len);
  vf_precise_asprintf=1; buzzparser_t p=buzzparser_new(3,argv); if (!p) return 0; int ok=buzzparser_parse(p); buzzparser_destroy(&p);
  if (ok) ok=buzz_asm("t.basm",bc,size,dbg)==0; vf_precise_asprintf=0; return ok; }
static inline void vmh_seto(buzzvm_t vm, const char* name, buzzobj_t o) { buzzvm_pushs(vm,buzzvm_string_register(vm,name,1)); buzzvm_push(vm,o); buzzvm_gstore(vm); }
static inline void vmh_seti(buzzvm_t vm, const char* name, int32_t v) { buzzvm_pushs(vm,buzzvm_string_register(vm,name,1)); buzzvm_pushi(vm,v); buzzvm_gstore(vm); }
static inline void vmh_setf(buzzvm_t vm, const char* name, float v) { buzzvm_pushs(vm,buzzvm_string_register(vm,name,1)); buzzvm_pushf(vm,v); buzzvm_gstore(vm); }
static inline void vmh_setc(buzzvm_t vm, const char* name, buzzvm_funp f) { buzzvm_pushs(vm,buzzvm_string_register(vm,name,1)); buzzvm_pushcc(vm,buzzvm_function_register(vm,f)); buzzvm_gstore(vm); }
static inline buzzobj_t vmh_get(buzzvm_t vm, const char* name) { buzzvm_pushs(vm,buzzvm_string_register(vm,name,1)); buzzvm_gload(vm); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_nil(buzzvm_t vm) { buzzvm_pushnil(vm); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_int(buzzvm_t vm, int32_t v) { buzzvm_pushi(vm,v); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_flt(buzzvm_t vm, float v) { buzzvm_pushf(vm,v); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_str(buzzvm_t vm, const char* s) { buzzvm_pushs(vm,buzzvm_string_register(vm,s,0)); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_tab(buzzvm_t vm) { buzzvm_pusht(vm); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_fun(buzzvm_t vm, int32_t ref, int native) { buzzvm_pushc(vm,ref,native); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline void vmh_tput(buzzvm_t vm, buzzobj_t t, buzzobj_t k, buzzobj_t v) { buzzvm_push(vm,t); buzzvm_push(vm,k); buzzvm_push(vm,v); buzzvm_tput(vm); }
static inline buzzobj_t vmh_tget(buzzvm_t vm, buzzobj_t t, buzzobj_t k) { buzzvm_push(vm,t); buzzvm_push(vm,k); buzzvm_tget(vm); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }
static inline buzzobj_t vmh_tgets(buzzvm_t vm, buzzobj_t t, const char* k) { return vmh_tget(vm,t,vmh_str(vm,k)); }
static inline int vmh_isi(buzzobj_t o, int32_t v) { return o->o.type==BUZZTYPE_INT && o->i.value==v; }
static inline int vmh_iss(buzzobj_t o, const char* s) { return o->o.type==BUZZTYPE_STRING && strcmp(o->s.value.str,s)==0; }
static inline int vmh_isfb(buzzobj_t o, float v) { return o->o.type==BUZZTYPE_FLOAT && vf_fbits(o->f.value)==vf_fbits(v); }
/* compile a script and load it; the program has not run yet */
static inline buzzvm_t vmh_load(uint16_t robot, const char* src) {
  uint8_t* bc; uint32_t n; buzzdebug_t d=NULL; int ok=vmh_compile(src,strlen(src),&bc,&n,&d); VF_ASSERTM(ok,"a valid program compiles"); if (!ok) exit(0);
  buzzvm_t vm=buzzvm_new(robot); buzzvm_set_bcode(vm,bc,n); return vm; }
static inline buzzvm_t vmh_run(uint16_t robot, const char* src) { buzzvm_t vm=vmh_load(robot,src); buzzvm_execute_script(vm); return vm; }
/* call a script function with arguments (pushed in order) and return its result */
static inline buzzobj_t vmh_call(buzzvm_t vm, const char* f, int n, buzzobj_t a, buzzobj_t b, buzzobj_t c) {
  if (vm->state==BUZZVM_STATE_DONE) vm->state=BUZZVM_STATE_READY;
  buzzvm_push(vm,vmh_get(vm,f)); if (n>0) buzzvm_push(vm,a); if (n>1) buzzvm_push(vm,b); if (n>2) buzzvm_push(vm,c);
  if (buzzvm_closure_call(vm,(uint32_t)n)!=BUZZVM_STATE_READY) return NULL; buzzobj_t r=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return r; }
#endif
