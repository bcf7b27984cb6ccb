// Calls: argument binding, captured environments, results, and what the caller finds afterwards.
// QUICK arity -DARITY time=200 reach=exact,missing,extra,error,nil
// QUICK nest  -DNEST time=200 reach=ok
// QUICK cfun  -DCFUN time=200 reach=fromscript,fromhost,callback
// QUICK host  -DHOST time=200 reach=ok,unknown,notfun
// QUICK rec   -DREC -DD=5 time=200 reach=deep
// THOROUGH arity -DARITY time=900
// THOROUGH nest  -DNEST time=900
// THOROUGH cfun  -DCFUN time=900
// THOROUGH host  -DHOST time=900
// THOROUGH rec   -DREC -DD=12 time=900
#include "vmh.h"
static const char SRC[]=
 "function f0() { return 7 }\n"
 "function f1(a) { return a }\n"
 "function f2(a,b) { return {.x=a,.y=b} }\n"
 "function f3(a,b,c) { return {.x=a,.y=b,.z=c} }\n"
 "function loc(a,b) { var c = 5  return {.x=a,.y=c} }\n"
 "function locb(a,b) { var c = 5  return {.x=b,.y=c} }\n"
 "function none(a) { a = 1 }\n"
 "function adder(a,b) { return function(c) { return {.x=a,.y=b,.z=c} } }\n"
 "function capt(a,b,c) { var f = adder(a,b)  var g = adder(c,a)  var r = f(9)  return {.f=r,.g=g(b),.a=a,.b=b,.c=c} }\n"
 "function sum3(a,b,c) { var s = a + b  return s + c }\n"
 "function nest(x,y) { var p = x + 1  var q = sum3(p, y, f1(x))  var r = f2(q, none(y))  var s = loc(y,x)  return {.x=x,.y=y,.p=p,.q=q,.r=r,.s=s,.e=x - f1(y) - f1(p),.n=none(x)} }\n"
 "function rec(n,acc) { var k = n  if(n <= 0) { return acc }  var r = rec(n - 1, acc + n)  return {.k=k,.r=r} }\n"
 "function useC(a,b) { var l = a  var m = cadd(a,b)  var k = cnil(b)  return {.l=l,.m=m,.k=k,.b=b} }\n"
 "function viaC(f,a) { var l = a  var r = capply(f,a)  return {.l=l,.r=r} }\n"
 "function twice(a) { return a + a }\n"
 "notfun = 3\n";
static buzzvm_t vm; static int32_t seen[4]; static int nseen;
static int cadd(buzzvm_t v) { nseen=(int)buzzvm_lnum(v); for (int i=1;i<=nseen&&i<=3;++i) { buzzvm_lload(v,i); seen[i]=buzzvm_stack_at(v,1)->i.value; } buzzvm_pushi(v,(int32_t)((uint32_t)seen[1]+(uint32_t)seen[2])); return buzzvm_ret1(v); }
static int cnil(buzzvm_t v) { return buzzvm_ret0(v); }
static int capply(buzzvm_t v) { buzzvm_lload(v,1); buzzvm_lload(v,2); if (buzzvm_closure_call(v,1)!=BUZZVM_STATE_READY) return v->state; VF_ASSERTM(buzzvm_stack_top(v)==1,"a callback leaves exactly its result"); return buzzvm_ret1(v); }
static int32_t A,B,C;
static int isI(buzzobj_t o, int32_t v) { return vmh_isi(o,v); }
static buzzobj_t F(buzzobj_t t, const char* k) { VF_ASSERTM(t&&t->o.type==BUZZTYPE_TABLE,"result is a table"); return vmh_tgets(vm,t,k); }
static void level(void) { VF_ASSERTM(buzzdarray_size(vm->stacks)==1&&buzzdarray_isempty(vm->lsymts)&&vm->lsyms==NULL,"no call is left active"); }
/* calls f with n arguments above two other values; the result must replace the call and nothing else may move */
static buzzobj_t call(const char* f, int n, buzzobj_t* a) {
  buzzvm_pushi(vm,41); buzzvm_pushi(vm,42); buzzvm_push(vm,vmh_get(vm,f)); for (int i=0;i<n;++i) buzzvm_push(vm,a[i]); int32_t pc=vm->pc;
  if (buzzvm_closure_call(vm,(uint32_t)n)!=BUZZVM_STATE_READY) return NULL;
  level(); VF_ASSERTM(buzzvm_stack_top(vm)==3&&isI(buzzvm_stack_at(vm,2),42)&&isI(buzzvm_stack_at(vm,3),41),"the result takes the place of the call"); VF_ASSERTM(vm->pc==pc,"execution resumes where it was");
  buzzobj_t r=buzzvm_stack_at(vm,1); buzzvm_pop(vm); buzzvm_pop(vm); buzzvm_pop(vm); return r; }
void vf_main(void) {
  vm=vmh_load(4,SRC); vmh_setc(vm,"cadd",cadd); vmh_setc(vm,"cnil",cnil); vmh_setc(vm,"capply",capply); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); while (buzzvm_stack_top(vm)) buzzvm_pop(vm); vm->state=BUZZVM_STATE_READY;
  A=vf_i32("a"); B=vf_i32("b"); C=vf_i32("c"); buzzobj_t a[4]={vmh_int(vm,A),vmh_int(vm,B),vmh_int(vm,C),vmh_int(vm,99)};
#ifdef ARITY
  int which=vf_choose(0,6,"f"), n=vf_choose(0,4,"n"); static const char* NM[]={"f0","f1","f2","f3","loc","locb","none"}; static const int AR[]={0,1,2,3,2,2,1}; int ar=AR[which];
  if (n==ar) __vf_reach("exact"); else if (n<ar) __vf_reach("missing"); else __vf_reach("extra");
  buzzobj_t r=call(NM[which],n,a);
  if (!r) { VF_ASSERTM(n<ar&&vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL,"only a missing argument may be an error"); __vf_reach("error"); buzzvm_destroy(&vm); return; }
  switch (which) { case 0: VF_ASSERTM(isI(r,7),"constant result"); break;
    case 1: VF_ASSERTM(n<1?r->o.type==BUZZTYPE_NIL:isI(r,A),"the argument"); break;
    case 2: if (n>=2) VF_ASSERTM(isI(F(r,"x"),A)&&isI(F(r,"y"),B),"arguments in order"); else VF_ASSERTM(F(r,"y")->o.type==BUZZTYPE_NIL,"a missing argument is nil"); break;
    case 3: if (n>=3) VF_ASSERTM(isI(F(r,"x"),A)&&isI(F(r,"y"),B)&&isI(F(r,"z"),C),"arguments in order"); else VF_ASSERTM(F(r,"z")->o.type==BUZZTYPE_NIL,"a missing argument is nil"); break;
    case 4: VF_ASSERTM(isI(F(r,"y"),5),"a local variable is not an argument"); VF_ASSERTM(n<1?F(r,"x")->o.type==BUZZTYPE_NIL:isI(F(r,"x"),A),"locals do not disturb arguments"); break;
    case 5: VF_ASSERTM(isI(F(r,"y"),5),"a local variable is not an argument"); VF_ASSERTM(n<2?F(r,"x")->o.type==BUZZTYPE_NIL:isI(F(r,"x"),B),"a missing argument never reads as another value"); break;
    default: VF_ASSERTM(r->o.type==BUZZTYPE_NIL,"no return gives nil"); __vf_reach("nil"); }
#elif defined(NEST)
  buzzobj_t r=call("nest",2,a); VF_ASSERTM(r!=NULL,"runs"); uint32_t x=(uint32_t)A,y=(uint32_t)B,p=x+1;
  VF_ASSERTM(isI(F(r,"x"),A)&&isI(F(r,"y"),B)&&isI(F(r,"p"),(int32_t)p),"the caller's arguments and locals are untouched"); VF_ASSERTM(isI(F(r,"q"),(int32_t)(p+y+x)),"nested arguments"); VF_ASSERTM(isI(F(F(r,"r"),"x"),(int32_t)(p+y+x))&&F(F(r,"r"),"y")->o.type==BUZZTYPE_NIL,"a result without value is nil"); VF_ASSERTM(isI(F(F(r,"s"),"x"),B)&&isI(F(F(r,"s"),"y"),5),"callee locals"); VF_ASSERTM(isI(F(r,"e"),(int32_t)(x-y-p)),"calls inside an expression"); VF_ASSERTM(F(r,"n")->o.type==BUZZTYPE_NIL,"nil");
  r=call("capt",3,a); VF_ASSERTM(r!=NULL,"runs"); buzzobj_t f=F(r,"f"), g=F(r,"g"); VF_ASSERTM(isI(F(f,"x"),A)&&isI(F(f,"y"),B)&&isI(F(f,"z"),9),"first closure sees its captured environment"); VF_ASSERTM(isI(F(g,"x"),C)&&isI(F(g,"y"),A)&&isI(F(g,"z"),B),"second closure sees its own"); VF_ASSERTM(isI(F(r,"a"),A)&&isI(F(r,"b"),B)&&isI(F(r,"c"),C),"arguments survive");
  r=call("adder",2,a); VF_ASSERTM(r&&r->o.type==BUZZTYPE_CLOSURE,"a closure"); vmh_seto(vm,"cl",r); buzzobj_t z=a[2]; r=call("cl",1,&z); VF_ASSERTM(r&&isI(F(r,"x"),A)&&isI(F(r,"y"),B)&&isI(F(r,"z"),C),"the environment outlives the call that made it"); __vf_reach("ok");
#elif defined(CFUN)
  buzzobj_t r=call("useC",2,a); VF_ASSERTM(r!=NULL,"runs"); VF_ASSERTM(nseen==2&&seen[1]==A&&seen[2]==B,"a C function receives its arguments in order"); VF_ASSERTM(isI(F(r,"l"),A)&&isI(F(r,"b"),B)&&isI(F(r,"m"),(int32_t)((uint32_t)A+(uint32_t)B))&&F(r,"k")->o.type==BUZZTYPE_NIL,"C results and caller locals"); __vf_reach("fromscript");
  int n=vf_choose(0,3,"n"); nseen=-1; seen[1]=seen[2]=0; r=call("cadd",n,a); VF_ASSERTM(r!=NULL&&nseen==n,"argument count"); for (int i=0;i<n;++i) VF_ASSERTM(seen[i+1]==(i==0?A:i==1?B:C),"arguments in order"); VF_ASSERTM(isI(r,(int32_t)((uint32_t)seen[1]+(uint32_t)seen[2])),"result"); r=call("cnil",n,a); VF_ASSERTM(r&&r->o.type==BUZZTYPE_NIL,"nil result"); __vf_reach("fromhost");
  buzzobj_t b[2]={vmh_get(vm,vf_choose(0,1,"cb")?"twice":"f1"),a[0]}; int tw=b[0]->c.value.ref==vmh_get(vm,"twice")->c.value.ref; r=call("viaC",2,b); VF_ASSERTM(r&&isI(F(r,"l"),A)&&isI(F(r,"r"),tw?(int32_t)((uint32_t)A+(uint32_t)A):A),"script to C to script and back"); b[0]=vmh_get(vm,"cnil"); r=call("viaC",2,b); VF_ASSERTM(r&&isI(F(r,"l"),A)&&F(r,"r")->o.type==BUZZTYPE_NIL,"script to C to C and back"); __vf_reach("callback");
#elif defined(HOST)
  int w=vf_choose(0,3,"w"), done=vf_choose(0,1,"done"); if (done) vm->state=BUZZVM_STATE_DONE; buzzvm_pushi(vm,41);
  if (w==0) { for (int i=0;i<3;++i) buzzvm_push(vm,a[i]); VF_ASSERTM(buzzvm_function_call(vm,"f3",3)==BUZZVM_STATE_READY,"runs"); level(); VF_ASSERTM(buzzvm_stack_top(vm)==2&&isI(buzzvm_stack_at(vm,2),41),"result on top, the rest untouched"); buzzobj_t r=buzzvm_stack_at(vm,1); VF_ASSERTM(isI(F(r,"x"),A)&&isI(F(r,"y"),B)&&isI(F(r,"z"),C),"arguments in order"); __vf_reach("ok"); }
  else if (w==1) { VF_ASSERTM(buzzvm_function_call(vm,"f0",0)==BUZZVM_STATE_READY,"runs"); level(); VF_ASSERTM(buzzvm_stack_top(vm)==2&&isI(buzzvm_stack_at(vm,1),7)&&isI(buzzvm_stack_at(vm,2),41),"result on top"); }
  else if (w==2) { VF_ASSERTM(buzzvm_function_call(vm,"nosuch",0)==BUZZVM_STATE_ERROR&&vm->error==BUZZVM_ERROR_TYPE&&buzzvm_strerror(vm),"an unknown function is an error"); __vf_reach("unknown"); }
  else { VF_ASSERTM(buzzvm_function_call(vm,"notfun",0)==BUZZVM_STATE_ERROR&&vm->error==BUZZVM_ERROR_TYPE&&buzzvm_strerror(vm),"calling something else is an error"); __vf_reach("notfun"); }
#else
  int n=vf_choose(0,D,"n"); a[0]=vmh_int(vm,n); buzzobj_t r=call("rec",2,a); VF_ASSERTM(r!=NULL,"runs"); uint32_t s=(uint32_t)B; for (int i=n;i>0;--i) { VF_ASSERTM(isI(F(r,"k"),i),"each activation keeps its own local"); s+=(uint32_t)i; r=F(r,"r"); if (i==D) __vf_reach("deep"); } VF_ASSERTM(isI(r,(int32_t)s),"accumulated");
#endif
  buzzvm_destroy(&vm);
}
