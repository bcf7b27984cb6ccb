// Script library: vectors, message collection and arrows, run through the real compiler and machine.
// QUICK vec   -DMODE=0 time=300 reach=ok
// BOTH vecc   -DMODE=4 time=300 reach=ok
// QUICK veci  -DMODE=3 time=300 reach=ok
// QUICK msgs  -DMODE=1 -DN=3 time=300 reach=ok,replaced,reset,other
// BOTH arrow  -DMODE=2 -DN=4 time=100 reach=ok,one,again
// THOROUGH vec   -DMODE=0 time=2000
// THOROUGH veci  -DMODE=3 time=2000
// THOROUGH msgs  -DMODE=1 -DN=4 time=2000
#include "vmh.h"
#include <math.h>
#include "repo_bzz.h"
static buzzvm_t vm;
static const char SRC[]="include \"vec2.bzz\"\ninclude \"neighbors.bzz\"\ninclude \"arrows.bzz\"\n"
 "function vnew(a,b) { return math.vec2.new(a, b) }\nfunction vadd(a,b) { return math.vec2.add(a, b) }\nfunction vsub(a,b) { return math.vec2.sub(a, b) }\nfunction vsc(a,b) { return math.vec2.scale(a, b) }\nfunction vdot(a,b) { return math.vec2.dot(a, b) }\nfunction vlen(a,b) { return math.vec2.length(a) }\nfunction vang(a,b) { return math.vec2.angle(a) }\nfunction vnrm(a,b) { return math.vec2.norm(a) }\nfunction vpol(a,b) { return math.vec2.newp(a, b) }\nfunction vrot(a,b) { return math.vec2.rotate(a, b) }\n"
 "function col(t) { neighbors.collect(t) }\nfunction rst(t) { neighbors.reset(t) }\nfunction get(t) { return neighbors.msgs[t] }\n"
 "function arr(n) { seq = arrows.begin(a0)  if(n > 1) { seq = seq.next(a1) }  if(n > 2) { seq = seq.next(a2) }  if(n > 3) { seq = seq.next(a3) }  arrows.run(seq) }\nfunction again() { arrows.run(seq) }\n";
static buzzobj_t call(const char* f, int n, buzzobj_t a, buzzobj_t b) { int64_t st=buzzvm_stack_top(vm); buzzobj_t r=vmh_call(vm,f,n,a,b,NULL); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(vm)==st,"runs"); if (!r) exit(0); return r; }
static int isf(buzzobj_t o, float v) { return o->o.type==BUZZTYPE_FLOAT&&(vf_fbits(o->f.value)==vf_fbits(v)||(v!=v&&o->f.value!=o->f.value)); }
static int isv(buzzobj_t o, float x, float y) { return o->o.type==BUZZTYPE_TABLE&&buzzdict_size(o->t.value)==2&&isf(vmh_tgets(vm,o,"x"),x)&&isf(vmh_tgets(vm,o,"y"),y); }
static int isvi(buzzobj_t o, uint32_t x, uint32_t y) { return o->o.type==BUZZTYPE_TABLE&&vmh_isi(vmh_tgets(vm,o,"x"),(int32_t)x)&&vmh_isi(vmh_tgets(vm,o,"y"),(int32_t)y); }
static int ran[16], nran; static int a0(buzzvm_t v) { ran[nran++]=0; return buzzvm_ret0(v); } static int a1(buzzvm_t v) { ran[nran++]=1; return buzzvm_ret0(v); } static int a2(buzzvm_t v) { ran[nran++]=2; return buzzvm_ret0(v); } static int a3(buzzvm_t v) { ran[nran++]=3; return buzzvm_ret0(v); }
void vf_main(void) {
  __vf_file_put("vec2.bzz",BZZ_vec2,sizeof BZZ_vec2-1); __vf_file_put("neighbors.bzz",BZZ_neighbors,sizeof BZZ_neighbors-1); __vf_file_put("arrows.bzz",BZZ_arrows,sizeof BZZ_arrows-1); vm=vmh_load(1,SRC); vmh_setc(vm,"a0",a0); vmh_setc(vm,"a1",a1); vmh_setc(vm,"a2",a2); vmh_setc(vm,"a3",a3); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); vm->state=BUZZVM_STATE_READY;
#if MODE==0
  float x=vf_f32("x"), y=vf_f32("y"), z=vf_f32("z"), w=vf_f32("w"); __vf_assume(vf_finite(x)&vf_finite(y)&vf_finite(z)&vf_finite(w)); buzzobj_t a=call("vnew",2,vmh_flt(vm,x),vmh_flt(vm,y)), b=call("vnew",2,vmh_flt(vm,z),vmh_flt(vm,w)); vmh_seto(vm,"ha",a); vmh_seto(vm,"hb",b); VF_ASSERTM(isv(a,x,y),"components");
  switch (vf_choose(0,8,"op")) { case 0: VF_ASSERTM(isv(call("vadd",2,a,b),x+z,y+w),"sum"); break; case 1: VF_ASSERTM(isv(call("vsub",2,a,b),x-z,y-w),"difference"); break; case 2: VF_ASSERTM(isv(call("vsc",2,a,vmh_flt(vm,z)),x*z,y*z),"scaled"); break; case 3: VF_ASSERTM(isf(call("vdot",2,a,b),x*z+y*w),"dot product"); break;
    case 4: { float q=x*x+y*y; VF_ASSERTM(isf(call("vlen",2,a,b),sqrtf(q)),"length"); break; } case 5: VF_ASSERTM(isf(call("vang",2,a,b),atan2f(y,x)),"angle"); break; case 6: { float l=sqrtf(x*x+y*y); __vf_assume(l!=0); VF_ASSERTM(isv(call("vnrm",2,a,b),x/l,y/l),"normalised"); break; }
    case 7: VF_ASSERTM(isv(call("vpol",2,vmh_flt(vm,x),vmh_flt(vm,y)),x*cosf(y),x*sinf(y)),"polar coordinates"); break; default: VF_ASSERTM(isv(call("vrot",2,a,vmh_flt(vm,z)),x*cosf(z)-y*sinf(z),x*sinf(z)+y*cosf(z)),"rotated"); }
  VF_ASSERTM(isv(a,x,y)&&isv(b,z,w),"the arguments are unchanged"); __vf_reach("ok");
#elif MODE==4
  /* chosen vectors, for the functions whose value on symbolic floats is an uninterpreted term */
  static const float V[][2]={{1,0},{0,2},{-1.5f,0.5f},{3,-4},{-2,-7.25f}}; static const float Z[]={0,0.5f,-1,2.25f}; int k=vf_choose(0,4,"v"), j=vf_choose(0,3,"z"); float x=V[k][0], y=V[k][1], z=Z[j]; buzzobj_t a=call("vnew",2,vmh_flt(vm,x),vmh_flt(vm,y)); vmh_seto(vm,"ha",a);
  VF_ASSERTM(isf(call("vang",2,a,a),atan2f(y,x)),"angle"); VF_ASSERTM(isf(call("vlen",2,a,a),sqrtf(x*x+y*y)),"length"); VF_ASSERTM(isv(call("vpol",2,vmh_flt(vm,x),vmh_flt(vm,z)),x*cosf(z),x*sinf(z)),"polar coordinates"); float c=cosf(z), s=sinf(z), xc=x*c, ys=y*s, xs=x*s, yc=y*c; VF_ASSERTM(isv(call("vrot",2,a,vmh_flt(vm,z)),xc-ys,xs+yc),"rotated"); float l=sqrtf(x*x+y*y); VF_ASSERTM(isv(call("vnrm",2,a,a),x/l,y/l),"normalised"); VF_ASSERTM(isv(a,x,y),"the argument is unchanged"); __vf_reach("ok");
#elif MODE==3
  int32_t x=vf_i32("x"), y=vf_i32("y"), z=vf_i32("z"), w=vf_i32("w"); uint32_t X=x,Y=y,Z=z,W=w; buzzobj_t a=call("vnew",2,vmh_int(vm,x),vmh_int(vm,y)), b=call("vnew",2,vmh_int(vm,z),vmh_int(vm,w)); vmh_seto(vm,"ha",a); vmh_seto(vm,"hb",b);
  switch (vf_choose(0,3,"op")) { case 0: VF_ASSERTM(isvi(call("vadd",2,a,b),X+Z,Y+W),"sum"); break; case 1: VF_ASSERTM(isvi(call("vsub",2,a,b),X-Z,Y-W),"difference"); break; case 2: VF_ASSERTM(isvi(call("vsc",2,a,vmh_int(vm,z)),X*Z,Y*Z),"scaled"); break; default: VF_ASSERTM(vmh_isi(call("vdot",2,a,b),(int32_t)(X*Z+Y*W)),"dot product"); } VF_ASSERTM(isvi(a,X,Y)&&isvi(b,Z,W),"the arguments are unchanged"); __vf_reach("ok");
#elif MODE==1
  static const char* T[]={"a","b"}; static const uint16_t R[]={1000,2000}; int32_t val[2][2]; int has[2][2]={{0,0},{0,0}}, col[2]={0,0}; call("col",1,vmh_str(vm,"a"),NULL); col[0]=1;
  for (int s=0;s<N;++s) { int t=vf_choose(0,1,"topic"); switch (vf_choose(0,2,"op")) { case 0: call("col",1,vmh_str(vm,T[t]),NULL); col[t]=1; break; case 1: call("rst",1,vmh_str(vm,T[t]),NULL); if (has[t][0]|has[t][1]) __vf_reach("reset"); has[t][0]=has[t][1]=0; break;
      default: { int r=vf_choose(0,1,"robot"); int32_t v=vf_i32("v"); buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,BUZZMSG_BROADCAST); buzzobj_serialize(m,vmh_str(vm,T[t])); buzzobj_serialize(m,vmh_int(vm,v)); buzzinmsg_queue_append(vm,R[r],m); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"received"); if (col[t]) { if (has[t][r]) __vf_reach("replaced"); has[t][r]=1; val[t][r]=v; } else __vf_reach("other"); } } }
  for (int t=0;t<2;++t) { buzzobj_t o=call("get",1,vmh_str(vm,T[t]),NULL); int c=has[t][0]+has[t][1]; if (!c) VF_ASSERTM(o->o.type==BUZZTYPE_NIL,"no messages"); else { VF_ASSERTM(o->o.type==BUZZTYPE_TABLE&&buzzdict_size(o->t.value)==(uint32_t)c,"one entry per sender"); for (int r=0;r<2;++r) if (has[t][r]) VF_ASSERTM(vmh_isi(vmh_tget(vm,o,vmh_int(vm,R[r])),val[t][r]),"the last value of each sender"); } } __vf_reach("ok");
#else
  int n=vf_choose(1,N,"n"), times=1; call("arr",1,vmh_int(vm,n),NULL); if (vf_choose(0,1,"again")) { call("again",0,NULL,NULL); times=2; __vf_reach("again"); } VF_ASSERTM(nran==n*times,"each function once per run"); for (int i=0;i<n*times&&i<nran;++i) VF_ASSERTM(ran[i]==i%n,"in order"); if (n==1) __vf_reach("one"); __vf_reach("ok");
#endif
}
