// Math library: exact results for all arguments; uniform numbers in range for every generator output; equal seeds, equal sequences.
// BOTH abs    -DMODE=0 time=250 reach=int,float
// BOTH round  -DMODE=1 time=300 reach=int,float
// BOTH roundc -DMODE=9 time=300 reach=ok
// BOTH minmax -DMODE=2 time=300 reach=ok
// BOTH range  -DMODE=3 time=300 reach=one,two,none
// QUICK frange -DMODE=4 -DK=4 time=300 reach=one,two,mixed
// BOTH seed   -DMODE=5 -DDRAWS=3 time=300 reach=ok
// BOTH libm   -DMODE=6 time=200 reach=int,float
// BOTH bad    -DMODE=7 time=200 reach=error
// BOTH libmc  -DMODE=8 time=200 reach=ok
// THOROUGH frange -DMODE=4 -DK=8 time=2500
#include "vmh.h"
#include <math.h>
static buzzvm_t vm;
static buzzobj_t fn(const char* a, const char* b) { buzzobj_t o=vmh_tgets(vm,vmh_get(vm,"math"),a); return b?vmh_tgets(vm,o,b):o; }
static buzzobj_t call0(buzzobj_t f, int n, buzzobj_t a, buzzobj_t b) { buzzvm_push(vm,f); if (n>0) buzzvm_push(vm,a); if (n>1) buzzvm_push(vm,b); if (n>2) buzzvm_push(vm,a); if (buzzvm_closure_call(vm,(uint32_t)n)!=BUZZVM_STATE_READY) return NULL; buzzobj_t r=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return r; }
static buzzobj_t call(buzzobj_t f, int n, buzzobj_t a, buzzobj_t b) { int64_t st=buzzvm_stack_top(vm); buzzobj_t r=call0(f,n,a,b); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(vm)==st,"a result"); if (!r) exit(0); return r; }
/* the generator's next outputs are arbitrary: the tempering of an arbitrary word is an arbitrary word */
static void anyrandom(int n) { vm->rngidx=3; for (int i=0;i<n;++i) vm->rngstate[3+i]=vf_i32("random"); }
void vf_main(void) {
  vm=vmh_new(1); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"machine is ready");
#if MODE==0
  if (vf_choose(0,1,"float")) { float x=vf_f32("x"); __vf_assume(x==x); buzzobj_t r=call(fn("abs",NULL),1,vmh_flt(vm,x),NULL); VF_ASSERTM(vmh_isfb(r,x<0||vf_fbits(x)==0x80000000u?-x:x),"absolute value"); __vf_reach("float"); }
  else { int32_t x=vf_i32("x"); __vf_assume(x!=INT32_MIN); buzzobj_t r=call(fn("abs",NULL),1,vmh_int(vm,x),NULL); VF_ASSERTM(vmh_isi(r,x<0?-x:x),"absolute value"); __vf_reach("int"); }
#elif MODE==1
  static const char* F[]={"floor","ceil","round"}; int f=vf_choose(0,2,"f"); if (vf_choose(0,1,"float")) { float x=vf_f32("x"); __vf_assume(x>-2147483000.f&&x<2147483000.f); buzzobj_t r=call(fn(F[f],NULL),1,vmh_flt(vm,x),NULL); VF_ASSERTM(r->o.type==BUZZTYPE_INT,"an integer"); double i=r->i.value, d=x;
    if (f==0) VF_ASSERTM((i<=d)&(d<i+1),"the largest integer not above"); else if (f==1) VF_ASSERTM((i>=d)&(d>i-1),"the smallest integer not below"); else VF_ASSERTM((d-i<=0.5)&(i-d<=0.5)&((d-i!=0.5)|(d<0))&((i-d!=0.5)|(d>0)),"the nearest integer, halves away from zero"); __vf_reach("float"); }
  else { int32_t x=vf_i32("x"); VF_ASSERTM(vmh_isi(call(fn(F[f],NULL),1,vmh_int(vm,x),NULL),x),"an integer is itself"); __vf_reach("int"); }
#elif MODE==9
  /* chosen arguments: every multiple of a quarter around zero, and the places where adding a half would round */
  static const float X[]={0.49999997f,-0.49999997f,8388607.5f,8388608.f,8388609.f,16777215.f,-8388607.5f,-8388609.f,2147483520.f,-2147483648.f,1e-30f,-1e-30f}; static const char* F[]={"floor","ceil","round"}; int f=vf_choose(0,2,"f"), k=vf_choose(-34,34+12,"k"); float x= k>34?X[k-35]:(float)k*0.25f; double d=x; int64_t t=(int64_t)d; double q=d-(double)t; if (f==0) t-= q<0; else if (f==1) t+= q>0; else { t+= q>=0.5; t-= q<=-0.5; } buzzobj_t r=call(fn(F[f],NULL),1,vmh_flt(vm,x),NULL); VF_ASSERTM(vmh_isi(r,(int32_t)t),"the rounded value"); __vf_reach("ok");
#elif MODE==2
  int k=vf_choose(0,3,"kinds"), f=vf_choose(0,1,"f"); buzzobj_t o[2]; double d[2]; for (int i=0;i<2;++i) if (k>>i&1) { float x=vf_f32("x"); __vf_assume(x==x); o[i]=vmh_flt(vm,x); d[i]=x; } else { int32_t x= k?vf_range(-65535,65535,"x"):vf_i32("x"); o[i]=vmh_int(vm,x); d[i]=x; }
  buzzobj_t r=call(fn(f?"max":"min",NULL),2,o[0],o[1]); VF_ASSERTM(r==o[0]||r==o[1]||((r->o.type==o[0]->o.type&&vf_fbits(r->f.value)==vf_fbits(o[0]->f.value))||(r->o.type==o[1]->o.type&&vf_fbits(r->f.value)==vf_fbits(o[1]->f.value))),"one of the two"); double v=r->o.type==BUZZTYPE_INT?(double)r->i.value:(double)r->f.value; VF_ASSERTM(f?v>=d[0]&&v>=d[1]:v<=d[0]&&v<=d[1],"the extreme one"); __vf_reach("ok");
#elif MODE==3
  int n=vf_choose(0,2,"n"); anyrandom(1); static const int32_t P[][2]={{0,1},{0,0},{-5,5},{100,-100},{3,1000},{INT32_MIN,INT32_MAX},{-1,INT32_MIN},{7,INT32_MAX},{0,65536},{12345,-2000000000}}; int p=n?vf_choose(0,9,"bounds"):0; int32_t a=P[p][n==1], b=P[p][1]; buzzobj_t r=call(fn("rng","uniform"),n,vmh_int(vm,a),vmh_int(vm,b)); VF_ASSERTM(r->o.type==BUZZTYPE_INT,"an integer"); if (n==1) { b=a; a=0; } if (n) { int32_t lo=a<b?a:b, hi=a<b?b:a; VF_ASSERTM((r->i.value>=lo)&(r->i.value<=hi),"between the bounds"); } __vf_reach(n==0?"none":n==1?"one":"two");
#elif MODE==4
  static const float B[]={1,10,0.5f,-3,1e6f,-0.1f,7.25f,1e-3f}; anyrandom(1); switch (vf_choose(0,2,"n")) { case 0: { float m=B[vf_choose(0,K-1,"m")]; buzzobj_t r=call(fn("rng","uniform"),1,vmh_flt(vm,m),NULL); VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&(m>0?r->f.value>=0&&r->f.value<=m:r->f.value<=0&&r->f.value>=m),"between zero and the bound"); __vf_reach("one"); break; }
    case 1: { int i=vf_choose(0,K-2,"i"); float a=B[i], b=B[i+1], t=b-a, top=t+a; buzzobj_t r=call(fn("rng","uniform"),2,vmh_flt(vm,a),vmh_flt(vm,b)); float lo=a<top?a:top, hi=a<top?top:a; VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&r->f.value>=lo&&r->f.value<=hi,"between the bounds"); __vf_reach("two"); break; }
    default: { int w=vf_choose(0,1,"which"), z=vf_choose(-3,4,"int"); float f=B[vf_choose(0,K-1,"f")], a=w?f:z, b=w?z:f, t=b-a, top=t+a; buzzobj_t r=call(fn("rng","uniform"),2,w?vmh_flt(vm,f):vmh_int(vm,z),w?vmh_int(vm,z):vmh_flt(vm,f)); float lo=a<top?a:top, hi=a<top?top:a; VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&r->f.value>=lo&&r->f.value<=hi,"between the bounds"); __vf_reach("mixed"); } }
#elif MODE==5
  /* two machines, one seed; also the same machine seeded again after any number of draws */
  static const int32_t SEEDS[]={0,1,-1,INT32_MIN,12345,INT32_MAX}; int32_t s=SEEDS[vf_choose(0,5,"seed")]; buzzvm_t m2=vmh_new(9), m1=vm; int32_t x[DRAWS], y[DRAWS], z[DRAWS]; int k=vf_choose(0,1,"between"); call(fn("rng","setseed"),1,vmh_int(vm,s),NULL); for (int i=0;i<DRAWS;++i) x[i]=call(fn("rng","uniform"),0,NULL,NULL)->i.value; if (k) vm->rngidx=600; call(fn("rng","setseed"),1,vmh_int(vm,s),NULL); for (int i=0;i<DRAWS;++i) z[i]=call(fn("rng","uniform"),0,NULL,NULL)->i.value;
  vm=m2; call(fn("rng","uniform"),0,NULL,NULL); call(fn("rng","setseed"),1,vmh_int(vm,s),NULL); for (int i=0;i<DRAWS;++i) y[i]=call(fn("rng","uniform"),0,NULL,NULL)->i.value; for (int i=0;i<DRAWS;++i) { VF_ASSERTM(x[i]==z[i],"seeding again restarts the sequence"); VF_ASSERTM(x[i]==y[i],"equal seeds give equal sequences"); } vm=m1; __vf_reach("ok");
#elif MODE==6
  /* each closure is the single-precision function of its name applied to its argument */
  static const char* F[]={"log","log2","log10","exp","sqrt","sin","cos","tan","asin","acos"}; int f=vf_choose(0,9,"f"), isf=vf_choose(0,1,"float"); float x; buzzobj_t o; if (isf) { x=vf_f32("x"); o=vmh_flt(vm,x); } else { int32_t i=vf_i32("i"); x=(float)i; o=vmh_int(vm,i); } float e; switch (f) { case 0: e=logf(x); break; case 1: e=log2f(x); break; case 2: e=log10f(x); break; case 3: e=expf(x); break; case 4: e=sqrtf(x); break; case 5: e=sinf(x); break; case 6: e=cosf(x); break; case 7: e=tanf(x); break; case 8: e=asinf(x); break; default: e=acosf(x); }
  buzzobj_t r=call(fn(F[f],NULL),1,o,NULL); VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&(vf_fbits(r->f.value)==vf_fbits(e)||(e!=e&&r->f.value!=r->f.value)),"the function's value"); __vf_reach(isf?"float":"int");
#elif MODE==8
  static const float X[]={0,1,0.5f,-1,0.25f,-0.75f}; int k=vf_choose(0,5,"x"), j=vf_choose(0,5,"y"); buzzobj_t r=call(fn("atan",NULL),2,vmh_flt(vm,X[k]),vmh_flt(vm,X[j])); float e=atan2f(X[k],X[j]); VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT&&r->f.value==e,"the angle of (x,y)"); r=call(fn("exp",NULL),1,vmh_flt(vm,X[k]),NULL); VF_ASSERTM(r->f.value==expf(X[k]),"exp"); r=call(fn("acos",NULL),1,vmh_flt(vm,X[k]),NULL); VF_ASSERTM(r->f.value==acosf(X[k]),"acos"); VF_ASSERTM(vmh_isfb(fn("pi",NULL),3.14159265f),"pi"); __vf_reach("ok");
#else
  static const char* F[]={"abs","floor","ceil","round","log","log2","log10","exp","sqrt","sin","cos","tan","asin","acos","atan"}; static const char* R[]={"setseed","uniform","gaussian","exponential"}; buzzobj_t bad; switch (vf_choose(0,3,"bad")) { case 0: bad=vmh_nil(vm); break; case 1: bad=vmh_str(vm,"1"); break; case 2: bad=vmh_tab(vm); break; default: bad=fn("abs",NULL); }
  int f=vf_choose(0,18,"f"), n=f==14?2:1, side=f==14?vf_choose(0,1,"side"):0; buzzobj_t one=vmh_int(vm,1); buzzobj_t r= f<15?call0(fn(F[f],NULL),n,side?one:bad,side?bad:one):call0(fn("rng",R[f-15]),f==16?vf_choose(1,2,"n"):1,bad,one); VF_ASSERTM(r==NULL&&vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL,"an argument that is not a number is an error"); __vf_reach("error");
#endif
}
