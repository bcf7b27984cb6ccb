// Tables and variables: the last store wins, keys, tables and variables do not disturb each other, methods know their table.
// QUICK wide  -DTAB -DKT=1 -DOPS=1 time=250 reach=hit,miss
// QUICK int   -DTAB -DKT=5 -DOPS=2 time=250 reach=hit,miss,erased
// QUICK mixed -DTAB -DKT=2 -DOPS=2 time=250 reach=hit,miss,erased,same
// QUICK fkey  -DTAB -DKT=3 -DOPS=1 -DFX=6 time=250 reach=hit,miss
// QUICK twin  -DTAB -DKT=4 -DOPS=3 time=250 reach=hit,miss
// QUICK bad   -DBAD time=100 reach=error
// QUICK vars  -DVARS time=200 reach=ok
// QUICK meth  -DMETH time=200 reach=ok
// QUICK lit   -DLIT time=200 reach=ok
// THOROUGH wide  -DTAB -DKT=1 -DOPS=2 time=2500
// THOROUGH int   -DTAB -DKT=5 -DOPS=3 time=2500
// THOROUGH mixed -DTAB -DKT=2 -DOPS=3 time=2500
// THOROUGH fkey  -DTAB -DKT=3 -DOPS=2 -DFX=31 time=2500
// THOROUGH twin  -DTAB -DKT=4 -DOPS=4 time=2500
// THOROUGH bad   -DBAD time=100
// THOROUGH vars  -DVARS time=900
// THOROUGH meth  -DMETH time=900
// THOROUGH lit   -DLIT time=900
#include "vmh.h"
static buzzvm_t vm;
static buzzobj_t F(buzzobj_t t, const char* k) { VF_ASSERTM(t&&t->o.type==BUZZTYPE_TABLE,"result is a table"); return vmh_tgets(vm,t,k); }
#ifdef TAB
typedef struct { int kind; int32_t i; float f; int s; } KEY; static const char* S[]={"a","35","k10"};
static KEY mk(void) { KEY k={0,0,0,0};
#if KT==1
  k.i=vf_i32("k");
#elif KT==4
  k.i=vf_range(0,3,"k");
#elif KT==5
  k.i=vf_range(-2,8,"k");
#elif KT==2
  k.kind=vf_choose(0,2,"kk"); if (k.kind==0) k.i=vf_choose(33,36,"k")-vf_choose(0,1,"kn")*38; else if (k.kind==1) { static const float fs[]={35.0f,2.5f,-3.0f}; k.f=fs[vf_choose(0,2,"kf")]; } else k.s=vf_choose(0,2,"ks");
#else
  k.kind=1; k.f=vf_f32("k"); __vf_assume(((vf_fbits(k.f)>>23)&255)<127+FX);
#endif
  return k; }
static buzzobj_t ko(KEY k) { return k.kind==0?vmh_int(vm,k.i):k.kind==1?vmh_flt(vm,k.f):vmh_str(vm,S[k.s]); }
static int same(KEY a, KEY b) { if ((a.kind==2)!=(b.kind==2)) return 0; if (a.kind==2) return a.s==b.s; if (a.kind==0&&b.kind==0) return a.i==b.i; return (a.kind?a.f:(float)a.i)==(b.kind?b.f:(float)b.i); }
#endif
#if defined(VARS)||defined(METH)||defined(LIT)
static const char SRC[]=
 "g1 = 0\n g2 = 0\n"
 "function vars(a,b,c) {\n"
 "  var x = a\n  var y = b\n  g1 = c\n"
 "  var inner = function(p) { var xx = p + 1  g2 = xx  y2 = p  return xx }\n"
 "  var z = inner(b)\n"
 "  x = x + 1\n"
 "  var w = {}\n  w.q = x\n  w[b] = y\n"
 "  if(c == a) { var bx = 77  y = y + bx } else { var bx = 88  y = y - bx }\n"
 "  return {.x=x,.y=y,.z=z,.w=w,.g1=g1,.g2=g2,.y2=y2,.u=undefd,.a=a}\n"
 "}\n"
 "function shadow(g1) { g1 = g1 + 1  return g1 }\n"
 "function geti(t,k) { return t[k] }\n"
 "function puti(t,k,v) { t[k] = v  return t[k] }\n"
 "function meth(a,b,c) {\n"
 "  var t = {.n = a}\n  var u = {.n = b}\n"
 "  t.get = function(d) { return self.n + d }\n"
 "  u.get = t.get\n"
 "  var r1 = t.get(1)\n  var r2 = u.get(2)\n  var r3 = t.get(3)\n"
 "  t.set = function(v) { self.n = v }\n  t.set(c)\n"
 "  var f = t.get\n"
 "  t.in = {.n = a + b}\n  t.in.get = u.get\n"
 "  t.mk = function(k) { return function() { return k } }\n"
 "  var o = {}\n  o.m = t.mk(c)\n"
 "  return {.r1=r1,.r2=r2,.r3=r3,.tn=t.n,.un=u.n,.f=f(5),.i=t.in.get(6),.o=o.m()}\n"
 "}\n"
 "function lit(a,b,c) {\n"
 "  var t = { .x = a, .y = { .z = b, .w = { .v = c } }, .e = {} }\n"
 "  t.y.w.v2 = t.y.z + t.x\n"
 "  t[\"x\"] = t.x + 1\n"
 "  t.y[\"z\"] = nil\n"
 "  var l = t.y\n  l.alias = 9\n"
 "  return t\n"
 "}\n";
#endif
void vf_main(void) {
#ifdef TAB
  vm=vmh_new(4); buzzobj_t t[2]; t[0]=vmh_tab(vm); t[1]=vmh_tab(vm); KEY k[OPS]; int w[OPS], v[OPS]; for (int i=0;i<3;++i) vmh_str(vm,S[i]);
  for (int i=0;i<OPS;++i) { k[i]=mk(); w[i]=KT==4?vf_choose(0,1,"t"):0; v[i]=vf_choose(0,i>0,"nil")?0:100+i; vmh_tput(vm,t[w[i]],ko(k[i]),v[i]?vmh_int(vm,v[i]):vmh_nil(vm)); VF_ASSERTM(vm->state==BUZZVM_STATE_READY&&buzzvm_stack_top(vm)==0,"a store leaves the stack clean"); }
  KEY q=mk(); for (int j=0;j<2;++j) { int want=0, any=0; for (int i=0;i<OPS;++i) if (w[i]==j&&same(k[i],q)) { want=v[i]; any=1; }
    buzzobj_t r=vmh_tget(vm,t[j],ko(q)); VF_ASSERTM(want?vmh_isi(r,want):r->o.type==BUZZTYPE_NIL,"a read gives the last value stored under that key, nil if none or erased"); if (want) __vf_reach("hit"); else if (any) __vf_reach("erased"); else __vf_reach("miss");
    uint32_t n=0; for (int i=0;i<OPS;++i) if (w[i]==j&&v[i]) { int last=1; for (int m=i+1;m<OPS;++m) if (w[m]==j&&same(k[m],k[i])) last=0; n+=last; } VF_ASSERTM(buzzdict_size(t[j]->t.value)==n,"the size counts the keys present"); }
#if KT==2
  if (k[0].kind==0&&k[0].i==35&&k[1].kind==2&&k[1].s==1) __vf_reach("same");
#endif
#elif defined(BAD)
  vm=vmh_new(4); int kk=vf_choose(0,4,"kk"), put=vf_choose(0,1,"put"), tt=vf_choose(0,2,"tt"); buzzobj_t tb=tt==0?vmh_tab(vm):tt==1?vmh_int(vm,vf_i32("i")):vmh_nil(vm), key=kk==0?vmh_nil(vm):kk==1?vmh_tab(vm):kk==2?vmh_fun(vm,0,0):kk==3?vmh_int(vm,1):vmh_flt(vm,1.5f); if (kk>=3) __vf_assume(tt!=0);
  buzzvm_push(vm,tb); buzzvm_push(vm,key); if (put) { buzzvm_pushi(vm,1); buzzvm_tput(vm); } else buzzvm_tget(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_ERROR&&vm->error==BUZZVM_ERROR_TYPE,"anything but a table cannot be indexed, and only numbers and strings can be keys"); __vf_reach("error");
#else
  vm=vmh_load(4,SRC); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); while (buzzvm_stack_top(vm)) buzzvm_pop(vm); vm->state=BUZZVM_STATE_READY; uint32_t A=vf_u32("a"), B=vf_u32("b"), C=vf_u32("c"); buzzobj_t r;
#define I(o,x) VF_ASSERTM(vmh_isi(o,(int32_t)(x)),#o " is " #x)
#ifdef VARS
  B=(uint32_t)vf_choose(-2,3,"bb"); vmh_seto(vm,"g2",vmh_int(vm,5)); r=vmh_call(vm,"vars",3,vmh_int(vm,(int32_t)A),vmh_int(vm,(int32_t)B),vmh_int(vm,(int32_t)C)); VF_ASSERTM(r!=NULL,"runs");
  I(F(r,"a"),A); I(F(r,"x"),A+1); I(F(r,"z"),B+1); I(F(r,"g1"),C); I(F(r,"g2"),B+1); I(F(r,"y2"),B); I(F(r,"y"),A==C?B+77:B-88); VF_ASSERTM(F(r,"u")->o.type==BUZZTYPE_NIL,"an undefined variable is nil"); buzzobj_t w=F(r,"w"); I(F(w,"q"),A+1); I(vmh_tget(vm,w,vmh_int(vm,(int32_t)B)),B); VF_ASSERTM(buzzdict_size(w->t.value)==2,"two fields");
  I(vmh_get(vm,"g1"),C); I(vmh_get(vm,"g2"),B+1); VF_ASSERTM(vmh_get(vm,"x")->o.type==BUZZTYPE_NIL&&vmh_get(vm,"z")->o.type==BUZZTYPE_NIL&&vmh_get(vm,"w")->o.type==BUZZTYPE_NIL&&vmh_get(vm,"p")->o.type==BUZZTYPE_NIL,"locals are not globals");
  r=vmh_call(vm,"shadow",1,vmh_int(vm,(int32_t)A),0,0); I(r,A+1); I(vmh_get(vm,"g1"),C); 
  buzzobj_t t=vmh_tab(vm); vmh_seto(vm,"keep",t); int32_t k=vf_choose(-11,11,"k"); r=vmh_call(vm,"puti",3,t,vmh_int(vm,k),vmh_int(vm,(int32_t)A)); I(r,A); r=vmh_call(vm,"geti",2,t,vmh_int(vm,k),0); I(r,A); r=vmh_call(vm,"geti",2,t,vmh_int(vm,k+10),0); VF_ASSERTM(r->o.type==BUZZTYPE_NIL,"another key"); r=vmh_call(vm,"puti",3,t,vmh_int(vm,k),vmh_nil(vm)); VF_ASSERTM(r->o.type==BUZZTYPE_NIL&&buzzdict_size(t->t.value)==0,"erased");
  vmh_seto(vm,"g1",vmh_nil(vm)); VF_ASSERTM(vmh_get(vm,"g1")->o.type==BUZZTYPE_NIL,"a global set to nil reads as nil"); I(vmh_get(vm,"g2"),B+1);
#elif defined(METH)
  r=vmh_call(vm,"meth",3,vmh_int(vm,(int32_t)A),vmh_int(vm,(int32_t)B),vmh_int(vm,(int32_t)C)); VF_ASSERTM(r!=NULL,"runs"); I(F(r,"r1"),A+1); I(F(r,"r2"),B+2); I(F(r,"r3"),A+3); I(F(r,"tn"),C); I(F(r,"un"),B); I(F(r,"f"),C+5); I(F(r,"i"),A+B+6); I(F(r,"o"),C);
#else
  r=vmh_call(vm,"lit",3,vmh_int(vm,(int32_t)A),vmh_int(vm,(int32_t)B),vmh_int(vm,(int32_t)C)); VF_ASSERTM(r!=NULL,"runs"); I(F(r,"x"),A+1); buzzobj_t y=F(r,"y"); VF_ASSERTM(F(y,"z")->o.type==BUZZTYPE_NIL,"erased"); I(F(F(y,"w"),"v"),C); I(F(F(y,"w"),"v2"),B+A); I(F(y,"alias"),9); VF_ASSERTM(buzzdict_size(r->t.value)==3&&buzzdict_size(y->t.value)==2&&buzzdict_size(F(r,"e")->t.value)==0,"sizes");
#endif
  __vf_reach("ok");
#endif
  buzzvm_destroy(&vm);
}
