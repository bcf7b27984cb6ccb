// Table library: size, foreach, map, filter, reduce, clone, type tests over arbitrary small tables; script library table.bzz.
// QUICK each    -DMODE=0 -DN=3 time=250 reach=ok,empty,three,strkey
// QUICK map     -DMODE=1 -DN=2 time=250 reach=ok,nil
// QUICK filter  -DMODE=2 -DN=2 time=250 reach=ok,all,none
// QUICK reduce  -DMODE=3 -DN=3 time=250 reach=ok
// QUICK clone   -DMODE=4 -DN=2 time=250 reach=ok,nested
// BOTH bad      -DMODE=5 time=250 reach=ok,error,stop
// QUICK sort    -DMODE=6 -DN=4 time=250 reach=ok,desc
// QUICK minmax  -DMODE=7 -DN=3 time=250 reach=ok,empty
// QUICK shuffle -DMODE=8 -DN=3 time=250 reach=ok
// BOTH type     -DMODE=9 time=100 reach=ok
// THOROUGH each    -DMODE=0 -DN=4 time=2000
// THOROUGH map     -DMODE=1 -DN=4 time=2000
// THOROUGH filter  -DMODE=2 -DN=4 time=2000
// THOROUGH reduce  -DMODE=3 -DN=4 time=2000
// THOROUGH clone   -DMODE=4 -DN=3 time=2000
// THOROUGH sort    -DMODE=6 -DN=5 time=2000
// THOROUGH minmax  -DMODE=7 -DN=4 time=2000
// THOROUGH shuffle -DMODE=8 -DN=4 time=2000
#include "vmh.h"
#include "repo_bzz.h"
typedef struct { int str; int32_t k; const char* s; int32_t v; int seen, res; int32_t tag; } E;
static E e[8]; static int n, calls, order[16]; static buzzvm_t vm; static int64_t acc; static const char* S[]={"a","bc","k"};
static const char SRC[]="include \"table.bzz\"\nfunction fe(t) { foreach(t, cb) }\nfunction mp(t) { return map(t, cbm) }\nfunction fl(t) { return filter(t, cbf) }\nfunction rd(t,a) { return reduce(t, cbr, a) }\nfunction cl(t) { return clone(t) }\nfunction sz(t) { return size(t) }\nfunction bad(f,t,a) { return f(t, a) }\nfunction badr(t,f,a) { return reduce(t, f, a) }\n"
 "function srt(t) { table.sort(t, table.cmp_number) }\nfunction shf(t) { table.shuffle(t) }\nfunction mx(t) { return table.max(t) }\nfunction mn(t) { return table.min(t) }\nfunction mxk(t) { return table.maxkey(t) }\nfunction mnk(t) { return table.minkey(t) }\nfunction ty(x) { return type(x) }\nfunction lam(t,x) { var s = 0  foreach(t, function(k,v) { last = v + x }) return s }\n";
static buzzobj_t call(const char* f, int c, buzzobj_t a, buzzobj_t b) { int64_t st=buzzvm_stack_top(vm); buzzobj_t r=vmh_call(vm,f,c,a,b,NULL); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(vm)==st,"runs"); if (!r) exit(0); return r; }
static buzzobj_t key(E* x) { return x->str?vmh_str(vm,x->s):vmh_int(vm,x->k); }
/* an arbitrary table: distinct integer keys of one bucket or small, and string keys */
static buzzobj_t mk(int max) { buzzobj_t t=vmh_tab(vm); vmh_seto(vm,"held",t); n=vf_choose(0,max,"n"); for (int i=0;i<n;++i) { E* x=&e[i]; switch (vf_choose(0,2,"key")) { case 0: x->k=5+10*vf_range(0,1000000,"k"); break; case 1: x->k=vf_range(0,1,"k"); break; default: x->str=1; x->s=S[i%3]; __vf_reach("strkey"); } for (int j=0;j<i;++j) if (!x->str&&!e[j].str) __vf_assume(x->k!=e[j].k); x->v=vf_i32("v"); x->tag=vf_i32("tag"); x->res=vf_range(0,3,"res"); vmh_tput(vm,t,key(x),vmh_int(vm,x->v)); } if (!n) __vf_reach("empty"); if (n==3) __vf_reach("three"); return t; }
static E* find(buzzobj_t k) { for (int i=0;i<n;++i) if (e[i].str?vmh_iss(k,e[i].s):vmh_isi(k,e[i].k)) return &e[i]; return NULL; }
static E* visit(buzzvm_t v) { VF_ASSERTM(buzzvm_lnum(v)>=2,"key and value"); buzzvm_lload(v,1); E* x=find(buzzvm_stack_at(v,1)); VF_ASSERTM(x!=NULL,"only elements are visited"); if (!x) exit(0); VF_ASSERTM(!x->seen,"once"); x->seen=1; ++calls; buzzvm_lload(v,2); VF_ASSERTM(vmh_isi(buzzvm_stack_at(v,1),x->v),"with their value"); return x; }
static int cb(buzzvm_t v) { visit(v); return buzzvm_ret0(v); }
static int cbm(buzzvm_t v) { E* x=visit(v); if (x->res==0) buzzvm_pushnil(v); else buzzvm_pushi(v,x->tag); return buzzvm_ret1(v); }
static int cbf(buzzvm_t v) { E* x=visit(v); switch (x->res) { case 0: buzzvm_pushnil(v); break; case 1: buzzvm_pushi(v,0); break; case 2: buzzvm_pushi(v,x->tag|1); break; default: buzzvm_pushf(v,0); } return buzzvm_ret1(v); }
static int cbr(buzzvm_t v) { E* x=visit(v); buzzvm_lload(v,3); buzzobj_t a=buzzvm_stack_at(v,1); VF_ASSERTM(vmh_isi(a,(int32_t)(uint32_t)acc),"the accumulated value"); acc=(int64_t)((uint32_t)acc*3u+(uint32_t)x->tag); buzzvm_pushi(v,(int32_t)(uint32_t)acc); return buzzvm_ret1(v); }
static int cbe(buzzvm_t v) { ++calls; buzzvm_seterror(v,BUZZVM_ERROR_TYPE,"stop"); return v->state; }
static int cbn(buzzvm_t v) { ++calls; return buzzvm_ret0(v); }
static void same(buzzobj_t t) { VF_ASSERTM(t->o.type==BUZZTYPE_TABLE&&buzzdict_size(t->t.value)==(uint32_t)n,"the table has its elements"); for (int i=0;i<n;++i) VF_ASSERTM(vmh_isi(vmh_tget(vm,t,key(&e[i])),e[i].v),"unchanged"); VF_ASSERTM(vmh_isi(call("sz",1,t,NULL),n),"size"); }
static void done(void) { VF_ASSERTM(calls==n,"every element is visited"); __vf_reach("ok"); }
void vf_main(void) {
  __vf_file_put("table.bzz",BZZ_table,sizeof BZZ_table-1); vm=vmh_load(1,SRC); vmh_setc(vm,"cb",cb); vmh_setc(vm,"cbm",cbm); vmh_setc(vm,"cbf",cbf); vmh_setc(vm,"cbr",cbr); vmh_setc(vm,"cbe",cbe); vmh_setc(vm,"cbn",cbn); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); vm->state=BUZZVM_STATE_READY;
#if MODE==0
  buzzobj_t t=mk(N); call("fe",1,t,NULL); same(t); done();
#elif MODE==1
  buzzobj_t t=mk(N), r=call("mp",1,t,NULL); int c=0; done(); same(t); VF_ASSERTM(r->o.type==BUZZTYPE_TABLE&&r!=t,"a new table"); for (int i=0;i<n;++i) { buzzobj_t o=vmh_tget(vm,r,key(&e[i])); if (e[i].res==0) { VF_ASSERTM(o->o.type==BUZZTYPE_NIL,"no value"); __vf_reach("nil"); } else { VF_ASSERTM(vmh_isi(o,e[i].tag),"the mapped value"); ++c; } } VF_ASSERTM(buzzdict_size(r->t.value)==(uint32_t)c,"nothing else");
#elif MODE==2
  buzzobj_t t=mk(N), r=call("fl",1,t,NULL); int c=0; done(); same(t); VF_ASSERTM(r->o.type==BUZZTYPE_TABLE&&r!=t,"a new table"); for (int i=0;i<n;++i) { buzzobj_t o=vmh_tget(vm,r,key(&e[i])); if (e[i].res<2) VF_ASSERTM(o->o.type==BUZZTYPE_NIL,"left out"); else { VF_ASSERTM(vmh_isi(o,e[i].v),"kept"); ++c; } } VF_ASSERTM(buzzdict_size(r->t.value)==(uint32_t)c,"nothing else"); if (c==n&&n) __vf_reach("all"); if (!c&&n) __vf_reach("none");
#elif MODE==3
  buzzobj_t t=mk(N); int32_t a0=vf_i32("acc"); acc=(uint32_t)a0; buzzobj_t r=call("rd",2,t,vmh_int(vm,a0)); VF_ASSERTM(vmh_isi(r,(int32_t)(uint32_t)acc),"the final value"); done(); same(t);
#elif MODE==4
  buzzobj_t t=mk(N), in=vmh_tab(vm), in2=vmh_tab(vm); int nest=vf_choose(0,2,"nest"); int32_t x=vf_i32("x"); vmh_tput(vm,in2,vmh_str(vm,"y"),vmh_int(vm,x)); vmh_tput(vm,in,vmh_int(vm,1),nest==2?in2:vmh_int(vm,x)); if (nest) { vmh_tput(vm,t,vmh_str(vm,"in"),in); __vf_reach("nested"); }
  buzzobj_t r=call("cl",1,t,NULL); vmh_seto(vm,"held2",r); VF_ASSERTM(r!=t&&r->o.type==BUZZTYPE_TABLE&&buzzdict_size(r->t.value)==(uint32_t)(n+(nest!=0)),"a copy"); for (int i=0;i<n;++i) VF_ASSERTM(vmh_isi(vmh_tget(vm,r,key(&e[i])),e[i].v),"same elements");
  if (nest) { vmh_tput(vm,in,vmh_int(vm,nest==2?7:1),vmh_int(vm,99)); vmh_tput(vm,in2,vmh_str(vm,"y"),vmh_int(vm,98)); } for (int i=0;i<n;++i) vmh_tput(vm,t,key(&e[i]),vmh_nil(vm)); vm->heap->max_objs=0; buzzheap_gc(vm); for (int i=0;i<n;++i) VF_ASSERTM(vmh_isi(vmh_tget(vm,r,key(&e[i])),e[i].v),"independent of the original");
  if (nest) { buzzobj_t c=vmh_tgets(vm,r,"in"); VF_ASSERTM(c->o.type==BUZZTYPE_TABLE&&buzzdict_size(c->t.value)==1,"inner table"); buzzobj_t d=vmh_tget(vm,c,vmh_int(vm,1)); if (nest==1) VF_ASSERTM(vmh_isi(d,x),"copied too"); else VF_ASSERTM(d->o.type==BUZZTYPE_TABLE&&vmh_isi(vmh_tgets(vm,d,"y"),x),"at every depth"); }
  int32_t y=vf_i32("y"); vmh_tput(vm,r,vmh_str(vm,"new"),vmh_int(vm,y)); VF_ASSERTM(vmh_tgets(vm,t,"new")->o.type==BUZZTYPE_NIL,"and the original of the copy"); __vf_reach("ok");
#elif MODE==5
  static const char* FN[]={"foreach","map","filter","size","clone"}; buzzobj_t t=vmh_tab(vm), x; int m=vf_choose(0,2,"m"); vmh_seto(vm,"held",t); for (int i=0;i<m;++i) vmh_tput(vm,t,vmh_int(vm,i),vmh_int(vm,i)); int f=vf_choose(0,3,"f"), w=vf_choose(0,3,"what"); buzzobj_t r;
  if (w>=2) { if (f==3) { r=vmh_call(vm,"badr",3,t,vmh_get(vm,w==2?"cbe":"cbn"),vmh_int(vm,1)); } else { buzzobj_t c=vmh_get(vm,w==2?"cbe":"cbn"); r=vmh_call(vm,"bad",3,vmh_get(vm,FN[f]),t,c); } if (w==2) { VF_ASSERTM((r!=NULL)==(m==0)&&calls==(m?1:0),"an error in the function stops the iteration"); __vf_reach("stop"); } else VF_ASSERTM(r!=NULL&&calls==m,"a function that returns nothing returns nil"); return; }
  switch (vf_choose(0,4,"bad")) { case 0: x=vmh_nil(vm); break; case 1: x=vmh_int(vm,vf_i32("i")); break; case 2: x=vmh_flt(vm,vf_f32("f")); break; case 3: x=vmh_str(vm,"x"); break; default: x= w?vmh_tab(vm):vmh_get(vm,"cb"); }
  if (f==3&&!w) { r=vmh_call(vm,"sz",1,x,NULL,NULL); } else if (f==3) r=vmh_call(vm,"badr",3,t,x,vmh_int(vm,1)); else r=vmh_call(vm,"bad",3,vmh_get(vm,FN[f]),w?t:x,w?x:vmh_get(vm,"cb")); VF_ASSERTM(r==NULL&&vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL&&calls==0,"an argument of the wrong type is an error"); __vf_reach("error"); __vf_reach("ok");
#elif MODE==6
  int m=vf_choose(0,N,"m"); buzzobj_t t=vmh_tab(vm); int32_t v[8], w[8]; vmh_seto(vm,"held",t); for (int i=0;i<m;++i) { v[i]=vf_i32("v"); vmh_tput(vm,t,vmh_int(vm,i),vmh_int(vm,v[i])); } call("srt",1,t,NULL); VF_ASSERTM(buzzdict_size(t->t.value)==(uint32_t)m,"same number of elements");
  for (int i=0;i<m;++i) { buzzobj_t o=vmh_tget(vm,t,vmh_int(vm,i)); VF_ASSERTM(o->o.type==BUZZTYPE_INT,"an element"); w[i]=o->i.value; if (i) VF_ASSERTM(w[i-1]<=w[i],"in order"); } int32_t q=vf_i32("q"); int c=0; for (int i=0;i<m;++i) c+=(v[i]==q)-(w[i]==q); VF_ASSERTM(c==0,"a permutation of the elements"); if (m>1&&v[0]>v[1]) __vf_reach("desc"); __vf_reach("ok");
#elif MODE==7
  int m=vf_choose(0,N,"m"); buzzobj_t t=vmh_tab(vm); int32_t hi=0, lo=0, hk=0, lk=0; vmh_seto(vm,"held",t); for (int i=0;i<m;++i) { int32_t v=vf_i32("v"), k=vf_range(0,3,"k")*4+i; vmh_tput(vm,t,vmh_int(vm,k),vmh_int(vm,v)); if (!i||v>hi) hi=v; if (!i||v<lo) lo=v; if (!i||k>hk) hk=k; if (!i||k<lk) lk=k; }
  static const char* FN[]={"mx","mn","mxk","mnk"}; int f=vf_choose(0,3,"f"); buzzobj_t r=call(FN[f],1,t,NULL); if (!m) { VF_ASSERTM(r->o.type==BUZZTYPE_NIL,"of nothing"); __vf_reach("empty"); } else VF_ASSERTM(vmh_isi(r,f==0?hi:f==1?lo:f==2?hk:lk),"the extreme value"); __vf_reach("ok");
#elif MODE==8
  int m=vf_choose(0,N,"m"); buzzobj_t t=vmh_tab(vm); vmh_seto(vm,"held",t); int32_t v[8]; for (int i=0;i<m;++i) { v[i]=vf_i32("v"); vmh_tput(vm,t,vmh_int(vm,i),vmh_int(vm,v[i])); } vm->rngidx=10; for (int i=0;i<m+1;++i) vm->rngstate[10+i]=vf_i32("random"); call("shf",1,t,NULL);
  VF_ASSERTM(buzzdict_size(t->t.value)==(uint32_t)m,"same number of elements"); int32_t q=vf_i32("q"); int c=0; for (int i=0;i<m;++i) { buzzobj_t o=vmh_tget(vm,t,vmh_int(vm,i)); VF_ASSERTM(o->o.type==BUZZTYPE_INT,"an element at each position"); if (o->o.type!=BUZZTYPE_INT) exit(0); c+=(v[i]==q)-(o->i.value==q); } VF_ASSERTM(c==0,"a permutation of the elements"); __vf_reach("ok");
#else
  static const char* T[]={"nil","integer","float","string","table","closure"}; static const char* IS[]={"isnil","isint","isfloat","isstring","istable","isclosure","isuserdata"}; int k=vf_choose(0,5,"k"); buzzobj_t o; switch (k) { case 0: o=vmh_nil(vm); break; case 1: o=vmh_int(vm,vf_i32("i")); break; case 2: o=vmh_flt(vm,vf_f32("f")); break; case 3: o=vmh_str(vm,"s"); break; case 4: o=vmh_tab(vm); break; default: o=vmh_get(vm,"ty"); }
  buzzobj_t r=call("ty",1,o,NULL); VF_ASSERTM(r->o.type==BUZZTYPE_STRING&&vmh_iss(r,buzztype_desc[o->o.type]),"the type's name"); for (int i=0;i<7;++i) VF_ASSERTM(vmh_isi(call(IS[i],1,o,NULL),i==k),"exactly one type test holds"); __vf_reach("ok"); (void)T;
  if (k==1) { buzzobj_t f=call("float",1,o,NULL); VF_ASSERTM(f->o.type==BUZZTYPE_FLOAT&&f->f.value==(float)o->i.value,"conversion to float"); } if (k==2&&o->f.value>-2147483648.f&&o->f.value<2147483648.f) { buzzobj_t i=call("int",1,o,NULL); VF_ASSERTM(i->o.type==BUZZTYPE_INT&&i->i.value==(int32_t)o->f.value,"conversion to int drops the fraction"); }
#endif
}
