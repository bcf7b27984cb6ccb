// Neighbour structure: every history of resets and additions against an abstract neighbourhood, seen through each operation of the script API.
// QUICK see -DMODE=0 -DOP=0 -DN=3 -DIDR=1 time=300 reach=ok,dup,reset,empty
// QUICK filter -DMODE=0 -DOP=1 -DN=2 -DIDR=1 time=300 reach=ok,dup,reset,empty
// QUICK map -DMODE=0 -DOP=2 -DN=2 -DIDR=1 time=300 reach=ok,dup,reset,empty
// QUICK reduce -DMODE=0 -DOP=3 -DN=2 -DIDR=1 time=300 reach=ok,dup,reset,empty
// QUICK kin  -DMODE=1 -DN=2 -DIDR=1 time=300 reach=ok,kin,nonkin,all,nested
// BOTH bad  -DMODE=2 -DIDR=1 time=200 reach=ok
// THOROUGH see -DMODE=0 -DOP=0 -DN=3 -DIDR=2 time=3000
// THOROUGH filter -DMODE=0 -DOP=1 -DN=3 -DIDR=2 time=3000
// THOROUGH map -DMODE=0 -DOP=2 -DN=3 -DIDR=2 time=3000
// THOROUGH reduce -DMODE=0 -DOP=3 -DN=3 -DIDR=2 time=3000
// THOROUGH kin  -DMODE=1 -DN=3 -DIDR=2 time=3000
#include "vmh.h"
/* robot identifiers: any below 60000 of one bucket, or any small one; lookups likewise */
#ifndef RES
#define RES 4
#endif
static int32_t anyid(void) { return vf_choose(0,1,"other") ? RES+10*vf_range(0,5999,"id") : vf_range(0,IDR,"small"); }
typedef struct { uint16_t id; float f[3]; int in, seen; int keep, tag; } NB;
static NB nb[8]; static int k, total; static buzzvm_t vm; static int mode;
static NB* find(int32_t id) { for (int i=0;i<k;++i) if (nb[i].in&&nb[i].id==id) return &nb[i]; return NULL; }
static void chk(buzzobj_t id, buzzobj_t d) { VF_ASSERTM(id->o.type==BUZZTYPE_INT,"a robot identifier"); NB* p=find(id->i.value); VF_ASSERTM(p!=NULL,"only current neighbours are visited"); if (!p) return; VF_ASSERTM(!p->seen,"each neighbour is visited once"); p->seen=1; ++total;
  if (d) { VF_ASSERTM(d->o.type==BUZZTYPE_TABLE&&buzzdict_size(d->t.value)==3,"neighbour data"); VF_ASSERTM(vmh_isfb(vmh_tgets(vm,d,"distance"),p->f[0]),"distance"); VF_ASSERTM(vmh_isfb(vmh_tgets(vm,d,"azimuth"),p->f[1]),"azimuth"); VF_ASSERTM(vmh_isfb(vmh_tgets(vm,d,"elevation"),p->f[2]),"elevation"); } }
static buzzobj_t ids, dat, acc; 
static void args(buzzvm_t v, int n) { buzzvm_lload(v,1); ids=buzzvm_stack_at(v,1); buzzvm_lload(v,2); dat=buzzvm_stack_at(v,1); if (n>2) { buzzvm_lload(v,3); acc=buzzvm_stack_at(v,1); } }
static int each(buzzvm_t v) { args(v,2); chk(ids,dat); return buzzvm_ret0(v); }
static int each0(buzzvm_t v) { args(v,2); chk(ids,NULL); NB* p=find(ids->i.value); if (p) VF_ASSERTM(vmh_isi(dat,p->tag),"the mapped value"); return buzzvm_ret0(v); }
static int pred(buzzvm_t v) { args(v,2); chk(ids,dat); NB* p=find(ids->i.value); if (p) switch (p->keep) { case 0: buzzvm_pushi(v,0); break; case 1: buzzvm_pushnil(v); break; case 2: buzzvm_pushi(v,256); break; case 3: buzzvm_pushi(v,-1); break; default: buzzvm_pushs(v,buzzvm_string_register(v,"yes",0)); } return buzzvm_ret1(v); }
static int mapf(buzzvm_t v) { args(v,2); chk(ids,dat); NB* p=find(ids->i.value); buzzvm_pushi(v,p?p->tag:0); return buzzvm_ret1(v); }
static int redf(buzzvm_t v) { args(v,3); chk(ids,dat); NB* p=find(ids->i.value); VF_ASSERTM(MODE==2||acc->o.type==BUZZTYPE_INT,"the accumulator is passed on"); buzzvm_pushi(v,acc->o.type!=BUZZTYPE_INT?0:(int32_t)((uint32_t)acc->i.value+(uint32_t)(p?p->tag:0))); return buzzvm_ret1(v); }
static int count(void) { int c=0; for (int i=0;i<k;++i) c+=nb[i].in; return c; }
static void fresh(void) { total=0; for (int i=0;i<k;++i) nb[i].seen=0; }
static void whole(int want) { VF_ASSERTM(total==want,"every neighbour is visited"); fresh(); }
static buzzobj_t run(const char* f, buzzobj_t a, buzzobj_t b) { uint32_t st=buzzvm_stack_top(vm); buzzobj_t r=vmh_call(vm,f,2,a,b,NULL); VF_ASSERTM(r!=NULL,"runs"); VF_ASSERTM(buzzvm_stack_top(vm)==(int64_t)st,"nothing is left behind"); return r; }
static const char SRC[]=
 "function cnt(n,x) { return n.count() }\nfunction get(n,x) { return n.get(x) }\nfunction fe(n,x) { n.foreach(each) }\nfunction fe0(n,x) { n.foreach(each0) }\nfunction flt(n,x) { return n.filter(pred) }\nfunction mp(n,x) { return n.map(mapf) }\nfunction rd(n,x) { return n.reduce(redf,x) }\nfunction nbs(n,x) { return neighbors }\n"
 "function kin0(n,x) { return n.kin() }\nfunction nonkin0(n,x) { return n.nonkin() }\n"
 "function kin1(n,x) { r = 0  s1.exec(function() { r = n.kin() })  return r }\nfunction nonkin1(n,x) { r = 0  s1.exec(function() { r = n.nonkin() })  return r }\n"
 "function kin2(n,x) { r = 0  s1.exec(function() { s2.exec(function() { r = n.kin() }) })  return r }\nfunction nonkin2(n,x) { r = 0  s1.exec(function() { s2.exec(function() { r = n.nonkin() }) })  return r }\n"
 "function setup(n,x) { s1 = swarm.create(0)  s1.join()  s2 = swarm.create(2)  s2.join() }\n";
static void add(uint16_t id) { NB* o=find(id); if (o) { o->in=0; __vf_reach("dup"); } nb[k].id=id; for (int j=0;j<3;++j) nb[k].f[j]=vf_f32("f"); nb[k].in=1; nb[k].tag=vf_i32("tag"); buzzneighbors_add(vm,id,nb[k].f[0],nb[k].f[1],nb[k].f[2]); ++k; }
static void see(buzzobj_t n, int32_t q) { /* the neighbourhood n holds exactly the model's */
  VF_ASSERTM(vmh_isi(run("cnt",n,n),count()),"count"); buzzobj_t g=run("get",n,vmh_int(vm,q)); NB* p=find(q); VF_ASSERTM((g->o.type==BUZZTYPE_TABLE)==(p!=NULL)&&(p||g->o.type==BUZZTYPE_NIL),"get"); if (p&&g->o.type==BUZZTYPE_TABLE) { fresh(); chk(vmh_int(vm,q),g); } fresh(); run("fe",n,n); whole(count()); }
void vf_main(void) {
  vm=vmh_load(1,SRC); vmh_setc(vm,"each",each); vmh_setc(vm,"each0",each0); vmh_setc(vm,"pred",pred); vmh_setc(vm,"mapf",mapf); vmh_setc(vm,"redf",redf); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); vm->state=BUZZVM_STATE_READY; buzzobj_t n=run("nbs",vmh_nil(vm),vmh_nil(vm)); vmh_seto(vm,"keepn",n);
#if MODE==0
  int m=vf_choose(0,N,"adds"), was=0; for (int i=0;i<m;++i) { if (vf_choose(0,1,"reset")) { buzzneighbors_reset(vm); for (int j=0;j<k;++j) nb[j].in=0; __vf_reach("reset"); was=1; } uint16_t id=(uint16_t)anyid(); add(id); while (buzzvm_stack_top(vm)) buzzvm_pop(vm); }
  if (m==0&&vf_choose(0,1,"reset0")) buzzneighbors_reset(vm); int32_t q=anyid(); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"no error");
  switch (OP) {
    case 0: see(n,q); break;
    case 1: { for (int i=0;i<k;++i) nb[i].keep=vf_range(0,4,"keep"); buzzobj_t r=run("flt",n,n); vmh_seto(vm,"r",r); whole(count()); see(n,q); NB sv[8]; memcpy(sv,nb,sizeof nb); buzzneighbors_add(vm,60001,0,0,0); for (int i=0;i<k;++i) if (nb[i].keep<2) nb[i].in=0; see(r,q); break; }
    case 2: { buzzobj_t r=run("mp",n,n); vmh_seto(vm,"r",r); whole(count()); see(n,q); buzzneighbors_add(vm,60001,0,0,0); VF_ASSERTM(vmh_isi(run("cnt",r,r),count()),"one value per neighbour"); run("fe0",r,r); whole(count()); break; }
    default: { int32_t a0=vf_i32("acc"); uint32_t s=(uint32_t)a0; for (int i=0;i<k;++i) if (nb[i].in) s+=(uint32_t)nb[i].tag; buzzobj_t r=run("rd",n,vmh_int(vm,a0)); VF_ASSERTM(vmh_isi(r,(int32_t)s),"reduce"); whole(count()); see(n,q); } }
  if (!count()) __vf_reach("empty"); __vf_reach("ok");
#elif MODE==1
  static const char* FN[]={"kin0","nonkin0","kin1","nonkin1","kin2","nonkin2"}; run("setup",vmh_nil(vm),vmh_nil(vm)); buzzneighbors_reset(vm); int mem[N][2];
  for (int i=0;i<N;++i) { add((uint16_t)(vf_range(0,200,"id")*5+i)); for (int s=0;s<2;++s) { mem[i][s]=vf_choose(0,1,"member"); if (mem[i][s]) buzzswarm_members_join(vm->swarmmembers,nb[i].id,(uint16_t)(s*2)); } } while (buzzvm_stack_top(vm)) buzzvm_pop(vm);
  int f=vf_choose(0,5,"op"), sw= f<2?-1:f<4?0:1; buzzobj_t r=run(FN[f],n,n); vmh_seto(vm,"r2",r); see(n,anyid()); buzzneighbors_add(vm,60001,0,0,0);
  for (int i=0;i<N;++i) { int in= (f&1)==0 ? sw<0||mem[i][sw] : sw>=0&&!mem[i][sw]; if (!in) nb[i].in=0; } see(r,anyid()); __vf_reach(f>3?"nested":f<2?"all":f&1?"nonkin":"kin"); __vf_reach("ok");
#else
  /* wrong receivers and arguments are errors, never crashes */
  static const char* FN[]={"cnt","get","fe","flt","mp","rd","kin0","nonkin0","kin1","kin2","nonkin2"}; if (vf_choose(0,1,"some")) add(3); run("setup",vmh_nil(vm),vmh_nil(vm)); buzzobj_t bad; switch (vf_choose(0,5,"bad")) { case 0: bad=vmh_nil(vm); break; case 1: bad=vmh_int(vm,vf_i32("i")); break; case 2: bad=vmh_str(vm,"x"); break; case 3: bad=vmh_tab(vm); break; case 4: bad=vmh_flt(vm,vf_f32("f")); break; default: bad=n; }
  int side=vf_choose(0,1,"side"); vmh_call(vm,FN[vf_choose(0,10,"op")],2,side?n:bad,bad,NULL); VF_ASSERTM(vm->state==BUZZVM_STATE_READY||(vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL),"a result or an error"); fresh(); __vf_reach("ok");
#endif
}
