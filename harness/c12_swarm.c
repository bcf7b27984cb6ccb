// Swarm algebra from every membership state; announcements; exec runs exactly for members with the right current swarm.
// QUICK ops  -DSTEPS=1 time=250 reach=join,leave,select,union,inter,diff,others
// QUICK pair -DSTEPS=2 -DOPS=4 time=250
// QUICK exec -DEXEC time=200 reach=nested,outeronly,cfun
// QUICK err  -DERR time=200 reach=error
// THOROUGH ops  -DSTEPS=2 time=1800
// THOROUGH pair -DSTEPS=3 -DOPS=4 time=1800
// THOROUGH exec -DEXEC time=400
// THOROUGH err  -DERR time=200
#include "vmh.h"
#ifndef OPS
#define OPS 7
#endif
#define NS 3
static const uint16_t ID[NS]={1,11,65535};
static buzzvm_t vm; static int mem[NS];
static const char* SRC=
 "S = {}  S[0] = swarm.create(1)  S[1] = swarm.create(11)  S[2] = swarm.create(65535)\n"
 "I = {}  I[0] = 1  I[1] = 11  I[2] = 65535\n" "ran = 0  r2 = 0  a0 = 0  a1 = 0  a2 = 0  a3 = 0  a4 = 0  a5 = 0  a6 = 0\n"
 "function join(i) { S[i].join() }\nfunction leave(i) { S[i].leave() }\nfunction select(i, b) { S[i].select(b) }\nfunction isin(i) { return S[i].in() }\n"
 "function un(d, a, b) { S[d] = swarm.union(I[d], S[a], S[b]) }\nfunction inter(d, a, b) { S[d] = swarm.intersection(I[d], S[a], S[b]) }\nfunction diff(d, a, b) { S[d] = swarm.difference(I[d], S[a], S[b]) }\nfunction others(d, a) { S[d] = S[a].others(I[d]) }\n"
 "function ex(i) { S[i].exec(function() { ran = ran + 1  a0 = swarm.id() }) }\n" "function helper() { a5 = swarm.id() }\n"
 "X = nil\nfunction inner() { r2 = r2 + 1  a1 = swarm.id()  a2 = swarm.id(2)  a6 = swarm.id(0) helper() }\nfunction outer() { ran = ran + 1  a0 = swarm.id()  X.exec(inner)  a3 = swarm.id() }\n"
 "function nest(i, j) { X = S[j]  S[i].exec(outer)  a4 = swarm.id() }\n" "function excf(i) { var q = 5  S[i].exec(cf)  q = q + 1  return q }\n" "function selbad(i) { S[i].select(\"x\") }\nfunction unbad(i) { S[i] = swarm.union(I[i], 5, S[0]) }\nfunction unbad2(i) { S[i] = swarm.union(I[i], S[0], {}) }\nfunction unk(i) { S[i].id = 77  S[i].join() }\nfunction execbad(i) { S[i].exec(3) }\n";
static int ccalls; static int cfun(buzzvm_t v) { ccalls++; return buzzvm_ret0(v); }
static void drain(void) { while (buzzoutmsg_queue_size(vm)) buzzoutmsg_queue_next(vm); }
static int ranges(const char* g) { return vmh_get(vm,g)->i.value; }
static void announce(int kind, uint16_t id) { VF_ASSERTM(buzzoutmsg_queue_size(vm)==1,"the change is announced once"); buzzmsg_payload_t m=buzzoutmsg_queue_first(vm); if (!m) return; VF_ASSERTM(buzzdarray_size(m)==3&&buzzmsg_payload_get(m,0)==kind&&buzzmsg_payload_get(m,1)*256+buzzmsg_payload_get(m,2)==id,"announcement content"); buzzmsg_payload_destroy(&m); }
static void members(void) { for (int i=0;i<NS;i++) { buzzobj_t r=vmh_call(vm,"isin",1,vmh_int(vm,i),0,0); VF_ASSERTM(r&&r->o.type==BUZZTYPE_INT&&(r->i.value!=0)==mem[i],"membership is what set algebra says"); const uint8_t* x=buzzdict_get(vm->swarms,&ID[i],uint8_t); VF_ASSERTM(x&&(*x!=0)==mem[i],"stored membership"); __vf_out((uint64_t)mem[i]); } }
static void setup(void) { vm=vmh_run(4,SRC); VF_ASSERT(vm->state==BUZZVM_STATE_DONE); vm->state=BUZZVM_STATE_READY; vmh_setc(vm,"cf",cfun); for (int i=0;i<NS;i++) { mem[i]=vf_choose(0,1,"m"); if (mem[i]) vmh_call(vm,"join",1,vmh_int(vm,i),0,0); } drain(); }
static void op(int o, int d) {
  buzzobj_t D=vmh_int(vm,d); int old=mem[d]; (void)old; uint32_t depth=(uint32_t)buzzdarray_size(vm->stack);
  if (o<2) { __vf_reach(o?"leave":"join"); VF_ASSERTM(vmh_call(vm,o?"leave":"join",1,D,0,0)!=NULL,"runs"); mem[d]=!o; announce(o?BUZZMSG_SWARM_LEAVE:BUZZMSG_SWARM_JOIN,ID[d]); }
  else if (o==2) { int32_t b=vf_i32("cond"); __vf_reach("select"); VF_ASSERTM(vmh_call(vm,"select",2,D,vmh_int(vm,b),0)!=NULL,"runs"); mem[d]=b!=0; announce(b!=0?BUZZMSG_SWARM_JOIN:BUZZMSG_SWARM_LEAVE,ID[d]); }
  else { int a=vf_choose(0,NS-1,"a"), b=o==3?0:vf_choose(0,NS-1,"b"), v; static const char* F[]={"others","un","inter","diff"}; VF_ASSERTM(vmh_call(vm,F[o-3],o==3?2:3,D,vmh_int(vm,a),vmh_int(vm,b))!=NULL,"runs");
    switch (o) { case 3: v=!mem[a]; __vf_reach("others"); break; case 4: v=mem[a]||mem[b]; __vf_reach("union"); break; case 5: v=mem[a]&&mem[b]; __vf_reach("inter"); break; default: v=mem[a]&&!mem[b]; __vf_reach("diff"); }
    mem[d]=v; if (v) announce(BUZZMSG_SWARM_JOIN,ID[d]); buzzobj_t t=vmh_tget(vm,vmh_get(vm,"S"),D); VF_ASSERTM(t->o.type==BUZZTYPE_TABLE&&vmh_isi(vmh_tgets(vm,t,"id"),ID[d]),"the result is a handle on the new swarm"); }
  drain(); VF_ASSERTM(buzzdarray_size(vm->stack)==depth,"stack restored"); }
void vf_main(void) {
  setup();
#ifdef EXEC
  int i=vf_choose(0,NS-1,"i"), j=vf_choose(0,NS-1,"j");
  switch (vf_choose(0,2,"what")) {
    case 0: VF_ASSERTM(vmh_call(vm,"nest",2,vmh_int(vm,i),vmh_int(vm,j),0)!=NULL,"runs"); VF_ASSERTM(ranges("ran")==mem[i],"code runs exactly on members"); VF_ASSERTM(ranges("r2")==(mem[i]&&mem[j]),"nested code runs exactly on members of both");
      if (mem[i]) { VF_ASSERTM(vmh_isi(vmh_get(vm,"a0"),ID[i])&&vmh_isi(vmh_get(vm,"a3"),ID[i]),"the current swarm is the one executed, also after a nested one"); __vf_reach(mem[j]?"nested":"outeronly"); }
      if (mem[i]&&mem[j]) { VF_ASSERTM(vmh_isi(vmh_get(vm,"a1"),ID[j])&&vmh_isi(vmh_get(vm,"a5"),ID[j]),"the innermost swarm is current, also in called functions"); VF_ASSERTM(vmh_isi(vmh_get(vm,"a2"),ID[i]),"the parent swarm is visible"); }
      VF_ASSERTM(vmh_get(vm,"a4")->o.type==BUZZTYPE_NIL,"no current swarm outside"); break;
    case 1: VF_ASSERTM(vmh_call(vm,"ex",1,vmh_int(vm,i),0,0)!=NULL,"runs"); VF_ASSERTM(ranges("ran")==mem[i],"code runs exactly on members"); if (mem[i]) VF_ASSERTM(vmh_isi(vmh_get(vm,"a0"),ID[i]),"current swarm"); break;
    default: { buzzobj_t r=vmh_call(vm,"excf",1,vmh_int(vm,i),0,0); __vf_reach("cfun"); VF_ASSERTM(r&&vmh_isi(r,6),"the caller goes on normally"); VF_ASSERTM(ccalls==mem[i],"C code runs exactly on members"); } }
  VF_ASSERTM(buzzdarray_isempty(vm->swarmstack),"no current swarm afterwards"); members();
#elif defined(ERR)
  static const char* F[]={"selbad","unbad","unbad2","unk","execbad"}; int k=vf_choose(0,4,"which"), i=vf_choose(0,NS-1,"i"); if (k==4&&!mem[i]) return; buzzobj_t r=vmh_call(vm,F[k],1,vmh_int(vm,i),0,0); __vf_reach("error");
  VF_ASSERTM(r==NULL&&vm->state==BUZZVM_STATE_ERROR,"illegal use is reported"); for (int q=0;q<NS;q++) { const uint8_t* x=buzzdict_get(vm->swarms,&ID[q],uint8_t); VF_ASSERTM(x&&(*x!=0)==mem[q],"and changes no membership"); } VF_ASSERTM(buzzoutmsg_queue_size(vm)==0,"nor announces anything");
#else
  for (int s=0;s<STEPS;s++) { int o=vf_choose(0,OPS-1,"op"), d=vf_choose(0,NS-1,"d"); op(o,d); } members();
#endif
  buzzvm_destroy(&vm);
}
