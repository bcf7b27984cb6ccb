// Conflict handlers: when they are called, with what, and what is kept afterwards.
// QUICK one   time=200 reach=conflict,noconflict,lost,custom,unusable,default
// QUICK reset -DRESET time=200 reach=conflict,lost
// THOROUGH one   -DMSGS=2 time=1800
// THOROUGH reset -DRESET -DMSGS=2 time=1800
#include "vmh.h"
#ifndef MSGS
#define MSGS 1
#endif
#define SELF 5
static buzzvm_t vm;
static const char* SRC=
 "v = stigmergy.create(1)\n" "choice = 0  calls = 0  lcalls = 0  ck = nil  cl = nil  cr = nil  lk = nil  ll = nil  wrong = 0\n"
 "function junk() { var i = 0  while(i < 6) { var t = { .a = {}, .b = \"x\" }  i = i + 1 } }\n"
 "function h(k, l, r) { calls = calls + 1  ck = k  cl = l  cr = r  junk()  if(choice == 0) { return l } if(choice == 1) { return r } if(choice == 2) { return { .robot = 77, .data = 1234, .timestamp = 9999 } } if(choice == 3) { return nil } if(choice == 4) { return { .data = 1 } } return { .robot = l.robot, .data = r.data } }\n"
 "function hl(k, l) { lcalls = lcalls + 1  lk = k  ll = l  junk()  return 3 }\n"
 "function bad(a, b, c) { wrong = 1  return a }\n"
 "function useh() { v.onconflict(h) }\n function usehl() { v.onconflictlost(hl) }\n function usebad() { v.onconflict(bad)  v.onconflictlost(bad)  junk() }\n"
 "function put(k, x) { v.put(k, x) }\nfunction get(k) { return v.get(k) }\n";
static buzzvstig_elem_t entry(const char* key) { uint16_t id=1; const buzzvstig_t* vs=buzzdict_get(vm->vstigs,&id,buzzvstig_t); buzzobj_t k=vmh_str(vm,key); const buzzvstig_elem_t* x=buzzvstig_fetch(*vs,&k); return x?*x:NULL; }
static void deliver(int kind, uint16_t ts, uint16_t rob, int32_t val) {
  buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,(uint8_t)kind); buzzmsg_serialize_u16(m,1);
  buzzobj_serialize(m,vmh_str(vm,"a")); buzzobj_serialize(m,vmh_int(vm,val)); buzzmsg_serialize_u16(m,ts); buzzmsg_serialize_u16(m,rob);
  buzzinmsg_queue_append(vm,9,m); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"delivery succeeds"); }
static void side(const char* g, uint16_t ts, uint16_t rob, int32_t val) { buzzobj_t t=vmh_get(vm,g); VF_ASSERTM(t->o.type==BUZZTYPE_TABLE,"handler receives entries as tables"); VF_ASSERTM(vmh_isi(vmh_tgets(vm,t,"robot"),rob),"handler sees the writer"); VF_ASSERTM(vmh_isi(vmh_tgets(vm,t,"data"),val),"handler sees the data"); VF_ASSERTM(vmh_isi(vmh_tgets(vm,t,"timestamp"),ts),"handler sees the timestamp"); }
void vf_main(void) {
  vm=vmh_run(SELF,SRC); VF_ASSERT(vm->state==BUZZVM_STATE_DONE); vm->state=BUZZVM_STATE_READY;
#ifdef RESET
  vmh_call(vm,"usebad",0,0,0,0); vmh_call(vm,"junk",0,0,0,0); int uh=1, ul=1;
#else
  int uh=vf_choose(0,1,"useh"), ul=vf_choose(0,1,"usel");
#endif
  if (uh) vmh_call(vm,"useh",0,0,0,0); if (ul) vmh_call(vm,"usehl",0,0,0,0); vmh_call(vm,"junk",0,0,0,0);
  int own=vf_choose(0,1,"own"); uint16_t ts,rob; int32_t val=vf_i32("lval");
  if (own) { vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_int(vm,val),NULL); ts=1; rob=SELF; } else { ts=vf_u16("lts"); rob=vf_u16("lrob"); deliver(BUZZMSG_VSTIG_PUT,ts,rob,val); }
  while (buzzoutmsg_queue_size(vm)) buzzoutmsg_queue_next(vm);
  uint32_t depth=(uint32_t)buzzdarray_size(vm->stack); int calls=0, lcalls=0;
  for (int i=0;i<MSGS;i++) {
    int choice=vf_choose(0,5,"choice"); vmh_seti(vm,"choice",choice); uint16_t t=vf_u16("ts"), r=vf_u16("rob"); int32_t x=vf_i32("val");
    deliver(vf_choose(0,1,"kind")?BUZZMSG_VSTIG_PUT:BUZZMSG_VSTIG_QUERY,t,r,x); VF_ASSERTM(buzzdarray_size(vm->stack)==depth,"stack restored");
    if (t==ts&&r!=rob) { __vf_reach("conflict"); uint16_t nr=rob; int32_t nv=val; int keep=1;
      if (!uh) { __vf_reach("default"); if (r>rob) { nr=r; nv=x; } }
      else { calls++; if (vmh_get(vm,"calls")->i.value==calls) { VF_ASSERTM(vmh_iss(vmh_get(vm,"ck"),"a"),"handler sees the key"); side("cl",ts,rob,val); side("cr",t,r,x); }
        switch (choice) { case 0: break; case 1: nr=r; nv=x; break; case 2: __vf_reach("custom"); nr=77; nv=1234; break; case 5: nv=x; break; default: keep=0; __vf_reach("unusable"); } }
      if (keep&&rob==SELF&&nr!=SELF) { __vf_reach("lost"); if (ul) { lcalls++; VF_ASSERTM(vmh_iss(vmh_get(vm,"lk"),"a"),"conflict-lost handler sees the key"); side("ll",ts,rob,val); } }
      rob=nr; val=nv;
    } else { __vf_reach("noconflict"); if (t>ts) { ts=t; rob=r; val=x; } }
    VF_ASSERTM(vmh_get(vm,"calls")->i.value==calls,"conflict handler called exactly on conflicts"); VF_ASSERTM(vmh_get(vm,"lcalls")->i.value==lcalls,"conflict-lost handler called exactly when the own entry is discarded"); VF_ASSERTM(vmh_get(vm,"wrong")->i.value==0,"replaced handlers are not called");
    buzzvstig_elem_t e=entry("a"); VF_ASSERTM(e!=NULL,"entry exists"); if (!e) return; VF_ASSERTM(e->timestamp==ts,"kept timestamp"); VF_ASSERTM(e->robot==rob,"kept writer"); VF_ASSERTM(vmh_isi(e->data,val),"kept data"); __vf_out(ts); __vf_out((uint32_t)val); __vf_out((uint64_t)calls);
    vmh_call(vm,"junk",0,0,0,0); buzzobj_t g=vmh_call(vm,"get",1,vmh_str(vm,"a"),0,0); VF_ASSERTM(g&&vmh_isi(g,val),"read returns the kept data"); }
  buzzvm_destroy(&vm);
}
