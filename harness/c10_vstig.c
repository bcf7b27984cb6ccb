// Virtual stigmergy protocol: every event against every local state of the key, checked on the local entry and on the bytes announced.
// QUICK local -DLOCAL time=200 reach=put,del,get,getnil,alias
// QUICK recv  -DRECV time=200 reach=adopt,answer,relay,conflict,ignored
// QUICK seq   -DSEQ=3 time=200 reach=two
// THOROUGH local -DLOCAL time=800
// THOROUGH recv  -DRECV -DWIDE time=800
// THOROUGH seq   -DSEQ=4 time=1800
#include "vmh.h"
#define SELF 5
typedef struct { int has, nil; int32_t val; uint16_t ts, rob; } ent;
static const char* SRC="v = stigmergy.create(1)\nw = stigmergy.create(2)\nfunction put(k, x) { v.put(k, x) }\nfunction get(k) { return v.get(k) }\nfunction vsz() { return v.size() }\n";
static buzzvm_t vm;
static buzzvstig_elem_t entry(const char* key, uint16_t id) { const buzzvstig_t* vs=buzzdict_get(vm->vstigs,&id,buzzvstig_t); buzzobj_t k=vmh_str(vm,key); const buzzvstig_elem_t* x=buzzvstig_fetch(*vs,&k); return x?*x:NULL; }
static void deliver(int kind, uint16_t id, const char* key, ent e) {
  buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,(uint8_t)kind); buzzmsg_serialize_u16(m,id);
  buzzobj_serialize(m,vmh_str(vm,key)); buzzobj_serialize(m,e.nil?vmh_nil(vm):vmh_int(vm,e.val)); buzzmsg_serialize_u16(m,e.ts); buzzmsg_serialize_u16(m,e.rob);
  buzzinmsg_queue_append(vm,9,m); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"delivery succeeds"); }
static void drain(void) { while (buzzoutmsg_queue_size(vm)) buzzoutmsg_queue_next(vm); }
/* the next announcement is exactly this one */
static void announced(int kind, uint16_t id, const char* key, ent e) {
  VF_ASSERTM(buzzoutmsg_queue_size(vm)>0,"the event is announced"); buzzmsg_payload_t m=buzzoutmsg_queue_first(vm); if (!m) return; uint8_t k; uint16_t i,ts,rob; buzzobj_t ko,vo;
  int64_t p=buzzmsg_deserialize_u8(&k,m,0); p=buzzmsg_deserialize_u16(&i,m,(uint32_t)p); p=buzzobj_deserialize(&ko,m,(uint32_t)p,vm); p=buzzobj_deserialize(&vo,m,(uint32_t)p,vm); p=buzzmsg_deserialize_u16(&ts,m,(uint32_t)p); p=buzzmsg_deserialize_u16(&rob,m,(uint32_t)p);
  VF_ASSERTM(p==(int64_t)buzzdarray_size(m),"announcement is well formed"); VF_ASSERTM(k==kind,"kind of announcement"); VF_ASSERTM(i==id&&vmh_iss(ko,key),"announced stigmergy and key");
  VF_ASSERTM(e.nil?vo->o.type==BUZZTYPE_NIL:vmh_isi(vo,e.val),"announced value"); VF_ASSERTM(ts==e.ts,"announced timestamp"); VF_ASSERTM(rob==e.rob,"announced writer"); buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(vm); }
static void local(const char* key, ent e) { buzzvstig_elem_t x=entry(key,1); VF_ASSERTM((x!=NULL)==e.has,"presence of the entry"); if (!x||!e.has) return; VF_ASSERTM(x->timestamp==e.ts,"entry timestamp"); VF_ASSERTM(x->robot==e.rob,"entry writer"); VF_ASSERTM(e.nil?x->data->o.type==BUZZTYPE_NIL:vmh_isi(x->data,e.val),"entry value"); __vf_out(e.ts); }
static ent some(int mayhave) { ent e={.has=mayhave?vf_choose(0,1,"has"):1}; if (!e.has) return e; e.ts=vf_u16("ts"); e.rob=vf_u16("rob"); e.val=vf_i32("val"); e.nil=vf_choose(0,1,"nil"); return e; }
static ent winner(ent l, ent r) { if (l.nil!=r.nil) return l.nil?r:l; return l.rob>r.rob?l:r; }
void vf_main(void) {
  vm=vmh_run(SELF,SRC); VF_ASSERT(vm->state==BUZZVM_STATE_DONE); vm->state=BUZZVM_STATE_READY;
  ent L=some(1); if (L.has) deliver(BUZZMSG_VSTIG_PUT,1,"a",L); local("a",L); drain();
  ent O={.has=1,.ts=3,.rob=8,.val=42}; deliver(BUZZMSG_VSTIG_PUT,1,"other",O); drain();
#ifdef LOCAL
  switch (vf_choose(0,2,"op")) {
    case 0: { int32_t x=vf_i32("x"); ent E={.has=1,.val=x,.ts=(uint16_t)(L.has?L.ts+1:1),.rob=SELF}; if (L.has) __vf_assume(L.ts<65535); __vf_reach("put"); vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_int(vm,x),NULL); local("a",E); announced(BUZZMSG_VSTIG_PUT,1,"a",E);
      /* what was announced is a snapshot: later changes do not alter it, and the entry is the new one */
      int32_t y=vf_i32("y"); __vf_assume(E.ts<65535); vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_int(vm,y),NULL); ent F={.has=1,.val=y,.ts=(uint16_t)(E.ts+1),.rob=SELF}; local("a",F); announced(BUZZMSG_VSTIG_PUT,1,"a",F); __vf_reach("alias"); break; }
    case 1: { ent E={.has=0}, G={.has=1,.nil=1,.ts=(uint16_t)(L.ts+1),.rob=SELF}; if (L.has) __vf_assume(L.ts<65535); __vf_reach("del"); vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_nil(vm),NULL); local("a",E); if (L.has) announced(BUZZMSG_VSTIG_PUT,1,"a",G); break; }
    default: { buzzobj_t g=vmh_call(vm,"get",1,vmh_str(vm,"a"),NULL,NULL); if (L.has) { __vf_reach("get"); VF_ASSERTM(g&&(L.nil?g->o.type==BUZZTYPE_NIL:vmh_isi(g,L.val)),"read value"); announced(BUZZMSG_VSTIG_QUERY,1,"a",L); } else { ent Q={.nil=1,.rob=SELF}; __vf_reach("getnil"); VF_ASSERTM(g&&g->o.type==BUZZTYPE_NIL,"unknown keys read as nil"); announced(BUZZMSG_VSTIG_QUERY,1,"a",Q); } local("a",L); }
  }
#elif defined(RECV)
  ent R=some(0); uint16_t id=(uint16_t)vf_choose(1,3,"id"); int kind=vf_choose(0,1,"kind")?BUZZMSG_VSTIG_PUT:BUZZMSG_VSTIG_QUERY; ent M=L; if (id==2) M.has=0;
  deliver(kind,id,"a",R); ent keep=M; int say=-1; ent what=R;
  if (id==3) { if (kind==BUZZMSG_VSTIG_QUERY) say=kind; }
  else if (!M.has) { if (kind==BUZZMSG_VSTIG_QUERY&&R.nil) { say=kind; __vf_reach("relay"); } else { keep=R; say=BUZZMSG_VSTIG_PUT; } }
  else if (M.ts<R.ts) { __vf_reach("adopt"); keep=R; say=BUZZMSG_VSTIG_PUT; }
  else if (M.ts>R.ts) { if (kind==BUZZMSG_VSTIG_QUERY) { __vf_reach("answer"); say=BUZZMSG_VSTIG_PUT; what=M; } else __vf_reach("ignored"); }
  else if (M.rob!=R.rob) { __vf_reach("conflict"); keep=what=winner(M,R); say=BUZZMSG_VSTIG_PUT; }
  if (id==1) local("a",keep); else local("a",L); if (id==2) { buzzvstig_elem_t x=entry("a",2); VF_ASSERT((x!=NULL)==keep.has); if (x&&keep.has) VF_ASSERT(x->timestamp==keep.ts&&x->robot==keep.rob); }
  if (say>=0) announced(say,id,"a",what);
#else
  /* several events before anything is sent: the queue ends up holding the robot's current knowledge of the key */
  if (!L.has) return; int any=0;
  for (int i=0;i<SEQ;i++) { int op=vf_choose(0,2,"op"); if (op==0) { int32_t x=vf_i32("x"); __vf_assume(L.ts<65535); vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_int(vm,x),NULL); L.ts++; L.val=x; L.nil=0; L.rob=SELF; any=1; }
    else if (op==1) { vmh_call(vm,"get",1,vmh_str(vm,"a"),NULL,NULL); any|=2; }
    else { ent R=some(0); deliver(BUZZMSG_VSTIG_PUT,1,"a",R); if (R.ts>L.ts) { L=R; any=1; } else if (R.ts==L.ts&&R.rob!=L.rob) { L=winner(L,R); any=1; } } }
  local("a",L); if (any&1) { buzzmsg_payload_t m=buzzoutmsg_queue_first(vm); VF_ASSERTM(m!=NULL,"something is announced"); if (m) { uint8_t k; buzzmsg_deserialize_u8(&k,m,0); buzzmsg_payload_destroy(&m); announced(k,1,"a",L); __vf_reach("two"); } } else if (any) announced(BUZZMSG_VSTIG_QUERY,1,"a",L);
#endif
  local("other",O); VF_ASSERTM(buzzoutmsg_queue_size(vm)==0,"nothing else is announced"); buzzvm_destroy(&vm);
}
