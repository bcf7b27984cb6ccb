// Virtual stigmergy: final entry is the maximum by (timestamp, writer), independent of delivery order, duplication and message kind.
// QUICK order -DU=3 time=300 reach=conflict,swap
// QUICK local -DLOCAL -DSTEPS=4 time=300 reach=conflict,local
// QUICK keys  -DKEYS -DU=2 time=200
// THOROUGH order -DU=4 time=1800
// THOROUGH local -DLOCAL -DSTEPS=5 time=1800
// THOROUGH keys  -DKEYS -DU=3 time=1500
#include "vmh.h"
static const char* SRC="v = stigmergy.create(1)\nfunction put(k, x) { v.put(k, x) }\nfunction get(k) { return v.get(k) }\nfunction vsz() { return v.size() }\n";
static buzzvstig_elem_t entry(buzzvm_t vm, buzzobj_t k) { uint16_t id=1; const buzzvstig_t* vs=buzzdict_get(vm->vstigs,&id,buzzvstig_t); const buzzvstig_elem_t* x=buzzvstig_fetch(*vs,&k); return x?*x:NULL; }
static void deliver(buzzvm_t vm, int kind, const char* key, uint16_t ts, uint16_t rob, int32_t val, uint16_t from) {
  buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,(uint8_t)kind); buzzmsg_serialize_u16(m,1);
  buzzobj_serialize(m,vmh_str(vm,key)); buzzobj_serialize(m,vmh_int(vm,val)); buzzmsg_serialize_u16(m,ts); buzzmsg_serialize_u16(m,rob);
  buzzinmsg_queue_append(vm,from,m); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"delivery succeeds"); }
static void check(buzzvm_t vm, const char* key, int has, uint16_t ts, uint16_t rob, int32_t val) {
  buzzvstig_elem_t e=entry(vm,vmh_str(vm,key)); VF_ASSERTM((e!=NULL)==has,"exactly the written keys exist"); if (!e||!has) return;
  VF_ASSERTM(e->timestamp==ts,"highest timestamp is kept"); VF_ASSERTM(e->robot==rob,"the writer of the winning entry is kept"); VF_ASSERTM(vmh_isi(e->data,val),"the value of the winning entry is kept");
  buzzobj_t g=vmh_call(vm,"get",1,vmh_str(vm,key),NULL,NULL); VF_ASSERTM(g&&vmh_isi(g,val),"a read returns the winning value"); __vf_out(ts); __vf_out((uint32_t)val); }
#ifdef LOCAL
void vf_main(void) {
  buzzvm_t vm=vmh_run(5,SRC); VF_ASSERT(vm->state==BUZZVM_STATE_DONE); vm->state=BUZZVM_STATE_READY; int has=0; uint16_t ts=0,rob=0; int32_t val=0;
  for (int s=0;s<STEPS;s++) { int what=vf_choose(0,2,"what"); int32_t x=vf_i32("val");
    if (what==0) { __vf_reach("local"); if (has) { __vf_assume(ts<65535); ts++; } else ts=1; has=1; rob=5; val=x; vmh_call(vm,"put",2,vmh_str(vm,"a"),vmh_int(vm,x),NULL); }
    else { uint16_t t=vf_u16("ts"), r=vf_u16("rob"); if (has&&t==ts&&r==rob) __vf_assume(x==val);
      if (has&&t==ts&&r!=rob) __vf_reach("conflict");
      deliver(vm,what==1?BUZZMSG_VSTIG_PUT:BUZZMSG_VSTIG_QUERY,"a",t,r,x,9); if (!has||t>ts||(t==ts&&r>rob)) { has=1; ts=t; rob=r; val=x; } }
    check(vm,"a",has,ts,rob,val); check(vm,"b",0,0,0,0); }
  buzzvm_destroy(&vm);
}
#elif defined(KEYS)
void vf_main(void) {
  buzzvm_t vm=vmh_run(5,SRC); vm->state=BUZZVM_STATE_READY; static const char* K[3]={"a","b","k"}; int has[3]={0,0,0}; uint16_t ts[3],rob[3]; int32_t val[3];
  for (int i=0;i<U;i++) { int k=vf_choose(0,2,"key"), kind=vf_choose(0,1,"kind")?BUZZMSG_VSTIG_PUT:BUZZMSG_VSTIG_QUERY; uint16_t t=vf_u16("ts"), r=vf_u16("rob"); int32_t x=vf_i32("val"); if (has[k]&&t==ts[k]&&r==rob[k]) __vf_assume(x==val[k]);
    deliver(vm,kind,K[k],t,r,x,9); if (!has[k]||t>ts[k]||(t==ts[k]&&r>rob[k])) { has[k]=1; ts[k]=t; rob[k]=r; val[k]=x; } }
  for (int k=0;k<3;k++) check(vm,K[k],has[k],has[k]?ts[k]:0,has[k]?rob[k]:0,has[k]?val[k]:0);
  buzzobj_t s=vmh_call(vm,"vsz",0,NULL,NULL,NULL); VF_ASSERT(s&&vmh_isi(s,has[0]+has[1]+has[2])); buzzvm_destroy(&vm);
}
#else
void vf_main(void) {
  buzzvm_t A=vmh_run(5,SRC), B=vmh_run(6,SRC); A->state=B->state=BUZZVM_STATE_READY; uint16_t ts[U],rob[U]; int32_t val[U]; int best=0;
  for (int i=0;i<U;i++) { ts[i]=vf_u16("ts"); rob[i]=vf_u16("rob"); val[i]=vf_i32("val"); for (int j=0;j<i;j++) if (ts[i]==ts[j]) { if (rob[i]==rob[j]) __vf_assume(val[i]==val[j]); else __vf_reach("conflict"); } if (ts[i]>ts[best]||(ts[i]==ts[best]&&rob[i]>rob[best])) best=i; }
  int kind=vf_choose(0,1,"kind")?BUZZMSG_VSTIG_PUT:BUZZMSG_VSTIG_QUERY;
  for (int i=0;i<U;i++) deliver(A,BUZZMSG_VSTIG_PUT,"a",ts[i],rob[i],val[i],9);
  int used=0; for (int i=0;i<U;i++) { int j=vf_choose(0,U-1,"perm"); __vf_assume(!(used>>j&1)); used|=1<<j; if (j!=i) __vf_reach("swap"); deliver(B,kind,"a",ts[j],rob[j],val[j],8); if (i==1) deliver(B,BUZZMSG_VSTIG_PUT,"a",ts[j],rob[j],val[j],7); }
  check(A,"a",1,ts[best],rob[best],val[best]); check(B,"a",1,ts[best],rob[best],val[best]); buzzvm_destroy(&A); buzzvm_destroy(&B);
}
#endif
