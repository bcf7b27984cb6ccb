// Inbound queue: every payload is handed over once, unmodified, with its sender, in arrival order per sender.
// QUICK queue -DSTEPS=6 time=300 reach=append,extract,empty,second
// QUICK vm    -DVM -DSTEPS=5 time=300 reach=two,fifo
// THOROUGH queue -DSTEPS=7 time=2400
// THOROUGH vm    -DVM -DSTEPS=6 time=1800
#include "vmh.h"
#define NR 3
static const uint16_t R[NR]={0,20,65535}; static buzzvm_t vm;
#ifdef VM
static int32_t gv[8]; static int32_t gr[8]; static int ng;
static int hook(buzzvm_t v) { buzzvm_lnum_assert(v,2); buzzvm_lload(v,1); buzzvm_lload(v,2); if (ng<8) { gv[ng]=buzzvm_stack_at(v,2)->i.value; gr[ng]=buzzvm_stack_at(v,1)->i.value; } ng++; return buzzvm_ret0(v); }
void vf_main(void) {
  vm=vmh_run(4,"neighbors.listen(\"t\", function(k, x, r) { hook(x, r) })\n"); vmh_setc(vm,"hook",hook); int32_t val[STEPS]; int from[STEPS], n[NR]={0,0,0}; vm->state=BUZZVM_STATE_READY;
  for (int round=0;round<2;round++) { int base=ng; int cnt=round?1:STEPS;
    for (int i=0;i<cnt;i++) { from[i]=vf_choose(0,NR-1,"from"); val[i]=vf_i32("val"); n[from[i]]++; buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,BUZZMSG_BROADCAST); buzzobj_serialize(m,vmh_str(vm,"t")); buzzobj_serialize(m,vmh_int(vm,val[i])); buzzinmsg_queue_append(vm,R[from[i]],m); }
    buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"machine keeps running"); VF_ASSERTM(buzzinmsg_queue_isempty(vm->inmsgs),"the queue is empty after a round"); VF_ASSERTM(ng-base==cnt,"every message is processed exactly once");
    for (int r=0;r<NR;r++) { int k=base, c=0; for (int i=0;i<cnt;i++) if (from[i]==r) { while (k<ng&&k<8&&gr[k]!=R[r]) k++; VF_ASSERTM(k<ng&&k<8&&gv[k]==val[i],"with its own content and sender, in arrival order"); k++; c++; } if (c>1) __vf_reach("fifo"); if (c&&c<cnt) __vf_reach("two"); while (k<ng&&k<8&&gr[k]!=R[r]) k++; VF_ASSERTM(k>=ng||k>=8,"no message is attributed to another sender"); } 
    for (int i=base;i<ng&&i<8;i++) __vf_out((uint32_t)gr[i]); }
  buzzvm_destroy(&vm);
}
#else
void vf_main(void) {
  vm=vmh_new(4); static uint8_t data[STEPS][3]; static int len[STEPS], from[STEPS], gone[STEPS]; static buzzmsg_payload_t P[STEPS]; int n=0, left=0;
  for (int s=0;s<2*STEPS;s++) { int op=s<STEPS?vf_choose(0,NR,"op"):NR;
    if (op<NR) { __vf_reach("append"); len[n]=n%3; from[n]=op; P[n]=buzzmsg_payload_new(3); for (int i=0;i<len[n];i++) { data[n][i]=vf_u8("b"); buzzmsg_serialize_u8(P[n],data[n][i]); } for (int i=0;i<n;i++) if (!gone[i]&&from[i]==op) __vf_reach("second"); buzzinmsg_queue_append(vm,R[op],P[n]); n++; left++; }
    else { uint16_t rid=7; buzzmsg_payload_t p=NULL; int ok=buzzinmsg_queue_extract(vm,&rid,&p); VF_ASSERTM((ok!=0)==(left>0),"a message is handed over exactly when one is waiting"); if (!ok) { __vf_reach("empty"); continue; } __vf_reach("extract");
      int k=-1; for (int i=n-1;i>=0;i--) if (!gone[i]&&R[from[i]]==rid) k=i; VF_ASSERTM(k>=0,"the sender is one with a waiting message"); if (k<0) return;
      VF_ASSERTM(p==P[k]&&buzzdarray_size(p)==len[k],"its oldest message, complete"); for (int i=0;i<len[k];i++) VF_ASSERTM(buzzmsg_payload_get(p,i)==data[k][i],"unmodified"); gone[k]=1; left--; __vf_out(rid); buzzmsg_payload_destroy(&p); }
    VF_ASSERTM((buzzinmsg_queue_isempty(vm->inmsgs)!=0)==(left==0),"emptiness"); }
  VF_ASSERT(left==0); buzzvm_destroy(&vm);
}
#endif
