// Arbitrary radio payloads into a running robot: memory safe, malformed ones have no effect, later messages still processed.
// QUICK any   -DN=5 time=200 reach=malformed,join,leave
// QUICK bcast -DPFX=0 -DN=6 time=200 reach=malformed,heard
// QUICK topic -DPFX=0 -DTOPIC -DN=6 time=200 reach=malformed,heard
// QUICK list  -DPFX=1 -DN=8 time=200 reach=malformed,listed
// QUICK put   -DPFX=2 -DVS -DN=6 time=200 reach=malformed
// QUICK puta  -DPFX=2 -DKEYA -DFLAT -DN=10 time=200 reach=malformed,stored
// QUICK putc  -DPFX=2 -DKEYA -DN=7 time=200 reach=malformed,stored
// QUICK query -DPFX=3 -DVS -DN=6 time=200 reach=malformed
// QUICK qrya  -DPFX=3 -DKEYA -DFLAT -DN=10 time=200 reach=malformed,stored
// QUICK hand  -DPFX=2 -DKEYA -DFLAT -DHANDLER -DN=9 time=200 reach=malformed,stored,called
// QUICK qhand -DPFX=3 -DKEYA -DFLAT -DHANDLER -DN=9 time=200 reach=malformed,stored,called
// THOROUGH any   -DN=9 time=1500
// THOROUGH bcast -DPFX=0 -DN=8 time=1500
// THOROUGH topic -DPFX=0 -DTOPIC -DN=8 time=1500
// THOROUGH list  -DPFX=1 -DN=12 time=1500
// THOROUGH put   -DPFX=2 -DVS -DN=8 time=1500
// THOROUGH puta  -DPFX=2 -DKEYA -DFLAT -DN=14 time=1500
// THOROUGH putc  -DPFX=2 -DKEYA -DN=9 time=1500
// THOROUGH query -DPFX=3 -DVS -DN=8 time=1500
// THOROUGH qrya  -DPFX=3 -DKEYA -DFLAT -DN=14 time=1500
// THOROUGH qryc  -DPFX=3 -DKEYA -DN=9 time=1500
// THOROUGH hand  -DPFX=2 -DKEYA -DFLAT -DHANDLER -DN=13 time=1500
// THOROUGH qhand -DPFX=3 -DKEYA -DFLAT -DHANDLER -DN=13 time=1500
#include "vmh.h"
static uint8_t b[N+16]; static int n;
static int u16(int p) { return p<0||p+2>n ? -1 : b[p]*256+b[p+1]; }
/* end of the well-formed value at p, or -1 */
static int val(int p) { if (p<0||p>=n) return -1; int t=b[p++]; switch (t) { case 0: return p; case 1: return p+4<=n?p+4:-1; case 2: return p+8<=n?p+8:-1;
  case 3: { int l=u16(p); return l<0||p+2+l>n ? -1 : p+2+l; }
  case 4: { if (p>=n) return -1; int c=b[p++]; for (int i=0;i<c;i++) { if (p>=n||b[p]<1||b[p]>3) return -1; p=val(p); if (p<0) return -1; p=val(p); if (p<0) return -1; } return p; }
  case 5: return p+5<=n?p+5:-1; default: return -1; } }
static int wf(void) { if (n<1) return 0; switch (b[0]) { case 0: { if (n<2||b[1]!=3) return 0; int p=val(1); return p>=0&&val(p)>=0; }
  case 1: { int c=u16(1); return c>=0&&3+2*c<=n; } case 2: case 3: { if (n<4||b[3]==5) return 0; int p=val(3); p=p<0?-1:val(p); return p>=0&&p+4<=n; }
  case 4: case 5: return n>=3; default: return 0; } }
static uint32_t vsize(buzzvm_t vm, buzzvstig_elem_t* e, const char* key) { uint16_t id=1; const buzzvstig_t* vs=buzzdict_get(vm->vstigs,&id,buzzvstig_t); VF_ASSERTM(vs!=NULL,"the stigmergy still exists"); if (!vs) return 0;
  buzzobj_t k=vmh_str(vm,key); const buzzvstig_elem_t* x=buzzvstig_fetch(*vs,&k); *e=x?*x:NULL; return buzzdict_size((*vs)->data); }
void vf_main(void) {
  buzzvm_t vm=vmh_run(3,
    "calls = 0  lost = 0 confl = 0\n" "v = stigmergy.create(1)  v.put(\"a\", 5)\n v.put(\"z\", 7)\n"
    "s = swarm.create(1)  s.join()\n" "neighbors.listen(\"k\", function(topic, value, rid) { calls = calls + 1 })\n"
#ifdef HANDLER
    "v.onconflict(function(k, l, r) { confl = confl + 1  k = nil  var t = {} t.a = {} if(l.data == r.data) { return nil } if(r.data == nil) { return { .robot = \"x\" } } if(r.robot > 100) { return r } return l })\n"
    "v.onconflictlost(function(k, l) { lost = lost + 1  var t = {} t.a = {} })\n"
#endif
    );
  VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"setup script runs"); vm->state=BUZZVM_STATE_READY;
  while (buzzoutmsg_queue_size(vm)) buzzoutmsg_queue_next(vm);
  uint32_t depth=(uint32_t)buzzdarray_size(vm->stack), depths=(uint32_t)buzzdarray_size(vm->stacks); uint16_t sender=9;
  int p=0;
#ifdef PFX
  b[p++]=PFX;
#endif
#if defined(VS)||defined(KEYA)
  b[p++]=0; b[p++]=1;
#endif
#ifdef TOPIC
  b[p++]=3; b[p++]=0; b[p++]=1; b[p++]='k';
#endif
#ifdef KEYA
  b[p++]=3; b[p++]=0; b[p++]=1; b[p++]='a';
#endif
  n=p+vf_choose(0,N,"len"); for (int i=p;i<n;i++) b[i]=vf_u8("b");
#ifdef FLAT
  if (n>7) __vf_assume(b[7]<2||b[7]>4);
#endif
#if !defined(PFX)||PFX==1
  if (n>=3&&b[0]==1) { int c=u16(1); __vf_assume(c<=6||c==256||c==65535); }
#endif
#ifndef PFX
  if (n>3) __vf_assume(b[0]==1||b[0]>=4);
#endif
  buzzswarm_members_join(vm->swarmmembers,sender,77);
  int ok=wf(); if (!ok) __vf_reach("malformed");
  buzzinmsg_queue_append(vm,sender,buzzdarray_frombuffer(b,(uint32_t)n,1,NULL));
  uint8_t j[3]={BUZZMSG_SWARM_JOIN,0,2}; buzzinmsg_queue_append(vm,8,buzzdarray_frombuffer(j,3,1,NULL));
  buzzinmsg_queue_append(vm,10,buzzdarray_frombuffer(j,3,1,NULL));
  buzzvm_process_inmsgs(vm);
  VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"the robot can keep running");
  VF_ASSERTM(buzzdarray_size(vm->stack)==depth && buzzdarray_size(vm->stacks)==depths,"the evaluation stack is back where it was");
  VF_ASSERTM(buzzinmsg_queue_isempty(vm->inmsgs),"all messages consumed");
  VF_ASSERTM(buzzswarm_members_isrobotin(vm->swarmmembers,8,2)&&buzzswarm_members_isrobotin(vm->swarmmembers,10,2),"the other messages of the round are processed");
  buzzvstig_elem_t e,z; uint32_t sz=vsize(vm,&e,"a"); vsize(vm,&z,"z"); int calls=vmh_get(vm,"calls")->i.value;
  VF_ASSERTM(e!=NULL,"known keys stay known"); int same=e&&e->timestamp==1&&e->robot==3&&vmh_isi(e->data,5);
  if (!same) __vf_reach("stored"); if (calls) __vf_reach("heard"); 
#ifndef VS
  VF_ASSERTM(z&&z->timestamp==1&&vmh_isi(z->data,7),"other keys are untouched");
#endif
  if (!ok) {
    VF_ASSERTM(calls==0,"a malformed message reaches no listener");
    VF_ASSERTM(sz==2&&same&&z&&z->timestamp==1,"a malformed message leaves shared data alone");
    VF_ASSERTM(buzzswarm_members_isrobotin(vm->swarmmembers,sender,77),"a malformed message leaves membership alone");
    uint16_t q=vf_u16("anyswarm"); VF_ASSERTM(q==77||!buzzswarm_members_isrobotin(vm->swarmmembers,sender,q),"a malformed message adds no membership");
    VF_ASSERTM(buzzoutmsg_queue_size(vm)==0,"a malformed message is not relayed");
  } else {
    if (b[0]==4) { __vf_reach("join"); VF_ASSERT(buzzswarm_members_isrobotin(vm->swarmmembers,sender,(uint16_t)u16(1))); }
    if (b[0]==5) { __vf_reach("leave"); VF_ASSERT(!buzzswarm_members_isrobotin(vm->swarmmembers,sender,(uint16_t)u16(1))); }
    if (b[0]==1&&u16(1)>0) { __vf_reach("listed"); VF_ASSERT(buzzswarm_members_isrobotin(vm->swarmmembers,sender,(uint16_t)u16(3))); }
  }
#ifdef HANDLER
  if (vmh_get(vm,"confl")->i.value) __vf_reach("called");
#endif
  __vf_out((uint64_t)calls); __vf_out(sz); __vf_out(e?e->timestamp:0); __vf_out((uint64_t)ok);
  /* the script still runs */
  VF_ASSERTM(buzzvm_function_call(vm,"calls",0)==BUZZVM_STATE_ERROR,"(calls is not a function)");
  buzzvm_destroy(&vm);
}
