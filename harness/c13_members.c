// Knowledge of other robots' swarms: abstract map (robot -> set of swarms, age) against the real table, through the API and through messages.
// QUICK api  -DSTEPS=3 time=250 reach=list,join,leave,aged
// QUICK msg  -DMSG -DSTEPS=3 time=300 reach=list,join,leave,aged,empty
// QUICK age  -DAGE time=200 reach=forgotten,kept
// QUICK own  -DOWN time=200 reach=told,list,silent
// THOROUGH api  -DSTEPS=4 time=1800
// THOROUGH msg  -DMSG -DSTEPS=4 time=1800
// THOROUGH age  -DAGE time=400
// THOROUGH own  -DOWN -DOWNSTEPS=3 time=900
#include "vmh.h"
#define LIMIT 50 /* rounds of silence that are tolerated */
#define NR 2
static const uint16_t R[NR]={3,13}; /* same bucket */
static int known[NR][2], age[NR], present[NR]; static uint16_t S[2]; static buzzswarm_members_t M; static buzzvm_t vm;
static void see(void) { uint16_t q=vf_u16("query"); for (int r=0;r<NR;r++) { int want=(known[r][0]&&q==S[0])||(known[r][1]&&q==S[1]); int got=buzzswarm_members_isrobotin(M,R[r],q); VF_ASSERTM((got!=0)==(want!=0),"membership is what the robot's announcements say"); __vf_out((uint64_t)(got!=0)); } VF_ASSERTM(!buzzswarm_members_isrobotin(M,7,q),"nothing is known about a silent robot"); }
static void tick(void) { for (int r=0;r<NR;r++) if (present[r]&&++age[r]>LIMIT) { present[r]=known[r][0]=known[r][1]=0; __vf_reach("aged"); } }
static void heard(int r, int p) { age[r]=0; if (p) present[r]=1; }
static void send(int r, int kind, int mask) {
  buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,(uint8_t)kind);
  if (kind==BUZZMSG_SWARM_LIST) { buzzmsg_serialize_u16(m,(uint16_t)((mask&1)+(mask>>1))); if (!mask) __vf_reach("empty"); }
  if (mask&1) buzzmsg_serialize_u16(m,S[0]); if (mask&2) buzzmsg_serialize_u16(m,S[1]); buzzinmsg_queue_append(vm,R[r],m); }
void vf_main(void) {
#ifdef OWN /* two VMs: what robot 3 does is what robot 5 knows about it */
#ifndef OWNSTEPS
#define OWNSTEPS 2
#endif
  static const char* SRC="A = swarm.create(1)  B = swarm.create(11)\nfunction ja() { A.join() }\nfunction jb() { B.join() }\nfunction la() { A.leave() }\nfunction lb() { B.leave() }\n"; static const char* F[]={"ja","jb","la","lb"}; static const uint16_t ID[2]={1,11};
  buzzvm_t a=vmh_run(3,SRC); vm=vmh_run(5,SRC); vm->state=BUZZVM_STATE_READY; M=vm->swarmmembers; int mem[2]={0,0}, lists=0;
  for (int i=0;i<2;i++) { mem[i]=vf_choose(0,1,"member"); if (mem[i]) VF_ASSERTM(vmh_call(a,F[i],0,0,0,0)!=NULL,"join"); }
  a->swarmbroadcast=(uint16_t)vf_choose(1,3,"phase"); int listed=0;
  for (int s=0;s<OWNSTEPS;s++) { int early=vf_choose(0,1,"order"), op=vf_choose(0,4,"op"); if (early) buzzvm_process_outmsgs(a);
    if (op<4) { VF_ASSERTM(vmh_call(a,F[op],0,0,0,0)!=NULL,"runs"); mem[op&1]=op<2; } if (!early) buzzvm_process_outmsgs(a);
    int n=0; buzzmsg_payload_t m; while ((m=buzzoutmsg_queue_first(a))!=NULL) { if (buzzmsg_payload_get(m,0)==BUZZMSG_SWARM_LIST) { lists++; listed=1; __vf_reach("list"); } buzzinmsg_queue_append(vm,3,m); buzzvm_process_inmsgs(vm); buzzoutmsg_queue_next(a); VF_ASSERTM(++n<8,"the queue drains"); } if (!n) { __vf_reach("silent"); buzzvm_process_inmsgs(vm); }
    for (int i=0;i<2;i++) { VF_ASSERTM((buzzswarm_members_isrobotin(M,3,ID[i])!=0)==mem[i],"after an exchange the neighbour knows the robot's membership"); __vf_out((uint64_t)mem[i]); } __vf_reach("told"); (void)listed; }
#elif defined(AGE)
  vm=vmh_new(5); M=vm->swarmmembers; S[0]=1; S[1]=2; int how=vf_choose(0,2,"how"), n=vf_choose(LIMIT-2,LIMIT+2,"silence"), talk=vf_choose(0,2,"talk"); buzzdarray_t l=NULL; uint16_t s=1;
  for (int k=0;k<2;k++) { /* k=1: a second, later announcement restarts the count */
    int what=k?talk:how; if (what==0) buzzswarm_members_join(M,R[0],1); else if (what==1) { buzzswarm_members_join(M,R[0],1); buzzswarm_members_join(M,R[0],2); buzzswarm_members_leave(M,R[0],2); } else { l=buzzdarray_new(1,sizeof(uint16_t),NULL); buzzdarray_push(l,&s); buzzswarm_members_refresh(M,R[0],l); }
    if (!k) { buzzswarm_members_join(M,R[1],1); for (int i=0;i<LIMIT-1;i++) buzzswarm_members_update(M); VF_ASSERTM(buzzswarm_members_isrobotin(M,R[0],1),"recent information is kept"); } }
  for (int i=0;i<n;i++) { buzzswarm_members_update(M); if (i>0) VF_ASSERTM(!buzzswarm_members_isrobotin(M,R[1],1),"a robot silent for too long is forgotten, whatever others say"); }
  int in=buzzswarm_members_isrobotin(M,R[0],1); VF_ASSERTM((in!=0)==(n<=LIMIT),"information is kept until the ageing limit and not beyond"); __vf_reach(in?"kept":"forgotten");
#else
  vm=vmh_new(5); M=vm->swarmmembers; S[0]=vf_u16("s0"); S[1]=vf_u16("s1"); __vf_assume(S[0]!=S[1]);
  for (int s=0;s<STEPS;s++) { int op=vf_choose(0,8,"op"), r=op==8?0:vf_choose(0,NR-1,"robot"), n=0;
#ifdef MSG
    if (op<4) { send(r,BUZZMSG_SWARM_LIST,op); __vf_reach("list"); known[r][0]=op&1; known[r][1]=op>>1; heard(r,1); }
    else if (op<6) { send(r,BUZZMSG_SWARM_JOIN,op-3); __vf_reach("join"); known[r][op-4]=1; heard(r,1); }
    else if (op<8) { send(r,BUZZMSG_SWARM_LEAVE,op-5); __vf_reach("leave"); known[r][op-6]=0; heard(r,0); }
    else n=LIMIT;
    for (int i=0;i<=n;i++) { buzzvm_process_inmsgs(vm); tick(); } VF_ASSERT(vm->state==BUZZVM_STATE_READY&&buzzinmsg_queue_isempty(vm->inmsgs));
#else
    if (op<4) { buzzdarray_t l=buzzdarray_new(2,sizeof(uint16_t),NULL); if (op&1) buzzdarray_push(l,&S[0]); if (op>>1) buzzdarray_push(l,&S[1]); buzzswarm_members_refresh(M,R[r],l); __vf_reach("list"); known[r][0]=op&1; known[r][1]=op>>1; heard(r,1); }
    else if (op<6) { buzzswarm_members_join(M,R[r],S[op-4]); __vf_reach("join"); known[r][op-4]=1; heard(r,1); }
    else if (op<8) { buzzswarm_members_leave(M,R[r],S[op-6]); __vf_reach("leave"); known[r][op-6]=0; heard(r,0); }
    else { n=vf_choose(0,2,"much"); n=n?LIMIT+n-1:1; for (int i=0;i<n;i++) { buzzswarm_members_update(M); tick(); } }
#endif
    see(); }
#endif
  buzzvm_destroy(&vm);
}
