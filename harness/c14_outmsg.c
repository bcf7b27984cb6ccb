// Outbound queue against a reference queue: priority, first-in first-out, supersession, contents fixed at queueing time.
// QUICK all   -DSTEPS=3 -DLO=0 -DHI=12 time=300 reach=bc,bctab,put,query,joinleave,list,next,older,newer,conflict
// QUICK vstig -DSTEPS=4 -DLO=2 -DHI=6 time=300 reach=older,newer,conflict
// QUICK swarm -DSTEPS=5 -DLO=6 -DHI=12 -DPEEK time=300 reach=joinleave,list
// QUICK heap  -DHEAP time=200 reach=gc
// THOROUGH all   -DSTEPS=4 -DLO=0 -DHI=12 time=2400
// THOROUGH vstig -DSTEPS=5 -DLO=2 -DHI=6 time=2400
// THOROUGH swarm -DSTEPS=6 -DLO=6 -DHI=12 time=1800
// THOROUGH heap  -DHEAP time=400
#include "vmh.h"
#define MAXQ 8
typedef struct { int kind, key, tab, n; uint16_t id, ts, rob, ids[4]; int32_t val; } Q;
static Q q[MAXQ]; static int nq; static buzzvm_t vm; static const char* K[2]={"a","k"}; static const uint16_t SID[2]={1,11};
static int prio(int k) { switch (k) { case BUZZMSG_BROADCAST: return 0; case BUZZMSG_SWARM_LIST: return 1; case BUZZMSG_VSTIG_PUT: return 2; case BUZZMSG_VSTIG_QUERY: return 3; case BUZZMSG_SWARM_JOIN: return 4; default: return 5; } }
static void del(int i) { for (;i+1<nq;i++) q[i]=q[i+1]; nq--; }
static int head(void) { int b=-1; for (int i=0;i<nq;i++) if (b<0||prio(q[i].kind)<prio(q[b].kind)) b=i; return b; }
static int inset(uint16_t x, uint16_t* a, int n) { for (int i=0;i<n;i++) if (a[i]==x) return 1; return 0; }
static void check(void) {
  VF_ASSERTM(buzzoutmsg_queue_size(vm)==(uint32_t)nq,"exactly the unsuperseded messages are pending"); buzzmsg_payload_t m=buzzoutmsg_queue_first(vm); VF_ASSERTM((m!=NULL)==(nq>0),"a message is offered exactly when one is pending"); if (!m) return;
  Q* e=&q[head()]; VF_ASSERTM(buzzmsg_payload_get(m,0)==e->kind,"message kinds are sent by priority"); int64_t p=1; uint16_t x=0; buzzobj_t o=NULL;
  switch (e->kind) {
    case BUZZMSG_BROADCAST: p=buzzobj_deserialize(&o,m,(uint32_t)p,vm); VF_ASSERTM(p>0&&vmh_iss(o,K[e->key]),"topic, first in first out"); p=buzzobj_deserialize(&o,m,(uint32_t)p,vm); VF_ASSERTM(p>0,"value present");
      if (e->tab) VF_ASSERTM(o->o.type==BUZZTYPE_TABLE&&buzzdict_size(o->t.value)==1&&vmh_isi(vmh_tgets(vm,o,"x"),e->val),"the value as it was when queued"); else VF_ASSERTM(vmh_isi(o,e->val),"the value as it was when queued"); break;
    case BUZZMSG_SWARM_LIST: p=buzzmsg_deserialize_u16(&x,m,(uint32_t)p); VF_ASSERTM(p>0&&x==e->n,"list length"); uint16_t got[4]; for (int i=0;i<e->n;i++) { p=buzzmsg_deserialize_u16(&got[i],m,(uint32_t)p); VF_ASSERTM(p>0&&inset(got[i],e->ids,e->n)&&!inset(got[i],got,i),"list content"); } break;
    case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: p=buzzmsg_deserialize_u16(&x,m,(uint32_t)p); VF_ASSERTM(p>0&&x==e->id,"swarm id, first in first out"); break;
    default: p=buzzmsg_deserialize_u16(&x,m,(uint32_t)p); VF_ASSERTM(p>0&&x==e->id,"stigmergy id"); buzzvstig_elem_t v=(buzzvstig_elem_t)malloc(sizeof(struct buzzvstig_elem_s)); p=buzzvstig_elem_deserialize(&o,&v,m,(uint32_t)p,vm); VF_ASSERTM(p>0&&vmh_iss(o,K[e->key]),"key, first in first out"); VF_ASSERTM(p>0&&v->timestamp==e->ts&&v->robot==e->rob&&vmh_isi(v->data,e->val),"the newest entry queued for the key"); free(v); }
  VF_ASSERTM(p==buzzdarray_size(m),"nothing else in the message"); __vf_out((uint64_t)e->kind); __vf_out((uint32_t)e->val); buzzmsg_payload_destroy(&m); }
static void send(void) { check(); if (nq) { int h=head(); del(h); } buzzoutmsg_queue_next(vm); }
static void setm(int i, uint8_t in) { buzzdict_set(vm->swarms,&SID[i],&in); }
static void join(int i, int in) {
  __vf_reach("joinleave"); setm(i,(uint8_t)in); int l=-1; for (int j=0;j<nq;j++) if (q[j].kind==BUZZMSG_SWARM_LIST) l=j;
  if (l>=0) { Q* e=&q[l]; int at=-1; for (int j=0;j<e->n;j++) if (e->ids[j]==SID[i]) at=j; if (in&&at<0) e->ids[e->n++]=SID[i]; if (!in&&at>=0) { e->ids[at]=e->ids[e->n-1]; e->n--; } }
  else { int dup=0; for (int j=0;j<nq;j++) if ((q[j].kind==BUZZMSG_SWARM_JOIN||q[j].kind==BUZZMSG_SWARM_LEAVE)&&q[j].id==SID[i]) { if ((q[j].kind==BUZZMSG_SWARM_JOIN)==in) dup=1; else { del(j); j--; } } if (!dup) { Q e={0}; e.kind=in?BUZZMSG_SWARM_JOIN:BUZZMSG_SWARM_LEAVE; e.id=SID[i]; q[nq++]=e; } }
  buzzoutmsg_queue_append_swarm_joinleave(vm,in?BUZZMSG_SWARM_JOIN:BUZZMSG_SWARM_LEAVE,SID[i]); }
static void list(void) { __vf_reach("list"); for (int j=0;j<nq;j++) if (q[j].kind==BUZZMSG_SWARM_LIST||q[j].kind==BUZZMSG_SWARM_JOIN||q[j].kind==BUZZMSG_SWARM_LEAVE) { del(j); j--; } Q e={0}; e.kind=BUZZMSG_SWARM_LIST; for (int i=0;i<2;i++) { const uint8_t* x=buzzdict_get(vm->swarms,&SID[i],uint8_t); if (x&&*x) e.ids[e.n++]=SID[i]; } q[nq++]=e; buzzoutmsg_queue_append_swarm_list(vm,vm->swarms); }
static void vstig(int kind, int key) {
  Q e={0}; e.kind=kind; e.key=key; e.id=(uint16_t)vf_choose(1,key==0?1:2,"vid"); e.ts=vf_u16("ts"); e.rob=vf_u16("rob"); e.val=vf_i32("val"); int drop=0;
  for (int j=0;j<nq;j++) if ((q[j].kind==BUZZMSG_VSTIG_PUT||q[j].kind==BUZZMSG_VSTIG_QUERY)&&q[j].key==key&&q[j].id==e.id) { if (q[j].ts>e.ts) { drop=1; __vf_reach("older"); } else if (q[j].ts==e.ts&&q[j].rob==e.rob) drop=1; else { __vf_reach(q[j].ts==e.ts?"conflict":"newer"); del(j); } break; }
  if (!drop) q[nq++]=e; buzzobj_t d=vmh_int(vm,e.val); buzzvstig_elem_t v=buzzvstig_elem_new(d,e.ts,e.rob); buzzoutmsg_queue_append_vstig(vm,kind,e.id,vmh_str(vm,K[key]),v); d->i.value^=1; v->timestamp=0; v->robot=0; free(v); }
static void bc(int tab) { Q e={0}; e.kind=BUZZMSG_BROADCAST; e.key=vf_choose(0,1,"topic"); e.val=vf_i32("val"); e.tab=tab; q[nq++]=e; __vf_reach(tab?"bctab":"bc"); buzzobj_t o=vmh_int(vm,e.val); if (tab) { buzzobj_t t=vmh_tab(vm); vmh_tput(vm,t,vmh_str(vm,"x"),o); o=t; } buzzobj_t k=vmh_str(vm,K[e.key]); buzzoutmsg_queue_append_broadcast(vm,k,o); if (tab) { vmh_tput(vm,o,vmh_str(vm,"x"),vmh_int(vm,0)); vmh_tput(vm,o,vmh_str(vm,"y"),vmh_int(vm,0)); } else o->i.value^=1; }
static void gc(void) { vm->heap->max_objs=1; buzzheap_gc(vm); }
void vf_main(void) {
  vm=vmh_new(4);
#ifdef HEAP /* a collection between queueing and sending changes nothing */
  int perm=vf_choose(0,5,"perm"); static const int P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  for (int i=0;i<3;i++) { switch (P[perm][i]) { case 0: bc(1); break; case 1: vstig(BUZZMSG_VSTIG_PUT,1); break; default: vstig(BUZZMSG_VSTIG_QUERY,0); } if (vf_choose(0,1,"gc")) { gc(); __vf_reach("gc"); } }
  vstig(BUZZMSG_VSTIG_PUT,1); gc(); for (int i=0;i<6;i++) vmh_str(vm,i&1?"junk":"other"); vstig(BUZZMSG_VSTIG_QUERY,1);
#else
  for (int s=0;s<STEPS;s++) { int op=vf_choose(LO,HI-(s==0),"op"); if (op==HI) op=99;
    switch (op) { case 0: bc(0); break; case 1: bc(1); break; case 2: case 3: __vf_reach("put"); vstig(BUZZMSG_VSTIG_PUT,op-2); break; case 4: case 5: __vf_reach("query"); vstig(BUZZMSG_VSTIG_QUERY,op-4); break;
      case 6: case 7: join(op-6,1); break; case 8: case 9: join(op-8,0); break; case 10: list(); break; case 11: setm(vf_choose(0,1,"i"),1); break; default: __vf_reach("next"); send(); } }
#endif
  for (int i=0;i<MAXQ&&nq;i++) send(); check(); buzzvm_destroy(&vm);
}
