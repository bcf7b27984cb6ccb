// Broadcasts between two machines and the listener table: every history against an abstract map from topic to listener.
// QUICK send -DMODE=0 -DN=2 time=300 reach=ok,heard,unheard,changed,two
// QUICK hist -DMODE=1 -DNT=2 -DN=3 time=300 reach=ok,heard,unheard,ignored,replaced
// QUICK self -DMODE=2 -DN=2 time=300 reach=ok,again,stopped
// BOTH bad   -DMODE=3 time=200 reach=ok,error
// THOROUGH send -DMODE=0 -DN=3 time=3000
// THOROUGH hist -DMODE=1 -DN=4 time=3000
// THOROUGH self -DMODE=2 -DN=4 time=3000
#include "vmh.h"
#ifndef NT
#define NT 3
#endif
static const char* T[]={"a","b","ab"}; static buzzvm_t A, B; static const uint16_t SID=513;
typedef struct { int kind; int32_t i; float f; const char* s; } V;
typedef struct { int who; const char* topic; V* v; int32_t from; } EV; static EV ev[16]; static int nev, got; /* expected calls, calls seen */
static int act; /* what the listener does while it runs */
static void gc(buzzvm_t v) { v->heap->max_objs=0; buzzheap_gc(v); }
static V* mkv(int k) { static V pool[16]; static int n; V* v=&pool[n++]; v->kind=k>=0?k:vf_choose(0,4,"kind"); v->i=vf_i32("i"); v->f=v->kind==1&&vf_choose(0,1,"f")?-0.1f:65536.5f; v->s=v->kind==2&&vf_choose(0,1,"str")?"ab":"value"; return v; }
static buzzobj_t obj(buzzvm_t m, V* v) { switch (v->kind) { case 0: return vmh_int(m,v->i); case 1: return vmh_flt(m,v->f); case 2: return vmh_str(m,v->s); case 3: return vmh_nil(m); default: { buzzobj_t t=vmh_tab(m); vmh_tput(m,t,vmh_str(m,"x"),vmh_int(m,v->i)); vmh_tput(m,t,vmh_int(m,1),vmh_str(m,v->s)); return t; } } }
static int is(buzzvm_t m, buzzobj_t o, V* v) { switch (v->kind) { case 0: return vmh_isi(o,v->i); case 1: return vmh_isfb(o,v->f); case 2: return vmh_iss(o,v->s); case 3: return o->o.type==BUZZTYPE_NIL; default: return o->o.type==BUZZTYPE_TABLE&&buzzdict_size(o->t.value)==2&&vmh_isi(vmh_tgets(m,o,"x"),v->i)&&vmh_iss(vmh_tget(m,o,vmh_int(m,1)),v->s); } }
static int heard(buzzvm_t v, int who) { VF_ASSERTM(got<nev,"a listener is called only for a message of its topic"); if (got>=nev) exit(0); EV* e=&ev[got++]; VF_ASSERTM(buzzvm_lnum(v)==3,"topic, value and sender");
  buzzvm_lload(v,1); buzzobj_t t=buzzvm_stack_at(v,1); buzzvm_lload(v,2); buzzobj_t x=buzzvm_stack_at(v,1); buzzvm_lload(v,3); buzzobj_t r=buzzvm_stack_at(v,1); VF_ASSERTM(e->who==who,"the listener registered last"); VF_ASSERTM(vmh_iss(t,e->topic),"topic"); VF_ASSERTM(vmh_isi(r,e->from),"sender"); VF_ASSERTM(is(v,x,e->v),"value"); __vf_out((uint32_t)(who*16+x->o.type)); return buzzvm_ret0(v); }
static int l0(buzzvm_t v) { return heard(v,0); }
static int l1(buzzvm_t v) { return heard(v,1); }
static const char SRC[]="function lis(t,f) { neighbors.listen(t, f) }\nfunction ign(t) { neighbors.ignore(t) }\nfunction bc(t,v) { neighbors.broadcast(t, v) }\nfunction lisl(t,f) { neighbors.listen(t, function(k, v, r) { f(k, v, r) }) }\n"
 "function ones(t,f) { neighbors.listen(t, function(k, v, r) { f(k, v, r)  neighbors.ignore(k) }) }\nfunction swap(t,f) { neighbors.listen(t, function(k, v, r) { f(k, v, r)  neighbors.listen(k, l1) }) }\nfunction echo(t,f) { neighbors.listen(t, function(k, v, r) { f(k, v, r)  neighbors.broadcast(k, v) }) }\nfunction fail(t,f) { neighbors.listen(t, function(k, v, r) { f(k, v, r)  return v + 1 }) }\n";
static buzzvm_t mk(uint16_t r) { buzzvm_t v=vmh_load(r,SRC); vmh_setc(v,"l0",l0); vmh_setc(v,"l1",l1); buzzvm_execute_script(v); VF_ASSERTM(v->state==BUZZVM_STATE_DONE,"script runs"); v->state=BUZZVM_STATE_READY; return v; }
static void call(buzzvm_t m, const char* f, buzzobj_t a, buzzobj_t b) { int n=b?2:1; int64_t st=buzzvm_stack_top(m); buzzobj_t r=vmh_call(m,f,n,a,b,NULL); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(m)==st,"runs"); }
static int total(buzzvm_t m) { return (int)buzzoutmsg_queue_size(m); }
/* one message from A's queue to B's */
static void carry(void) { buzzmsg_payload_t m=buzzoutmsg_queue_first(A); VF_ASSERTM(m!=NULL,"the message is queued"); if (!m) exit(0); buzzinmsg_queue_append(B,SID,m); buzzoutmsg_queue_next(A); }
static void process(void) { int64_t st=buzzvm_stack_top(B); buzzvm_process_inmsgs(B); VF_ASSERTM(B->state==BUZZVM_STATE_READY&&buzzvm_stack_top(B)==st,"processed"); VF_ASSERTM(got==nev,"every message of a listened topic is delivered"); }
void vf_main(void) {
  A=mk(7); B=mk(3);
#if MODE==0
  int lt=vf_choose(0,NT-1,"listened"); call(B,"lis",vmh_str(B,T[lt]),vmh_get(B,"l0")); gc(B); int base=total(A); VF_ASSERTM(base==0,"nothing is queued before");
  for (int i=0;i<N;++i) { int t=vf_choose(0,NT-1,"topic"); V* v=mkv(-1); buzzobj_t o=obj(A,v); vmh_seto(A,"held",o); call(A,"bc",vmh_str(A,T[t]),o); VF_ASSERTM(total(A)==i+1,"queued once"); if (v->kind==4) { vmh_tput(A,o,vmh_str(A,"x"),vmh_str(A,"later")); __vf_reach("changed"); } if (t==lt) { ev[nev++]=(EV){0,T[t],v,SID}; __vf_reach("heard"); } else __vf_reach("unheard"); }
  vmh_seto(A,"held",vmh_nil(A)); gc(A); for (int i=0;i<N;++i) { carry(); VF_ASSERTM(total(A)==N-1-i,"sent once"); } VF_ASSERTM(buzzoutmsg_queue_first(A)==NULL,"nothing else is sent"); process(); if (nev>1) __vf_reach("two"); VF_ASSERTM(total(B)==0,"a broadcast is not relayed"); __vf_reach("ok");
#elif MODE==1
  int reg[NT]; for (int i=0;i<NT;++i) reg[i]=-1; int unused=0;
  for (int s=0;s<N+2;++s) { int t=vf_choose(0,NT-1,"topic"); int op= s==0?0:s==N+1?2:vf_choose(0,2,"op"); const char* tp=T[t];
    switch (op) { case 0: { int w=vf_choose(0,1,"who"); call(B,s&1?"lisl":"lis",vmh_str(B,tp),vmh_get(B,w?"l1":"l0")); if (reg[t]>=0&&reg[t]!=w) __vf_reach("replaced"); reg[t]=w; break; }
      case 1: call(B,"ign",vmh_str(B,tp),NULL); if (reg[t]>=0) __vf_reach("ignored"); reg[t]=-1; break;
      default: { V* v=mkv(0); uint16_t from=(uint16_t)(1000*vf_range(0,65,"from")); buzzmsg_payload_t m=buzzmsg_payload_new(8); buzzmsg_serialize_u8(m,BUZZMSG_BROADCAST); buzzobj_serialize(m,vmh_str(A,tp)); buzzobj_serialize(m,obj(A,v)); buzzinmsg_queue_append(B,from,m); if (reg[t]>=0) { ev[nev++]=(EV){reg[t],tp,v,from}; __vf_reach("heard"); } else __vf_reach("unheard"); process(); } }
    if (s==N) gc(B); }
  __vf_reach("ok");
#elif MODE==2
  /* a listener that changes the table, answers, or fails */
  static const char* KIND[]={"ones","swap","echo"}; int k=vf_choose(0,2,"kind"); call(B,KIND[k],vmh_str(B,"a"),vmh_get(B,"l0")); gc(B);
  for (int i=0;i<N;++i) { V* v=mkv(-1); call(A,"bc",vmh_str(A,"a"),obj(A,v)); carry(); int who= i==0?0: k==0?-1: k==1?1:0; if (who>=0) { ev[nev++]=(EV){who,"a",v,SID}; if (i) __vf_reach("again"); } else __vf_reach("stopped"); if (vf_choose(0,1,"round")||i==N-1) process(); } VF_ASSERTM(total(B)==(k==2?N:0),"an answer is queued for each"); __vf_reach("ok");
#else
  /* anything else as an argument is an error, and a failing listener stops the machine with an error */
  buzzobj_t x; switch (vf_choose(0,4,"bad")) { case 0: x=vmh_nil(B); break; case 1: x=vmh_int(B,vf_i32("i")); break; case 2: x=vmh_flt(B,vf_f32("f")); break; case 3: x=vmh_tab(B); break; default: x=vmh_str(B,"s"); }
  static const char* FN[]={"lis","ign","bc","lis"}; int f=vf_choose(0,4,"op"); if (f==4) { call(B,"fail",vmh_str(B,"a"),vmh_get(B,"l0")); V* v=mkv(-1); call(A,"bc",vmh_str(A,"a"),obj(A,v)); carry(); ev[nev++]=(EV){0,"a",v,SID}; buzzvm_process_inmsgs(B); VF_ASSERTM(got==1,"called"); VF_ASSERTM(B->state==(v->kind<2?BUZZVM_STATE_READY:BUZZVM_STATE_ERROR),"an error in a listener is an error"); __vf_reach("ok"); return; }
  buzzobj_t r=vmh_call(B,FN[f],f==1?1:2,f==3?vmh_str(B,"a"):x,f==0?vmh_get(B,"l0"):x,NULL); int ok= f<3&&x->o.type==BUZZTYPE_STRING; VF_ASSERTM((r!=NULL)==ok&&(ok||(B->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(B)!=NULL)),"a topic is a string and a listener a closure"); __vf_reach(ok?"ok":"error");
#endif
  buzzvm_destroy(&A); buzzvm_destroy(&B);
}
