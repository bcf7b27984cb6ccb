// Set vs abstract finite set, every insertion order (hence every tree shape) up to the bound.
// QUICK ops    -DFILL=4 -DOPS=1 time=250 reach=two,dup
// QUICK ops2   -DFILL=3 -DOPS=2 time=250
// QUICK ops3   -DFILL=1 -DOPS=3 time=250
// QUICK nodtor -DFILL=3 -DOPS=1 -DNODTOR time=250
// THOROUGH ops    -DFILL=6 -DOPS=1 time=1500
// THOROUGH ops2   -DFILL=5 -DOPS=2 time=1500
// THOROUGH ops3   -DFILL=1 -DOPS=4 time=1500
// THOROUGH nodtor -DFILL=5 -DOPS=1 -DNODTOR time=1500
#include <buzz/buzzset.h>
#include "vf.h"
typedef int8_t T;
#define MAXN 24
static T M[MAXN]; static int live[MAXN], n, dead[MAXN]; static buzzset_t S;
static int cmp(const void* a, const void* b) { T x=*(const T*)a, y=*(const T*)b; return (x>y)-(x<y); }
static int mfind(T v) { for (int i=0;i<n;i++) if (live[i]&&M[i]==v) return i; return -1; }
static int count(void) { int c=0; for (int i=0;i<n;i++) c+=live[i]; return c; }
static int dcalls; static T dval; 
static void dtor(void* d, void* p) { dcalls++; dval=*(T*)d; (void)p; }
static int vis, vok, seen[MAXN]; static void fe(void* d, void* p) { vis++; int i=mfind(*(T*)d); if (i<0||seen[i]) vok=0; else seen[i]=1; vok&=p==(void*)&vok; }
static void check(void) {
  VF_ASSERTM((int)buzzset_size(S)==count(),"size equals the number of elements"); VF_ASSERT(buzzset_isempty(S)==(count()==0));
  for (int i=0;i<n;i++) if (live[i]) { const T* f=buzzset_fetch(S,&M[i],T); VF_ASSERTM(f!=NULL && *f==M[i],"every element inserted and not removed is found intact"); }
  for (int i=0;i<n;i++) seen[i]=0; vis=0; vok=1; buzzset_foreach(S,fe,&vok); VF_ASSERTM(vis==count()&&vok,"iteration visits each element exactly once");
}
static void ins(void) { T v=(T)vf_u8("v"); int i=mfind(v), d0=dcalls; buzzset_insert(S,&v); if (i<0) { M[n]=v; live[n]=1; n++; } else __vf_reach("dup"); VF_ASSERTM(dcalls==d0,"insertion destroys nothing"); }
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes();
#ifdef NODTOR
  S=buzzset_new(sizeof(T),cmp,NULL);
#else
  S=buzzset_new(sizeof(T),cmp,dtor);
#endif
  for (int i=0;i<FILL;i++) ins();
  check();
  for (int o=0;o<OPS;o++) {
    if (vf_choose(0,1,"op")) ins();
    else { T v=(T)vf_u8("v"); int i=mfind(v), d0=dcalls; buzzset_remove(S,&v); if (i<0) VF_ASSERTM(dcalls==d0,"removing an absent element does nothing"); else { live[i]=0; __vf_reach("two");
#ifndef NODTOR
      VF_ASSERTM(dcalls==d0+1 && dval==v,"removal releases exactly the removed element");
#endif
      } }
    check();
  }
  T q=(T)vf_u8("q"); VF_ASSERTM((buzzset_find(S,&q)!=NULL)==(mfind(q)>=0),"membership");
  __vf_out(count()); int d0=dcalls,c=count(); buzzset_destroy(&S); VF_ASSERT(S==NULL);
#ifndef NODTOR
  VF_ASSERTM(dcalls==d0+c,"destroy releases every element once");
#endif
  VF_ASSERTM(__vf_heap_bytes()==h0,"all memory released");
}
