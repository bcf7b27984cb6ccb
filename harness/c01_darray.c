// Dynamic array vs abstract sequence.
// QUICK step   -DMODE=1 -DK=7 -DOPS=1 -DCAPS=3 time=200 reach=insert,remove,clone,find
// QUICK step1  -DMODE=1 -DK=5 -DOPS=1 -DCAPS=2 -DELEM=1 time=200
// QUICK step8  -DMODE=1 -DK=5 -DOPS=1 -DCAPS=2 -DELEM=8 time=200
// QUICK hist   -DMODE=1 -DK=2 -DOPS=3 -DCAPS=2 time=200
// QUICK sort   -DMODE=2 -DK=5 time=200 reach=sort
// QUICK seq    -DMODE=3 -DK=20 time=200
// QUICK buf    -DMODE=4 -DK=5 time=100
// THOROUGH step   -DMODE=1 -DK=14 -DOPS=1 -DCAPS=5 time=1200
// THOROUGH step2  -DMODE=1 -DK=6 -DOPS=2 -DCAPS=2 time=1200
// THOROUGH step1  -DMODE=1 -DK=9 -DOPS=1 -DCAPS=3 -DELEM=1 time=1200
// THOROUGH step8  -DMODE=1 -DK=9 -DOPS=1 -DCAPS=3 -DELEM=8 time=1200
// THOROUGH hist   -DMODE=1 -DK=2 -DOPS=4 -DCAPS=1 time=1200
// THOROUGH sort   -DMODE=2 -DK=7 time=1200
// THOROUGH seq    -DMODE=3 -DK=70 time=1200
// THOROUGH buf    -DMODE=4 -DK=9 time=300
#include <buzz/buzzdarray.h>
#include "vf.h"
#ifndef ELEM
#define ELEM 4
#endif
#if ELEM==1
typedef uint8_t T;
#elif ELEM==8
typedef uint64_t T;
#else
typedef uint32_t T;
#endif
static T M[128]; static int N;            /* the abstract sequence */
static int destroyed; static T lastd;
static void dtor(uint32_t pos, void* data, void* params) { destroyed++; lastd=*(T*)data; (void)pos; (void)params; }
static int cmp(const void* a, const void* b) { T x=*(const T*)a, y=*(const T*)b; return (x>y)-(x<y); }
static T val(void) { return (T)__vf_sym(8*ELEM,"v"); }
static void check(buzzdarray_t a) {
  VF_ASSERTM(buzzdarray_size(a)==N, "size differs from the abstract sequence");
  int ok=1; for (int i=0;i<N;i++) ok &= buzzdarray_get(a,i,T)==M[i];
  VF_ASSERTM(ok, "contents differ from the abstract sequence");
  VF_ASSERTM(buzzdarray_isempty(a)==(N==0), "isempty");
  if (N) VF_ASSERTM(buzzdarray_last(a,T)==M[N-1], "last");
}
static int fecount, feok; static void fe(uint32_t pos, void* data, void* p) { feok &= (int)pos==fecount && *(T*)data==M[pos] && p==(void*)&feok; fecount++; }
static void minsert(int p, T v) { for (int i=N;i>p;i--) M[i]=M[i-1]; M[p]=v; N++; }
static void mremove(int p) { for (int i=p;i+1<N;i++) M[i]=M[i+1]; N--; }
static void op(buzzdarray_t a) {
  int o=vf_choose(0,8,"op"); int d0=destroyed;
  if (o==0) { T v=val(); buzzdarray_push(a,&v); minsert(N,v); VF_ASSERTM(destroyed==d0,"destructor on push"); }
  else if (o==1) { if (N) { T x=M[N-1]; buzzdarray_pop(a); mremove(N-1); VF_ASSERTM(destroyed==d0+1 && lastd==x,"pop releases exactly the popped element"); } }
  else if (o==2) { int p=vf_choose(0,N,"pos"); T v=val(); buzzdarray_insert(a,p,&v); minsert(p,v); __vf_reach("insert"); VF_ASSERTM(destroyed==d0,"destructor on insert"); }
  else if (o==3) { int p=vf_choose(0,N+1,"pos"); T x=p<N?M[p]:0; buzzdarray_remove(a,p); if (p<N) { mremove(p); __vf_reach("remove"); VF_ASSERTM(destroyed==d0+1 && lastd==x,"remove releases exactly the removed element"); } else VF_ASSERTM(destroyed==d0,"out-of-range remove is a no-op"); }
  else if (o==4) { if (N) { int p=vf_choose(0,N-1,"pos"); T v=val(); buzzdarray_set(a,p,&v); M[p]=v; } }
  else if (o==5) { T v=val(); uint32_t r=buzzdarray_find(a,cmp,&v); int e=N; for (int i=N-1;i>=0;i--) if (M[i]==v) e=i; VF_ASSERTM((int)r==e,"find returns first match or size"); __vf_reach("find"); }
  else if (o==6) { buzzdarray_t c=buzzdarray_clone(a); __vf_reach("clone"); check(c); T v=val(); 
      /* mutate the clone: original unaffected */ buzzdarray_push(c,&v); if (N) { T z=(T)~M[0]; buzzdarray_set(c,0,&z); } check(a);
      /* mutate the original: clone unaffected */ T w=val(); buzzdarray_insert(a,0,&w); VF_ASSERTM(buzzdarray_size(c)==N+1 && buzzdarray_get(c,N,T)==v,"clone is independent"); minsert(0,w); buzzdarray_destroy(&c); VF_ASSERT(c==NULL); }
  else if (o==7) { buzzdarray_clear(a,1+(N&3)); VF_ASSERTM(destroyed==d0+N,"clear releases every element once"); N=0; }
  else { fecount=0; feok=1; buzzdarray_foreach(a,fe,&feok); VF_ASSERTM(fecount==N && feok,"foreach visits each element once in order"); }
  check(a);
}
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes();
#if MODE==1
  int cap=vf_choose(1,CAPS,"cap"); buzzdarray_t a=buzzdarray_new(cap,sizeof(T),dtor);
  int k=vf_choose(0,K,"n"), j=vf_choose(0,k,"pops");
  for (int i=0;i<k;i++) { T v=val(); buzzdarray_push(a,&v); minsert(N,v); }
  for (int i=0;i<j;i++) { buzzdarray_pop(a); N--; }
  check(a);
  for (int i=0;i<OPS;i++) op(a);
  int d0=destroyed; buzzdarray_destroy(&a); VF_ASSERTM(destroyed==d0+N && a==NULL,"destroy releases every element once");
#elif MODE==2
  buzzdarray_t a=buzzdarray_new(2,sizeof(T),NULL); int k=vf_choose(0,K,"n"); T in[K+1];
  for (int i=0;i<k;i++) { in[i]=val(); buzzdarray_push(a,&in[i]); }
  buzzdarray_sort(a,cmp); VF_ASSERT(buzzdarray_size(a)==k);
  int ok=1; for (int i=0;i+1<k;i++) ok &= buzzdarray_get(a,i,T)<=buzzdarray_get(a,i+1,T); VF_ASSERTM(ok,"sorted");
  T q=val(); int c1=0,c2=0; for (int i=0;i<k;i++) { c1+=in[i]==q; c2+=buzzdarray_get(a,i,T)==q; } VF_ASSERTM(c1==c2,"sort permutes its input"); __vf_reach("sort");
  buzzdarray_destroy(&a);
#elif MODE==3
  /* long monotone history: grow to K, then shrink to nothing, values arbitrary */
  buzzdarray_t a=buzzdarray_new(1,sizeof(T),dtor); int front=vf_choose(0,1,"front"), rfront=vf_choose(0,1,"rfront");
  for (int i=0;i<K;i++) { T v=val(); if (front) { buzzdarray_insert(a,0,&v); minsert(0,v); } else { buzzdarray_push(a,&v); minsert(N,v); } check(a); }
  while (N) { int p=rfront?0:N-1; buzzdarray_remove(a,p); mremove(p); check(a); }
  for (int i=0;i<3;i++) { T v=val(); buzzdarray_push(a,&v); minsert(N,v); check(a); }
  buzzdarray_destroy(&a);
#else
  T in[K]; int k=vf_choose(1,K,"n"); for (int i=0;i<k;i++) { in[i]=val(); minsert(N,in[i]); }
  buzzdarray_t a=buzzdarray_frombuffer(in,k*sizeof(T),sizeof(T),dtor); check(a);
  in[0]=(T)~in[0]; check(a); op(a); op(a); buzzdarray_destroy(&a);
#endif
  VF_ASSERTM(__vf_heap_bytes()==h0,"all memory released");
  __vf_out(N); for (int i=0;i<N;i++) __vf_out(M[i]);
}
