// String manager: id<->string bijection over histories of register / GC cycles with arbitrary mark sets.
// QUICK hist  -DPRE=2 -DOPS=3 -DNS=4 time=200 reach=gc,revive,prot
// QUICK gcset -DPRE=5 -DOPS=1 -DNS=6 -DGCONLY time=200 reach=gc
// QUICK wrap  -DPRE=3 -DOPS=2 -DNS=6 -DWRAP time=300 reach=gc
// QUICK sym   -DSYM time=200
// THOROUGH hist  -DPRE=2 -DOPS=4 -DNS=5 time=1500
// THOROUGH gcset -DPRE=6 -DOPS=2 -DNS=7 -DGCONLY time=1500
// THOROUGH wrap  -DPRE=4 -DOPS=3 -DNS=7 -DWRAP time=1500
// THOROUGH sym   -DSYM -DL=2 time=1500
#include <buzz/buzzstrman.h>
#include "vf.h"
#ifdef SYM
// two (three) arbitrary strings of up to L bytes: equal ids iff equal strings
#ifndef L
#define L 1
#endif
void vf_main(void) {
  char s[2][L+1]; uint16_t id[2]; uint64_t h0=__vf_heap_bytes(); buzzstrman_t m=buzzstrman_new();
  for (int i=0;i<2;i++) { vf_bytes(s[i],L,"s"); s[i][L]=0; id[i]=buzzstrman_register(m,s[i],vf_choose(0,1,"p")); }
  for (int i=0;i<2;i++) { const char* g=buzzstrman_get(m,id[i]); VF_ASSERTM(g&&strcmp(g,s[i])==0,"get(register(s)) is s"); }
  VF_ASSERTM((id[0]==id[1])==(strcmp(s[0],s[1])==0),"equal ids iff equal strings");
  VF_ASSERTM(buzzstrman_register(m,s[0],0)==id[0],"registration is stable");
  buzzstrman_destroy(&m); VF_ASSERTM(__vf_heap_bytes()==h0,"all memory released");
}
#else
static const char* POOL[]={"a","k","u","","ab","name","a "};
static int live[NS], prot[NS]; static uint16_t id[NS]; static buzzstrman_t m;
static void check(void) {
  for (int i=0;i<NS;i++) if (live[i]) { const char* g=buzzstrman_get(m,id[i]); VF_ASSERTM(g&&strcmp(g,POOL[i])==0,"the id of a live string maps to it");
    for (int j=0;j<i;j++) if (live[j]) VF_ASSERTM(id[i]!=id[j],"distinct live strings have distinct ids"); }
}
static void reg(void) {
  int k=vf_choose(0,NS-1,"which"), p=vf_choose(0,1,"protect"); char buf[8]; strcpy(buf,POOL[k]);
  uint16_t r=buzzstrman_register(m,buf,p); memset(buf,'#',7);
  if (live[k]) VF_ASSERTM(r==id[k],"registering a live string again yields the same id"); else { if (id[k]) __vf_reach("revive"); live[k]=1; prot[k]=0; id[k]=r; }
  if (p) prot[k]=1; 
}
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes(); m=buzzstrman_new();
#ifdef WRAP
  /* strings that got the lowest ids survive while 65536 ids are handed out: the counter comes round to ids in use */
  int low=vf_choose(0,2,"low"); for (int k=0;k<low;k++) { live[k]=1; prot[k]=0; id[k]=buzzstrman_register(m,POOL[k],0); }
  m->maxsid=(uint16_t)(65536-vf_choose(1,3,"start"));
#endif
#ifdef GCONLY
  for (int k=0;k<PRE;k++) { live[k]=1; prot[k]=0; id[k]=buzzstrman_register(m,POOL[k],0); }
  if (vf_choose(0,1,"dup")) { prot[0]=1; buzzstrman_register(m,POOL[0],1); }
#else
#ifdef WRAP
  for (int k=low;k<low+PRE;k++) { live[k]=1; prot[k]=0; id[k]=buzzstrman_register(m,POOL[k],0); }
#else
  for (int i=0;i<PRE;i++) reg();
#endif
#endif
  check();
  for (int o=0;o<OPS;o++) {
#ifdef GCONLY
    int op=1;
#else
    int op=vf_choose(0,1,"op");
#endif
    if (op==0) reg();
    else { __vf_reach("gc"); buzzstrman_gc_clear(m);
#ifdef GCONLY
      int rot=vf_choose(0,PRE-1,"order");
#else
      int rot=0;
#endif
      int keep[NS]; for (int q=0;q<NS;q++) { int i=(q+rot)%NS; keep[i]=0; if (!live[i]) continue; keep[i]=prot[i]; if (prot[i]) __vf_reach("prot"); if (vf_choose(0,1,"mark")) { buzzstrman_gc_mark(m,id[i]); keep[i]=1; } }
      buzzstrman_gc_prune(m);
      for (int i=0;i<NS;i++) if (live[i]) { if (!keep[i]) { live[i]=0; VF_ASSERTM(buzzstrman_get(m,id[i])==NULL,"an unmarked unprotected string is gone after a collection"); } }
    }
    check();
  }
  int n=0; for (int i=0;i<NS;i++) n+=live[i]; __vf_out(n);
  buzzstrman_destroy(&m); VF_ASSERTM(__vf_heap_bytes()==h0,"all memory released");
}
#endif
