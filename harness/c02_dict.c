// Dictionary vs abstract finite map.
// QUICK u16a  -DKT=1 -DOPS=3 -DB1=0 -DB2=1 time=250 reach=hit,miss,overwrite,removed
// QUICK i32a  -DKT=2 -DOPS=3 -DB1=0 -DB2=1 time=250
// QUICK i16a  -DKT=4 -DOPS=3 -DB1=1 -DB2=1 time=250
// QUICK u32a  -DKT=5 -DOPS=3 -DB1=1 -DB2=2 time=250
// QUICK str   -DKT=3 -DOPS=3 -DB1=0 -DB2=0 -DSL=2 time=250
// QUICK str2  -DKT=3 -DOPS=2 -DB1=1 -DB2=1 -DSL=2 time=250
// QUICK many  -DKT=1 -DFILL=6 -DOPS=1 -DB1=0 -DB2=1 time=250
// QUICK cus   -DKT=6 -DOPS=4 -DB1=1 -DB2=1 time=250
// QUICK mod3  -DKT=6 -DOPS=2 -DB3 time=250
// THOROUGH u16a  -DKT=1 -DOPS=4 -DB1=0 -DB2=2 time=1500
// THOROUGH i32a  -DKT=2 -DOPS=4 -DB1=0 -DB2=2 time=1500
// THOROUGH i16a  -DKT=4 -DOPS=4 -DB1=1 -DB2=2 time=1500
// THOROUGH u32a  -DKT=5 -DOPS=4 -DB1=0 -DB2=3 time=1500
// THOROUGH u16m3 -DKT=1 -DOPS=2 -DB3 time=1500
// THOROUGH str   -DKT=3 -DOPS=4 -DB1=0 -DB2=1 -DSL=2 time=1500
// THOROUGH str3  -DKT=3 -DOPS=3 -DB1=1 -DB2=2 -DSL=3 time=1500
// THOROUGH many  -DKT=1 -DFILL=9 -DOPS=1 -DB1=0 -DB2=2 time=1500
// THOROUGH cus   -DKT=6 -DOPS=5 -DB1=1 -DB2=1 time=1500
#include <buzz/buzzdict.h>
#include "vf.h"
#ifndef SL
#define SL 2
#endif
#ifndef FILL
#define FILL 0
#endif
typedef uint32_t V;
#if KT==1
typedef uint16_t K;
#define HF buzzdict_uint16keyhash
#define CF buzzdict_uint16keycmp
#define KEQ(a,b) ((a)==(b))
static K mkkey(void) { return vf_u16("k"); }
#elif KT==2
typedef int32_t K;
#define HF buzzdict_int32keyhash
#define CF buzzdict_int32keycmp
#define KEQ(a,b) ((a)==(b))
static K mkkey(void) { return vf_i32("k"); }
#elif KT==4
typedef int16_t K;
#define HF buzzdict_int16keyhash
#define CF buzzdict_int16keycmp
#define KEQ(a,b) ((a)==(b))
static K mkkey(void) { return (int16_t)vf_u16("k"); }
#elif KT==5
typedef uint32_t K;
#define HF buzzdict_uint32keyhash
#define CF buzzdict_uint32keycmp
#define KEQ(a,b) ((a)==(b))
static K mkkey(void) { return vf_u32("k"); }
#elif KT==6
/* arbitrary user hash: any function consistent with equality; here the hash is the low bit, maximal collisions */
typedef uint8_t K;
static uint32_t HF(const void* k) { return *(const uint8_t*)k & 1; }
static int CF(const void* a, const void* b) { return (int)*(const uint8_t*)a-(int)*(const uint8_t*)b; }
#define KEQ(a,b) ((a)==(b))
static K mkkey(void) { return vf_u8("k"); }
#else
typedef char* K;
#define HF buzzdict_strkeyhash
#define CF buzzdict_strkeycmp
static int KEQ(const char* a, const char* b) { return !strcmp(a,b); }
static char pool[16][SL+1]; static int np;
static K mkkey(void) { char* s=pool[np++]; vf_bytes(s,SL,"s"); s[SL]=0; return s; }
#endif
#ifdef B3
#define NB 3
#else
#define NB (1<<vf_choose(B1,B2,"log2buckets"))
#endif
#define MAXN 16
static struct { K k; V v; int live; } M[MAXN]; static int n;
static int mfind(K k) { for (int i=0;i<n;i++) if (M[i].live && KEQ(M[i].k,k)) return i; return -1; }
static int mcount(void) { int c=0; for (int i=0;i<n;i++) c+=M[i].live; return c; }
static int dcalls; static K dkey; static V dval; static buzzdict_t D;
static void dtor(const void* key, void* data, void* params) { dcalls++; dkey=*(K*)key; dval=*(V*)data; free((void*)key); free(data); }
static int visited, vok, seen[MAXN];
static void vis(const void* key, void* data, void* params) { visited++; int i=mfind(*(const K*)key); if (i<0) { vok=0; return; } vok &= M[i].v==*(V*)data && !seen[i]; seen[i]=1; }
static void doset(K k, V v) { int i=mfind(k), d0=dcalls; buzzdict_set(D,&k,&v); if (i>=0) { VF_ASSERTM(dcalls==d0+1 && KEQ(dkey,M[i].k) && dval==M[i].v,"overwriting releases the old entry once"); M[i].v=v; M[i].k=k; __vf_reach("overwrite"); } else { VF_ASSERTM(dcalls==d0,"insertion releases nothing"); M[n].k=k; M[n].v=v; M[n].live=1; n++; } }
static void get(K k) { int i=mfind(k); const V* p=buzzdict_get(D,&k,V); if (i<0) { VF_ASSERTM(p==NULL,"absent key is not found"); __vf_reach("miss"); } else { VF_ASSERTM(p!=NULL,"present key is found"); VF_ASSERTM(*p==M[i].v,"lookup returns the last value stored"); __vf_reach("hit"); } VF_ASSERT(buzzdict_exists(D,&k)==(i>=0)); }
static void op(void) {
  int o=vf_choose(0,2,"op");
  if (o==0) doset(mkkey(),vf_u32("v"));
  else if (o==1) { K k=mkkey(); int i=mfind(k), d0=dcalls; int r=buzzdict_remove(D,&k); if (i<0) VF_ASSERTM(r==0 && dcalls==d0,"removing an absent key does nothing"); else { VF_ASSERTM(r==1,"remove reports success"); VF_ASSERTM(dcalls==d0+1 && KEQ(dkey,M[i].k) && dval==M[i].v,"remove releases exactly that entry"); M[i].live=0; __vf_reach("removed"); } }
  else get(mkkey());
  VF_ASSERTM((int)buzzdict_size(D)==mcount(),"size equals the number of live entries"); VF_ASSERT(buzzdict_isempty(D)==(mcount()==0));
}
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes();
  D=buzzdict_new(NB,sizeof(K),sizeof(V),HF,CF,dtor);
  for (int i=0;i<FILL;i++) { doset((K)(uintptr_t)(i*3+1),vf_u32("v")); }
  for (int i=0;i<OPS;i++) op();
  get(mkkey());
  visited=0; vok=1; buzzdict_foreach(D,vis,NULL); VF_ASSERTM(visited==mcount() && vok,"iteration visits every live entry exactly once");
  __vf_out(mcount()); __vf_out(dcalls);
  int d0=dcalls, c=mcount(); buzzdict_destroy(&D); VF_ASSERTM(D==NULL,"handle cleared"); 
  VF_ASSERTM(dcalls==d0+c,"destroy releases every entry once");
  VF_ASSERTM(__vf_heap_bytes()==h0,"all memory released");
}
